#!/usr/bin/env python3
"""replay.py FILE: run a recorded counterexample against the real code of /repo (plain, then ASan, then UBSan build)."""
import json, os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vs
r = json.load(open(sys.argv[1])); vs.ensure_engine()
tmp = tempfile.mkdtemp(prefix="vs_replay_")
try:
    jobs = [dict(j) for j in vs.CHECKS[r["property"]]["jobs"]]; j = next(x for x in jobs if x["entry"] == r["entry"]); j["_all"] = [k for k in jobs if k["src"] == j["src"]]
    u = vs.Unit(tmp, j["src"], list(j.get("defs", ())), j)
    for k in ("plain", "asan", "ubsan"):
        if k != "plain" and j.get("threads"): continue
        rc, out, err = vs.run_native(u.native(k), r["entry"], [x[1] for x in r["inputs"]], tmp, 20)
        print("%s build: exit %s\n%s%s" % (k, rc, out[-1500:], err[-1500:]))
finally:
    shutil.rmtree(tmp, ignore_errors=True)
