#!/usr/bin/env python3
"""Runs the solver-based check of one property. usage: vs.py PROPERTY [quick|thorough] [--entry NAME] [--keep]
exit 0: holds on everything explored; 1: VIOLATION line; 2: the check could not decide (never a verdict)."""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VS_REPO", "/repo")
sys.path.insert(0, HERE)
from checks import CHECKS

CXX = "clang++-18" if shutil.which("clang++-18") else "clang++"
CC = "clang-18" if shutil.which("clang-18") else "clang"
VSX = os.path.join(HERE, "build", "vsx")
OPT = "opt-18" if shutil.which("opt-18") else "/usr/lib/llvm-18/bin/opt"
LINK = "llvm-link-18" if shutil.which("llvm-link-18") else "/usr/lib/llvm-18/bin/llvm-link"
BASE = ["-std=c++17", "-m64", "-fno-rtti", "-fno-exceptions", "-DDEBUG", "-Wno-enum-constexpr-conversion", "-w",
        "-I" + REPO + "/lib/h", "-I" + REPO + "/lib", "-I" + HERE + "/rt", "-I" + HERE + "/harness/win", '-DCE_USER_INCLUDE="vs_config.h"', "-fno-threadsafe-statics",
        '-DVS_REPO="' + REPO + '"']
PASSES = "function(sroa,early-cse,simplifycfg<bonus-inst-threshold=8>),cgscc(inline),function(sroa,early-cse,simplifycfg<bonus-inst-threshold=8;switch-range-to-icmp;hoist-common-insts>,early-cse)"
INLINE_T = "-inline-threshold=%d"


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace", **kw)


try:
    KNOWN = json.load(open(os.path.join(HERE, "known_findings.json")))["findings"]
except FileNotFoundError:
    KNOWN = []


class Fail(Exception):
    pass


def must(cmd, **kw):
    r = sh(cmd, **kw)
    if r.returncode:
        raise Fail("command failed: %s\n%s" % (" ".join(cmd)[-120:], "\n".join(l[:240] for l in r.stdout.splitlines() if "error:" in l or "undefined reference" in l)[:700] or r.stdout[-700:]))
    return r.stdout


def ensure_engine():
    src = [os.path.join(HERE, "engine", f) for f in ("expr.cpp", "solver.cpp", "exec.cpp", "instr.inc", "poly.inc", "expr.h", "solver.h", "Makefile")]
    if not os.path.exists(VSX) or any(os.path.getmtime(f) > os.path.getmtime(VSX) for f in src):
        must(["make", "-s", "-j4", "-C", os.path.join(HERE, "engine"), "OUT=" + os.path.join(HERE, "build")])


class Unit:
    """one harness source with one set of compile flags"""
    def __init__(self, tmp, src, defs, job):
        self.tmp, self.src, self.defs, self.job = tmp, os.path.join(HERE, "harness", src), list(defs), job
        self.lock = threading.Lock(); self.bc = None; self.nat = {}
        self.name = os.path.join(tmp, re.sub(r"\W", "_", src + "_".join(defs)))

    def bitcode(self):
        with self.lock:
            if self.bc: return self.bc
            n = self.name
            extra = self.job.get("cflags", [])
            must([CXX, *BASE, *self.defs, "-O1", "-Xclang", "-disable-llvm-passes", "-gline-tables-only", "-emit-llvm", "-c", *extra, self.src, "-o", n + ".0.bc"])
            must([CC, "-O1", "-Xclang", "-disable-llvm-passes", "-fno-builtin", "-emit-llvm", "-c", HERE + "/rt/rt.c", "-o", n + ".rt.bc"])
            must([LINK, "--only-needed", n + ".0.bc", n + ".rt.bc", "-o", n + ".1.bc"])
            inst = []
            cur = n + ".1.bc"
            if self.job.get("threads"):
                must([CXX, "-std=c++17", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-builtin", "-fno-rtti", "-fno-exceptions", "-w", "-I" + HERE + "/rt", "-emit-llvm", "-c", HERE + "/rt/vs_atomic.cpp", "-o", n + ".at.bc"])
                must([VSX, "--instrument", cur, "--repo", REPO, "--out", n + ".j.bc"])
                must([LINK, n + ".j.bc", n + ".at.bc", "-o", n + ".i.bc"]); cur = n + ".i.bc"
            self.inst = cur
            must([OPT, "-passes=" + self.job.get("passes", PASSES), INLINE_T % self.job.get("inline", 100), "-phi-node-folding-threshold=%d" % self.job.get("fold", 4), cur, "-o", n + ".bc"])
            self.bc = n + ".bc"
            return self.bc

    def native(self, kind):
        if self.job.get("threads"): self.bitcode()
        with self.lock:
            if kind in self.nat: return self.nat[kind]
            out = self.name + "." + kind
            fl = {"plain": ["-O1"], "asan": ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"], "ubsan": ["-O1", "-fsanitize=undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr,alignment,pointer-overflow"], "msan": ["-O0", "-fsanitize=memory", "-fno-omit-frame-pointer"]}[kind]
            if self.job.get("threads"):
                # the instrumented bitcode itself is what runs natively
                must([CXX, "-O1", "-std=c++17", "-w", "-I" + HERE + "/rt", "-DVS_NATIVE", "-c", HERE + "/rt/vs_native.cpp", "-o", out + ".rt.o"])
                ents = sorted({j["entry"] for j in self.job["_all"]})
                with open(out + ".reg.cpp", "w") as f:
                    f.write('#include "vs.h"\n' + "".join('extern "C" void %s(); static vs_entry_reg r_%s{"%s", %s};\n' % (e, e, e, e) for e in ents))
                must([CXX, "-O1", "-std=c++17", "-I" + HERE + "/rt", "-DVS_NATIVE", "-c", out + ".reg.cpp", "-o", out + ".reg.o"])
                must([CC, "-O1", "-w", "-c", self.inst, "-o", out + ".h.o"])
                must([CXX, out + ".rt.o", out + ".reg.o", out + ".h.o", "-o", out])
            else:
                must([CXX, *BASE, *self.defs, *fl, "-g1", "-DVS_NATIVE", *self.job.get("native_flags", []), HERE + "/rt/vs_native.cpp", self.src, "-o", out])
            self.nat[kind] = out
            return out


def run_native(binary, entry, inputs, tmp, timeout=10):
    fd, fn = tempfile.mkstemp(dir=tmp); os.write(fd, ("\n".join(inputs) + "\n").encode()); os.close(fd)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=43", UBSAN_OPTIONS="exitcode=44", MSAN_OPTIONS="exitcode=45")
    try:
        p = subprocess.run([binary, entry, fn], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, stdin=subprocess.DEVNULL)
        return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return "timeout", "", ""
    finally:
        os.unlink(fn)


def confirm(unit, entry, v, tmp):
    """replay a counterexample against the real code; returns a description or None"""
    inputs = [x[1] for x in v["inputs"]]
    rc, out, err = run_native(unit.native("plain"), entry, inputs, tmp)
    if rc == "timeout": return "the real code does not terminate within 10 s"
    if rc == 42: return "real code: " + out.strip().splitlines()[-1]
    if isinstance(rc, int) and rc < 0: return "real code killed by signal %d" % -rc
    if True:
        # an assertion that fails for some content of memory never written shows natively as a use of uninitialised memory
        for k in ("asan", "ubsan", "msan") if v["kind"] != "assertion" or rc != 0 else ("msan",):
            if unit.job.get("threads"): continue
            rc2, out2, err2 = run_native(unit.native(k), entry, inputs, tmp, 20)
            if rc2 in (42, 43, 44, 45) or (isinstance(rc2, int) and rc2 < 0):
                m = re.search(r"(ERROR: AddressSanitizer: \S+|WARNING: MemorySanitizer: \S+|runtime error: .*|CHECK-FAILED.*)", out2 + err2)
                return "real code (%s): %s" % (k, m.group(1) if m else "exit %s" % rc2)
    return None


def is_known(prop, entry, v):
    """an entry of known_findings.json matches by property, harness entry and assertion (and, where given, the inputs)"""
    for k in KNOWN:
        if k["property"] != prop or k.get("status") != "open" or k["entry"] != entry or k["label"] != v["label"]: continue
        ins = dict(v["inputs"])
        if all(ins.get(n) == str(x) for n, x in k.get("inputs", {}).items()): return k
    return None


def main():
    a = [x for x in sys.argv[1:] if not x.startswith("--")]
    prop = a[0]; tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    only = None
    if "--entry" in sys.argv:
        only = sys.argv[sys.argv.index("--entry") + 1]; a = [x for x in a if x != only]
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    keep = "--keep" in sys.argv; verbose = "--verbose" in sys.argv
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    spec = CHECKS[prop]
    jobs = [dict(j) for j in spec["jobs"] if tier in j.get("tiers", ("quick", "thorough"))]
    if only: jobs = [j for j in jobs if j["entry"] == only]
    ensure_engine()
    tmp = tempfile.mkdtemp(prefix="vs_%s_" % prop)
    units = {}; results = []; problems = []; viols = []; undecided = []
    stop = threading.Event(); procs = set(); plock = threading.Lock()
    budget = spec.get("budget", {}).get(tier, 600 if tier == "quick" else 3000)

    def run(j):
        if stop.is_set(): return
        key = (j["src"], tuple(j.get("defs", ())), j.get("inline", 100), j.get("fold", 4), bool(j.get("threads")), tuple(j.get("cflags", ())))
        with plock:
            u = units.get(key)
            if not u:
                j["_all"] = [k for k in jobs if k["src"] == j["src"]]
                u = units[key] = Unit(tmp, j["src"], list(j.get("defs", ())) , j); u.name += "_%d" % len(units)
        bc = u.bitcode()
        out = "%s.%s.json" % (u.name, j["entry"])
        left = max(5, min(j.get("time", {}).get(tier, 300) if isinstance(j.get("time"), dict) else j.get("time", 300), budget - (time.time() - t0)))
        cmd = [VSX, bc, "--entry", j["entry"], "--out", out, "--time", str(left), "--seed", str(seed), "--tmp", tmp, "--steps", str(j.get("steps", 4000000)), "--maxq", str(min(left, j.get("maxq", 300)))] + j.get("args", [])
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
        with plock: procs.add(p)
        try:
            so = p.communicate(timeout=left + 60)[0].decode(errors="replace")
        except subprocess.TimeoutExpired:
            p.kill(); so = "engine did not stop"; p.wait()
        with plock: procs.discard(p)
        if stop.is_set(): return
        if not os.path.exists(out):
            problems.append("%s: engine failed (%s): %s" % (j["entry"], p.returncode, so[-500:])); return
        r = json.load(open(out)); r["src"] = j["src"]; r["job"] = j
        if verbose and so.strip(): print(so, file=sys.stderr)
        conf = []
        for v in r["violations"]:
            d = confirm(u, j["entry"], v, tmp)
            if d: conf.append((v, d))
            else: problems.append("%s: counterexample for '%s' (%s at %s) does not reproduce natively: %s" % (j["entry"], v["label"], v["kind"], v["loc"], v["inputs"][:40]))
        r["confirmed"] = len(conf)
        if conf:
            viols.extend((j, u, v, d) for v, d in conf)
        elif r["status"] != "ok":
            hard = [e for e in r["errors"] if not re.match(r"time limit|solver gave no answer", e)] or r["violations"]
            (problems if hard else undecided).append("%s: %s %s" % (j["entry"], r["status"], "; ".join(r["errors"])[:600]))
        elif r["paths"] == 0:
            problems.append("%s: no path completes (vacuous)" % j["entry"])
        # differential validation of the encoding against the real code
        r["validated"] = 0
        if not conf and r["tests"] and not stop.is_set():
            nb = u.native("plain")
            for t in r["tests"]:
                rc, o, e = run_native(nb, j["entry"], t["inputs"], tmp)
                obs = [l[4:] for l in o.splitlines() if l.startswith("OBS ")]
                if rc != 0 or obs != t["obs"]:
                    if rc == 42 or rc == "timeout" or (isinstance(rc, int) and rc < 0):
                        # the real code fails a check on a path the encoding accepted: the encoding is wrong here
                        problems.append("%s: encoding and real code disagree (rc %s) on %s: %s" % (j["entry"], rc, t["inputs"][:30], o[-300:])); break
                    problems.append("%s: encoding and real code disagree on %s: engine %s native %s rc %s" % (j["entry"], t["inputs"][:30], t["obs"][:20], obs[:20], rc)); break
                r["validated"] += 1
        results.append(r)
        if any(not is_known(prop, j["entry"], v) for v, _ in conf): stop.set()

    try:
        with cf.ThreadPoolExecutor(int(os.environ.get("VS_JOBS", "8"))) as ex:
            futs = [ex.submit(run, j) for j in jobs]
            for f in cf.as_completed(futs):
                try: f.result()
                except Fail as e: problems.append(str(e))
                except Exception as e: problems.append("internal: %r" % e)
                if stop.is_set():
                    with plock:
                        for p in procs:
                            try: os.killpg(p.pid, 9)
                            except OSError: pass
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        # an assertion or a cover point that no part of the check reaches would be vacuous
        reached = {l for r in results for l in r["labels"]} | {"cover:" + l for r in results for l in r["covers"]}
        for r in results:
            un = [l for l in r["unreached"] if only or l not in reached]
            if un and not stop.is_set() and not viols: problems.append("%s: never reached (vacuous): %s" % (r["entry"], un))
        rc = 0
        known = [x for x in viols if is_known(prop, x[0]["entry"], x[2])]
        viols = [x for x in viols if not is_known(prop, x[0]["entry"], x[2])]
        seen = {}
        for j, u, v, d in known: seen.setdefault(is_known(prop, j["entry"], v)["what"], d)
        for w, d in seen.items(): print("KNOWN-FINDING: property=%s %s [%s]" % (prop, w, d))
        if viols:
            j, u, v, d = viols[0]
            rdir = os.path.join(HERE, "evidence", "replay"); os.makedirs(rdir, exist_ok=True)
            rp = os.path.join(rdir, "%s.json" % prop)
            json.dump({"property": prop, "harness": j["src"], "entry": j["entry"], "label": v["label"], "kind": v["kind"], "where": v["loc"], "native": d, "inputs": v["inputs"],
                       "how": "python3 /verif/replay.py " + rp}, open(rp, "w"), indent=1)
            print("%s: %s (%s) at %s; %s" % (j["entry"], v["label"], v["kind"], v["loc"], d))
            print("  inputs: " + ", ".join("%s=%s" % tuple(x) for x in v["inputs"][:64]))
            print("VIOLATION property=%s replay=%s" % (prop, rp)); rc = 1
        elif problems and (os.environ.get("VS_STRICT") or not any(r["status"] == "ok" for r in results)):
            rc = 2
        for p in problems: print("NOTE " + p if rc == 1 else "ERROR " + p if rc == 2 else "NOT-DECIDED (outside what was explored) " + p)
        # an obligation the solvers did not decide in time is reported as such; it is neither a violation nor counted as shown
        for p in undecided: print("NOT-DECIDED (outside what was explored) " + p)
        problems = problems + undecided
        evidence(prop, spec, tier, seed, results, time.time() - t0, len(viols), problems)
        if verbose or rc == 2 or True:
            for r in sorted(results, key=lambda r: -r["wall_s"]):
                print("  %-34s %-10s paths %-6d checks %-6d queries %-6d solver %.1fs wall %.1fs validated %d" % (r["entry"], r["status"], r["paths"], r["checks"], r["queries"], r["solver_s"], r["wall_s"], r.get("validated", 0)))
        print("%s %s: %s in %.1fs" % (prop, tier, {0: "holds on everything explored" + (", %d part(s) NOT decided" % len(problems) if problems else ""), 1: "VIOLATED", 2: "check error"}[rc], time.time() - t0))
        sys.stdout.flush()
        return rc
    finally:
        if not keep: shutil.rmtree(tmp, ignore_errors=True)
        else: print("kept", tmp)


def evidence(prop, spec, tier, seed, results, wall, nviol, problems):
    fns = sorted({f for r in results for f in r["functions"]})
    cov = {
        "states": sum(r["paths"] for r in results), "transitions": sum(r["steps"] for r in results),
        "traces_validated_against_impl": sum(r.get("validated", 0) for r in results),
        "samples": [{"entry": r["entry"], "inputs": r["tests"][i]["inputs"][:48], "observed": r["tests"][i]["obs"][:16]} for r in results for i in range(min(2, len(r["tests"])))][:24],
        "states_meaning": "symbolic paths explored to the end, each covering every input value that takes it", "transitions_meaning": "LLVM IR instructions executed symbolically",
        "functions_encoded": fns[:300], "functions_encoded_count": len(fns),
        "assertions_evaluated": sum(r["checks"] for r in results), "assertions": sorted({l for r in results for l in r["labels"]})[:200],
        "queries": sum(r["queries"] for r in results), "queries_sat": sum(r["sat"] for r in results), "queries_unsat": sum(r["unsat"] for r in results), "queries_unknown": sum(r["unknown"] for r in results),
        "solver_s": round(sum(r["solver_s"] for r in results), 3), "max_query_s": max([r["max_query_s"] for r in results] or [0]),
        "portfolio": [r["portfolio_log"] for r in results if r["portfolio_log"]][:20],
        "reachability_witnesses": sorted({l for r in results for l in r["covers"]}),
        "bounds": spec.get("bounds", {}).get(tier, spec.get("bounds", {}).get("quick", "")) if isinstance(spec.get("bounds"), dict) else spec.get("bounds", ""),
        "outside": spec.get("outside", ""),
        "jobs": [{"entry": r["entry"], "harness": r["src"], "status": r["status"], "paths": r["paths"], "checks": r["checks"], "queries": r["queries"], "solver_s": r["solver_s"], "wall_s": r["wall_s"], "validated": r.get("validated", 0)} for r in sorted(results, key=lambda r: r["entry"])],
        "undecided": problems[:20],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 3), "violations": nviol}
    p = os.path.join(HERE, "evidence", prop + ".json")
    s = json.dumps(ev, indent=1)
    while len(s) > 60000:
        cov["samples"] = cov["samples"][:len(cov["samples"]) // 2]; cov["functions_encoded"] = cov["functions_encoded"][:len(cov["functions_encoded"]) * 2 // 3]; cov["jobs"] = cov["jobs"][:60]; cov["assertions"] = cov["assertions"][:60]
        s = json.dumps(ev, indent=0)
    open(p, "w").write(s)


if __name__ == "__main__":
    sys.exit(main())
