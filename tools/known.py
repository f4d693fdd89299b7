import json,sys,subprocess
# usage: known.py PROP COMMIT-SUBJECT-PREFIX "what failed"  -> records a fixed finding
p='/verif/known_findings.json'; k=json.load(open(p)); prop,c,what=sys.argv[1:4]
k["findings"].append({"property":prop,"status":"fixed","commit":c,"what":"fixed: property=%s %s %s"%(prop,c,what)}); json.dump(k,open(p,'w'),indent=1)
