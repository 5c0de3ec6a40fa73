"""kf.py PROP COMMIT WHAT : record a repaired defect in known_findings.json"""
import json, sys, os
fn = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
k = json.load(open(fn))
p, c, w = sys.argv[1:4]
k.append({"status": "fixed", "property": p, "commit": c, "what": w, "text": "fixed: property=%s %s %s" % (p, c, w)})
json.dump(k, open(fn, "w"), indent=1); open(fn, "a").write("\n")
