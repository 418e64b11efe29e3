"""kf.py <text>: add a "fixed:" entry."""
import json, sys
p = "/verif/known_findings.json"
d = json.load(open(p)); d["fixed"] += ["fixed: " + t for t in sys.argv[1:]]
json.dump(d, open(p, "w"), indent=1); print(len(d["fixed"]))
