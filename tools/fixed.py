"""python3 tools/fixed.py PROP HASH what failed  -> adds a fixed line to known_findings.json"""
import json, sys, os
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
l = "fixed: property=%s %s %s" % (sys.argv[1], sys.argv[2], " ".join(sys.argv[3:]))
if l not in d["fixed"]:
    d["fixed"].append(l)
json.dump(d, open(p, "w"), indent=1)
