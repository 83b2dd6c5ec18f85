"""python3 tools/finding.py PROP SIG CONTAINS PLANFILE TITLE...  -> adds a finding to known_findings.json"""
import json, sys, os
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
e = dict(property=sys.argv[1], sig=sys.argv[2], contains=sys.argv[3], plan=json.load(open(sys.argv[4])) if sys.argv[4] != "-" else None, title=" ".join(sys.argv[5:]))
d["findings"] = [f for f in d["findings"] if not (f["property"] == e["property"] and f["sig"] == e["sig"] and f["contains"] == e["contains"])] + [e]
json.dump(d, open(p, "w"), indent=1)
