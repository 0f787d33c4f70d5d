"""Adds a 'fixed' entry: python3 tools/fixed.py Cxx <commit> <what failed>"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
e = "fixed: property=%s %s %s" % (sys.argv[1], sys.argv[2], sys.argv[3])
if e not in d["fixed"]:
    d["fixed"].append(e)
json.dump(d, open(p, "w"), indent=1)
