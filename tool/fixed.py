#!/usr/bin/env python3
"""fixed.py PROP COMMIT 'what failed' : records a repaired defect in known_findings.json"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
prop, com, what = sys.argv[1:4]
t = "fixed: property=%s %s %s" % (prop, com, what)
d["findings"].append({"property": prop, "status": "fixed", "key": "fixed: property=%s %s" % (prop, com), "what": t})
json.dump(d, open(p, "w"), indent=1)
open(p, "a").write("\n")
