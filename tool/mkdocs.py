#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tool/props.py and the check modules."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/analysis", V + "/analysis/checks", V + "/tool"]
from props import PROPS, NA
from notes import NOTES

out, checks, na = [], [], []
for p in PROPS:
    rec = {"id": p["id"], "title": p["title"], "statement": p["statement"],
           "quantifier": {"over": p["over"], "text": p["forall"]}, "why_tests_cant": p["why"],
           "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
    assert len(rec["title"]) <= 80, p["id"]
    out.append(rec)
    cm = V + "/analysis/checks/check_%s.py" % p["id"].lower()
    if os.path.exists(cm) and p["id"] not in NA:
        mod = importlib.import_module("check_" + p["id"].lower())
        checks.append({"property": p["id"], "quick_cmd": "bash check.sh %s quick" % p["id"], "thorough_cmd": "bash check.sh %s thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"], "technique": "static analysis: " + mod.TECHNIQUE.split(":")[0].split(".")[0][:180],
                       "level": mod.LEVEL, "level_note": NOTES[p["id"]]})
    else:
        na.append({"property": p["id"], "reason": NA[p["id"]]})
with open(V + "/properties.jsonl", "w") as fh:
    for r in out:
        fh.write(json.dumps(r) + "\n")
json.dump({"version": 1, "setup_cmd": "bash tool/build.sh", "checks": checks, "not_applicable": na,
           "notes": "Every check is a static analysis of /repo's current sources; nothing of /repo is executed and /repo carries no hooks. See DESIGN.md."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(out), "properties,", len(checks), "checks,", len(na), "not applicable")
