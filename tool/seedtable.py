"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {}
rows = ["| change | property | what it breaks | needs | caught by |", "| --- | --- | --- | --- | --- |"]
for p in sorted(glob.glob(here + "/seeded/*/meta.json")):
    d = json.load(open(p))
    n = os.path.basename(os.path.dirname(p))
    rows.append("| %s | %s | %s | %s | %s |" % (n, d["property"], d["what_it_breaks"], d["needs"], MISSED.get(n, d["property"])))
s = open(here + "/DESIGN.md").read()
a = "## Planted changes and the checks that catch them\n"
i = s.index(a) + len(a)
open(here + "/DESIGN.md", "w").write(s[:i] + "\n" + "\n".join(rows) + "\n")
