#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/seed_results.json."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(V + "/tools/seed_results.json")) if os.path.exists(V + "/tools/seed_results.json") else {}
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for p in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = p.split("/")[-2]; m = json.load(open(p)); r = res.get(i, {})
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), ", ".join(sorted(c for c in r if r[c])) or "none"))
t = open(V + "/DESIGN.md").read()
a = t.index("<!-- SEEDED -->")
open(V + "/DESIGN.md", "w").write(t[:a] + "<!-- SEEDED -->\n" + "\n".join(rows) + "\n")
