#!/usr/bin/env python3
"""rewrites the table of planted bugs in DESIGN.md"""
import json, os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
s = open("DESIGN.md").read()
i, j = s.index("| bug | property | needs |"), s.index("Misses found this way")
rows = ["| bug | property | needs |", "|---|---|---|"]
for d in sorted(os.listdir("seeded")):
    m = json.load(open("seeded/%s/meta.json" % d))
    rows.append("| %s | %s | %s |" % (d, m["property"], m["needs"]))
open("DESIGN.md", "w").write(s[:i] + "\n".join(rows) + "\n\n" + s[j:])
