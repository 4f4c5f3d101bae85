#!/usr/bin/python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/catches.txt (id: tag). Development tool."""
import json, os, re
V = "/verif"
c = dict(l.split(": ", 1) for l in open(V + "/tools/catches.txt").read().splitlines() if ": " in l)
rows = ["| planted bug | breaks | needs | caught by |", "|----|----|----|----|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % d))
    rows.append("| %s | %s | %s | %s |" % (d, m["what_it_breaks"], m["needs"], c.get(d, "not tried yet")))
s = open(V + "/DESIGN.md").read()
a = s.index("\n\n", s.index("The table lists what caught them.")) + 2
open(V + "/DESIGN.md", "w").write(s[:a] + "\n".join(rows) + "\n")
