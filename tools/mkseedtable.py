#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "DESIGN.md")
L = open(p).read().split("\n")
a = L.index("| bug | check that catches it | needs |")
b = a + 2
while L[b].startswith("| "):
    b += 1
rows = []
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s |" % (d, m["property"], " ".join(m["needs"].split()).replace("|", "/")))
L[a + 2:b] = rows
open(p, "w").write("\n".join(L))
