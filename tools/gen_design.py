#!/usr/bin/env python3
"""Appends the table of planted bugs to DESIGN.md (everything after its last heading's table head)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + "/DESIGN.md"
t = open(p).read()
head = "| bug | property | needs |\n|---|---|---|\n"
t = t[:t.index(head) + len(head)]
rows = []
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    rows.append((m["property"], i, m["needs"]))
for c, i, n in sorted(rows):
    t += "| %s | %s | %s |\n" % (i, c, n.replace("|", "/"))
open(p, "w").write(t)
