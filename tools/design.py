#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design.md and the table of the planted bugs (seeded/*/meta.json, tools/catches)."""
import json
import os

R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
after = {}
with open(os.path.join(R, "tools/catches")) as f:
    for l in f:
        if l.strip():
            k, _, v = l.strip().partition(" ")
            after[k] = v
rows = ["| bug | property | what it breaks | needs | caught |", "|---|---|---|---|---|"]
for s in sorted(os.listdir(os.path.join(R, "seeded"))):
    m = json.load(open(os.path.join(R, "seeded", s, "meta.json")))
    esc = lambda t: t.replace("|", "\\|")
    rows.append("| %s | %s | %s | %s | %s |" % (s, m["property"], esc(m["what_it_breaks"]), esc(m["needs"]), esc(after.get(s.split("-")[0], "by the quick check"))))
with open(os.path.join(R, "DESIGN.md"), "w") as f:
    f.write(open(os.path.join(R, "tools/design.md")).read() + "\n" + "\n".join(rows) + "\n")
