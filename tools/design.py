#!/usr/bin/env python3
"""Writes DESIGN.md: the text, the findings, and which check catches which
planted bug (tools/catches.json, kept by tools/bugs.py)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(os.path.join(V, "tools", "design_head.md")).read()
t += "## Findings\n\nDefects of scikit-optimize found by the checks, all repaired by `fix:` commits:\n\n"
for f in json.load(open(os.path.join(V, "KNOWN_FINDINGS.json")))["findings"]:
    t += "* " + f["entry"] + "\n" if "entry" in f else "* known: %s\n" % f
t += "\n" + open(os.path.join(V, "tools", "design_tail.md")).read()
t += "\n## Planted bugs and what catches them\n\n| change | needs | caught by (clauses) |\n|---|---|---|\n"
c = json.load(open(os.path.join(V, "tools", "catches.json")))
for i in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    r = c.get(i, [m["property"]])
    t += "| %s | %s | %s: %s |\n" % (i, m["needs"].replace("|", "/"), r[0], ", ".join(r[1:]))
open(os.path.join(V, "DESIGN.md"), "w").write(t)
print(len(t.splitlines()), "lines;", sum("MISSED" in v for v in c.values()), "missed")
