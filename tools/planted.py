#!/usr/bin/env python3
"""rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(os.path.join(V, "DESIGN.md")).read()
i = s.index("## Planted changes")
rows = []
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/").replace("\n", " ")))
open(os.path.join(V, "DESIGN.md"), "w").write(s[:i] + """## Planted changes

`seeded/` holds changes with demonstrations. Each was kept after it built, passed the tests and its demonstration told it from the unchanged tree; each is caught by the check of the property named (vcheck runs a random dozen of them each time).

| change | caught by | needs |
|---|---|---|
""" + "\n".join(rows) + "\n")
