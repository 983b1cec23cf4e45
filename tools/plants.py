#!/usr/bin/env python3
"""Development tool: rewrites the table of planted changes in DESIGN.md."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in os.listdir(H + "/seeded"):
    m = json.load(open(H + "/seeded/%s/meta.json" % i))
    rows.append("| %s | %s | %s |" % (m["property"], i, m["needs"]))
p = H + "/DESIGN.md"
d = open(p).read()
d = re.sub(r"(\| property \| change \| needs \|\n\|---\|---\|---\|\n)(\|.*\n)*", lambda m: m.group(1) + "\n".join(sorted(rows)) + "\n", d)
open(p, "w").write(d)
