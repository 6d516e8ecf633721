#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property | needs | breaks |", "|---|---|---|---|"]
for d in sorted(os.listdir(R + "/seeded")):
    m = json.load(open(R + "/seeded/%s/meta.json" % d))
    rows.append("| `%s` | %s | %s | %s |" % (d, m["property"], m["needs"], m["what_it_breaks"]))
s = open(R + "/DESIGN.md").read()
a, b = s.index("<!-- seeds -->"), s.index("<!-- /seeds -->")
open(R + "/DESIGN.md", "w").write(s[:a] + "<!-- seeds -->\n" + "\n".join(r.replace("||", "\\|\\|") for r in rows) + "\n" + s[b:])
