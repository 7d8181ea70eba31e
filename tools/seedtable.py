#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(V + "/DESIGN.md").read()
head = d.split("<!-- seeds -->")[0]
rows = ["<!-- seeds -->", "| planted bug | what it needs | what it breaks | caught by |", "|---|---|---|---|"]
for p in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(p))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(p)), m["needs"], m["what_it_breaks"], m.get("caught_by", m["property"])))
open(V + "/DESIGN.md", "w").write(head + "\n".join(rows) + "\n")
