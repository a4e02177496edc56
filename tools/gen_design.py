#!/usr/bin/env python3
"""Fills the table of planted bugs into DESIGN.md (between the two marker lines)."""
import json, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property | needs | breaks |", "|---|---|---|---|"]
for m in sorted(glob.glob(root + "/seeded/*/meta.json")):
    d = json.load(open(m))
    e = lambda s: s.replace("|", "\\|").replace("\n", " ")
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], e(d["needs"]), e(d["what_it_breaks"])))
p = root + "/DESIGN.md"
s = open(p).read()
a, b = s.index("<!-- seeds -->"), s.index("<!-- /seeds -->")
open(p, "w").write(s[:a] + "<!-- seeds -->\n" + "\n".join(rows) + "\n" + s[b:])
