#!/usr/bin/env python3
"""Refreshes the table of planted bugs in DESIGN.md."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | breaks | needs |", "|---|---|---|---|"]
for p in sorted(glob.glob(V + "/seeded/*/meta.json"), key=lambda p: (json.load(open(p))["property"], p)):
    d = json.load(open(p))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(p)), d["property"], d["what_it_breaks"], d["needs"]))
t = open(V + "/DESIGN.md").read()
b = "<!-- planted -->\n" + "\n".join(rows) + "\n<!-- /planted -->"
t = re.sub(r"@SEEDED@|<!-- planted -->.*?<!-- /planted -->", lambda m: b, t, flags=re.S)
open(V + "/DESIGN.md", "w").write(t)
