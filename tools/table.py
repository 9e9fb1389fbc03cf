#!/usr/bin/env python3
"""The table of the planted bugs for DESIGN.md, from seeded/*/meta.json; caught by: the check of their property, quick tier."""
import json, os
D = "/verif/seeded"
rows = {}
for b in sorted(os.listdir(D)):
    m = json.load(open(os.path.join(D, b, "meta.json")))
    rows.setdefault(m["property"], []).append("%s (%s)" % (b, m["what_it_breaks"]))
print("| property, and check that catches them | planted bugs |\n|---|---|")
for p in sorted(rows):
    print("| %s | %s |" % (p, "; ".join(rows[p]).replace("|", "/")))
