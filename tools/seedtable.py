#!/usr/bin/env python3
"""Appends the table of planted bugs to DESIGN.md."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(V + "/DESIGN.md").read().split("## Planted bugs")[0].rstrip() + "\n\n## Planted bugs\nEach is caught by the quick check of its property (`tools/seed.py try ID`).\n\n| id | check | needs | breaks |\n|---|---|---|---|\n"
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % i))
    d += "| %s | %s | %s | %s |\n" % (i, m["property"], m["needs"], m["what_it_breaks"])
open(V + "/DESIGN.md", "w").write(d)
