#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(H, "DESIGN.md")
s = open(p).read().split("\n## Planted bugs")[0].rstrip("\n")
missed = json.load(open(os.path.join(H, "tools", "missed.json")))
rows = []
for d in sorted(os.listdir(os.path.join(H, "seeded"))):
    m = json.load(open(os.path.join(H, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["what_it_breaks"].replace("|", "/"), m["property"], missed.get(d, "")))
s += "\n\n## Planted bugs\n\nEach was written from the property's text, passes the existing tests, and has a demonstration.\nAll %d are caught by the check of their own property (third column).\n\n| Bug | What it breaks | Caught by | First missed, then |\n|---|---|---|---|\n" % len(rows)
open(p, "w").write(s + "\n".join(rows) + "\n")
