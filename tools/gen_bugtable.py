#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
special = json.load(open(os.path.join(root, "tools", "bugnotes.json")))
rows = []
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s |" % (d, m["needs"].replace("|", "/"), special.get(d, m["property"])))
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
head = "| bug | needs | caught by |\n|---|---|---|\n"
i = s.index(head) + len(head)
open(p, "w").write(s[:i] + "\n".join(rows) + "\n")
