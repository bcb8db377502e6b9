#!/usr/bin/env python3
"""Rewrites the planted-bug table in DESIGN.md from seeded/*/meta.json and tools/caught.txt."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = dict(l.split(None, 1) for l in open(f"{V}/tools/caught.txt") if l.strip())
rows = ["<!-- table -->", "| change | breaks | needs | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(f"{V}/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['what_it_breaks']} | {m['needs']} | {caught.get(d, 'not yet run').strip()} |")
rows.append("<!-- /table -->")
p = f"{V}/DESIGN.md"
s = open(p).read()
s = s.replace("@@TABLE@@", "<!-- table --><!-- /table -->")
s = re.sub(r"<!-- table -->.*<!-- /table -->", lambda _: "\n".join(rows), s, flags=re.S)
open(p, "w").write(s)
