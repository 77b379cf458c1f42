#!/usr/bin/env python3
"""Rewrites the planted-bug table of DESIGN.md from seeded/*/meta.json and tools/seed_results.json."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
p = os.path.join(R, "tools", "seed_results.json")
if os.path.exists(p): res = json.load(open(p))
rows = ["<!-- seeds -->", "| planted bug | property | caught by its quick check | needs |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(R, "seeded"))):
    m = json.load(open(os.path.join(R, "seeded", d, "meta.json")))
    need = re.sub(r"\s+", " ", m["needs"])
    if len(need) > 130: need = need[:127] + "..."
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], res.get(d, "?"), need.replace("|", "/")))
rows.append("<!-- /seeds -->")
f = os.path.join(R, "DESIGN.md")
s = open(f).read()
if "SEEDTABLE" in s: s = s.replace("SEEDTABLE", "<!-- seeds -->\n<!-- /seeds -->")
s = re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda _: "\n".join(rows), s, flags=re.S)
open(f, "w").write(s)
