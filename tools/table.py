#!/usr/bin/env python3
"""The table of planted bugs in DESIGN.md, from seeded/*/meta.json and the last
results of `plant.py catch` (tools/caught.json)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
rows = ["| bug | needs | caught by (quick) |", "|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['needs']} | {res.get(d, '?')} |")
p = V + "/DESIGN.md"
s = open(p).read()
t = "<!-- seeded table -->\n" + "\n".join(rows) + "\n<!-- end -->"
s = s.replace("SEEDED-TABLE", t) if "SEEDED-TABLE" in s else re.sub(r"<!-- seeded table -->.*?<!-- end -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
