#!/usr/bin/env python3
# Fills DESIGN.md's table of planted bugs from seeded/*/meta.json.
import json, os, re, sys
base = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| id | caught by | what it breaks | needs |", "|---|---|---|---|"]
for d in sorted(os.listdir(base + "/seeded")):
    m = json.load(open(f"{base}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
p = base + "/DESIGN.md"
s = open(p).read()
t = "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->"
if "SEEDED_TABLE" in s:
    s = s.replace("SEEDED_TABLE", t)
else:
    s = re.sub(r"<!-- seeded -->.*?<!-- /seeded -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
