#!/usr/bin/env python3
"""fills the generated parts of DESIGN.md: bounds of every job (checks.py), table of planted bugs (tools/seed/catch.txt)"""
import os, sys, re, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V); import checks
def bounds(l): return "; ".join(",".join(f"{k}={v}" for k, v in b.items()) or "all" for b in l) or "-"
t = ["| job | what | quick | thorough adds |", "|---|---|---|---|"]
for p in sorted(checks.CHECKS):
    for j in checks.CHECKS[p]["jobs"]: t.append(f"| {j.entry} | {j.desc} | {bounds(j.quick)} | {bounds(j.thorough)} |")
s = ["| planted bug | property | needs | quick check |", "|---|---|---|---|"]; res = {}
f = f"{V}/tools/seed/catch.txt"
for l in open(f) if os.path.exists(f) else []:
    x = l.split()
    if len(x) > 4: res[x[0]] = (x[4] if x[3].endswith("s") else x[5]) + (" by " + re.sub(r"_violation.*", "", x[-1]) if "violation" in x[-1] else "")
for i in sorted(os.listdir(f"{V}/seeded")):
    m = json.load(open(f"{V}/seeded/{i}/meta.json")); s.append(f"| {i} | {m['property']} | {' '.join(m['needs'].split())[:140].replace('|', '/')} | {res.get(i, '?')} |")
d = open(f"{V}/DESIGN.md").read()
for k, x in (("jobs", t), ("seeds", s)): d = re.sub(rf"<!-- {k} -->.*?<!-- /{k} -->", lambda m: f"<!-- {k} -->\n" + "\n".join(x) + f"\n<!-- /{k} -->", d, flags=re.S)
open(f"{V}/DESIGN.md", "w").write(d); print(len(t) - 2, "jobs", len(s) - 2, "seeds")
