#!/usr/bin/env python3
"""Fills the tables of DESIGN.md from checks.py, properties.jsonl, known_findings.txt, seeded/ and evidence/."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks as C
s = open(f"{V}/tools/DESIGN.in.md").read()
rows = []
cost = json.load(open(f"{V}/tools/costs.json")) if os.path.exists(f"{V}/tools/costs.json") else {}
for l in open(f"{V}/properties.jsonl"):
    p = json.loads(l)
    c = C.CHECKS[p["id"]]
    t = cost.get(p["id"], "?")
    b = "; ".join(dict.fromkeys(r["bounds"] for r in c["quick"] if r.get("bounds")))
    h = ", ".join(dict.fromkeys(r["harness"] for r in c["quick"]))
    rows.append(f"| {p['id']} | {p['title']} (`{h}`) | {b}. Outside: {c['outside']} | {t} s |")
s = s.replace("@@TABLE@@", "\n".join(rows))
f = [re.match(r"fixed: property=(\S+) (\S+) (.*)", l) for l in open(f"{V}/known_findings.txt")]
s = s.replace("@@FIXED@@", "\n".join(f"* {m[1]} ({m[2]}): {m[3]}" for m in f if m))
rows = ["| bug | needs | breaks | caught by |", "|---|---|---|---|"]
caught = json.load(open(f"{V}/tools/caught.json")) if os.path.exists(f"{V}/tools/caught.json") else {}
for d in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    i = d.split("/")[-2]
    m = json.load(open(d))
    rows.append(f"| {i} | {m['needs']} | {m['what_it_breaks']} | {caught.get(i, '?')} |")
s = s.replace("@@SEEDS@@", "\n".join(rows))
open(f"{V}/DESIGN.md", "w").write(s)
