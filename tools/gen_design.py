#!/usr/bin/env python3
"""Fills the tables of DESIGN.md: gen_design.py PBT-BINARY [CATCHES.json]"""
import json, os, re, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
binary = sys.argv[1]
catch = json.load(open(sys.argv[2])) if len(sys.argv) > 2 else {}
ids = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
rows = ["### Parts, with the number of cases per build variant", "",
        "| id | part | cases quick / thorough | what is generated, and when a case counts as non-trivial |", "|---|---|---|---|"]
for i in ids:
    for p in json.loads(subprocess.run([binary, "describe", i], stdout=subprocess.PIPE, text=True).stdout):
        n = f"{p['quick']} / {p['thorough']}" + (" + fuzz" if p["fuzz"] else "") if p["quick"] else "all"
        rows.append(f"| {i} | {p['part']} | {n} | {p['rule']} |")
seeded = ["### Which check catches which planted bug", "", "| bug | needs | caught by |", "|---|---|---|"]
for b in sorted(os.listdir(H + "/seeded")):
    m = json.load(open(f"{H}/seeded/{b}/meta.json"))
    c = catch.get(b)
    seeded.append(f"| {b} | {m['needs']} | {'not run' if c is None else m['property'] if c['caught'] else 'missed'} |")
s = open(H + "/DESIGN.md").read()
for name, r in (("parts", rows), ("seeded", seeded)):
    s = re.sub(rf"<!-- {name} -->.*?<!-- /{name} -->", lambda _: f"<!-- {name} -->\n" + "\n".join(r) + f"\n<!-- /{name} -->", s, flags=re.S)
open(H + "/DESIGN.md", "w").write(s)
