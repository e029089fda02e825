#!/usr/bin/env python3
"""DESIGN.md from the hand-written parts, the contracts and the last evidence"""
import json
import os
import re
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
os.chdir(V)
import kv.run  # noqa
from kv import patch  # noqa
patch.load()
import importlib  # noqa

props = {json.loads(l)["id"]: json.loads(l) for l in open("properties.jsonl")}
out = [open("dev/design_head.md").read().rstrip(), "\n## 3. Obligations (last quick run)\n",
       "| property | obligations | discharged | back ends | runtime cases (bounded) |", "|---|---|---|---|---|"]
sec = ["\n## 4. Properties\n"]
for i in sorted(props):
    P = importlib.import_module("kv.props." + i.lower()).PROP
    try:
        ev = json.load(open(f"evidence/{i}.json"))
    except OSError:
        ev = {}
    c = ev.get("coverage", {})
    out.append(f"| {i} | {c.get('obligations')} | {c.get('discharged')} | {', '.join(f'{k} {v}' for k, v in c.get('by_back_end', {}).items())} | "
               f"{c.get('evaluations', '')} |")
    sec.append(f"### {i} {props[i]['title']}\n")
    sec.append(P.explanation.strip() + "\n")
    if P.assumptions:
        sec.append("Assumes: " + "; ".join(P.assumptions) + ".\n")
    fns = sorted(c.get("functions_under_contract", {}))
    if fns:
        sec.append("Functions under contract: " + ", ".join(f"`{f}`" for f in fns) + ".\n")
    names = [v.name for v in P.vcs("quick")]
    groups = {}
    for n in names:
        groups.setdefault(re.split(r"[,:(]", n)[0].strip(), []).append(n)
    sec.append(f"Verification conditions ({len(names)}): " + "; ".join(f"{g} (×{len(v)})" if len(v) > 1 else v[0] for g, v in groups.items()) + ".\n")
rows = []
res = {}
if os.path.exists("dev/seed_results.txt"):
    for l in open("dev/seed_results.txt"):
        p = [x.strip() for x in l.split("|")]
        if len(p) > 1:
            res[p[0]] = p[-1]
rows = ["| change | property | needs | result |", "|---|---|---|---|"]
for s in sorted(os.listdir("seeded")):
    m = json.load(open(f"seeded/{s}/meta.json"))
    r = res.get(s, "")
    r = "caught, replayed" if "VIOLATION" in r and "no-failing" not in r else "caught (obligation only)" if "VIOLATION" in r else r
    rows.append(f"| {s} | {m['property']} | {m['needs']} | {r} |")
nref = open("dev/refactors.py").read().count("\n@ref\n")
tail = open("dev/design_tail.md").read().replace("@SEEDS@", "\n".join(rows)).replace("@NREF@", str(nref))
open("DESIGN.md", "w").write("\n".join(out + sec) + tail)
