#!/usr/bin/env python3
"""Fill the generated parts of DESIGN.md (tools/DESIGN.in -> DESIGN.md).

Reads evidence/*.json (quick), tools/thorough.json (recorded thorough runs) and
tools/plants.py.  With --record, stores the evidence of thorough runs first.
"""
import glob
import json
import os
import sys

T = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(T)
sys.path.insert(0, T)
from plants import PLANTS

tpath, qpath = os.path.join(T, "thorough.json"), os.path.join(T, "quick.json")
rec = {"quick": json.load(open(qpath)) if os.path.exists(qpath) else {},
       "thorough": json.load(open(tpath)) if os.path.exists(tpath) else {}}
for f in sorted(glob.glob(os.path.join(V, "evidence", "C*.json"))) + sys.argv[1:]:
    d = json.load(open(f))
    rec[d["tier"]][d["property"]] = {
        "wall_s": round(d["wall_s"]), "states": d["coverage"]["states"],
        "not_judged": d["coverage"].get("not_judged", 0),
        "sweeps": {n: [s["bound"], s["cases"]]
                   for n, s in d["coverage"]["sweeps"].items()}}
for t, p in (("quick", qpath), ("thorough", tpath)):
    with open(p, "w") as f:
        json.dump(rec[t], f, indent=0, sort_keys=True)
        f.write("\n")
rows = ["| property | sweep | space (thorough bounds, if run) | quick | thorough |",
        "|---|---|---|---|---|"]
for i, q in sorted(rec["quick"].items()):
    t = rec["thorough"].get(i)
    names = list(q["sweeps"]) + [n for n in (t or {"sweeps": {}})["sweeps"]
                                 if n not in q["sweeps"]]
    for n in names:
        a = q["sweeps"].get(n)
        b = t["sweeps"].get(n) if t else None
        bound = (b or a)[0].replace("|", "/")
        rows.append(f"| {i} | {n} | {bound} | {a[1] if a else '-'} | "
                    f"{b[1] if b else '-'} |")
    rows.append(f"| **{i}** | **all** | {q['wall_s']} s"
                + (f"; thorough {t['wall_s']} s" if t else "")
                + f" | **{q['states']}** | "
                + (f"**{t['states']}** |" if t else "- |"))
plants = ["| bug | property | change | needs |", "|---|---|---|---|"]
for p in PLANTS:
    plants.append(f"| {p['id']} | {p['property']} | {p['breaks']} | {p['needs']} |"
                  .replace("\n", " "))
s = open(os.path.join(T, "DESIGN.in")).read()
s = s.replace("@@SWEEPS@@", "\n".join(rows)).replace("@@PLANTS@@",
                                                    "\n".join(plants))
with open(os.path.join(V, "DESIGN.md"), "w") as f:
    f.write(s)
