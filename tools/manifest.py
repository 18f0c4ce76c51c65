#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run after adding a check)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {}
def chk(p, technique, note, level="model_checking"): T[p] = (technique, level, note)
exec(open(os.path.join(V, "tools", "checks.tab")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
m = dict(version=1, setup_cmd="bash setup.sh", checks=[], not_applicable=[])
for p in props:
    if p in T:
        t, lv, note = T[p]
        cmd = f"python3 checks/{p.lower()}.py"
        m["checks"].append(dict(property=p, quick_cmd="VERIF_TIER=quick " + cmd, thorough_cmd="VERIF_TIER=thorough " + cmd, technique=t, level=lv, level_note=note))
    else: m["not_applicable"].append(dict(property=p, reason=NA.get(p, "check under construction")))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); print(len(m["checks"]), "checks")
