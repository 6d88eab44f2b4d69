#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks present in checks/."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = json.load(open(os.path.join(V, "tools", "checks.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(V, "checks", p.lower() + ".py")) and p in T:
        checks.append(dict(property=p, quick_cmd="VERIF_TIER=quick python3 check.py " + p,
            thorough_cmd="VERIF_TIER=thorough python3 check.py " + p,
            technique=T[p]["technique"], level=T[p]["level"], level_note=T[p]["note"]))
    else:
        na.append(dict(property=p, reason=T.get(p, {}).get("na", "check under construction; not claimed yet")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
    notes="No hooks in /repo: every seam (hash layer, random source, system calls, memory protection, loader) is interposed from outside.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
