#!/usr/bin/env python3
"""Writes MANIFEST.json from the spec modules present (each has META = dict(level, level_note, technique)) ."""
import os, sys, json, re, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/cvv", V + "/specs"]
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {}
if os.path.exists(V + "/tools/not_applicable.json"): NA = json.load(open(V + "/tools/not_applicable.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA: na.append({"property": i, "reason": NA[i]}); continue
    if not os.path.exists(f"{V}/specs/{i}.py"):
        na.append({"property": i, "reason": "no check built yet"}); continue
    m = importlib.import_module(i)
    checks.append({"property": i, "quick_cmd": f"python3-vt check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3-vt check.py {i}",
                   "technique": m.META["technique"], "level": getattr(m, "LEVEL", "proof"), "level_note": m.META["level_note"]})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
