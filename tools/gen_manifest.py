#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(f"{root}/properties.jsonl")]
T = {}
exec(open(f"{root}/tools/techniques.py").read())
checks = []
for p in props:
    if p in T:
        level, tech, note = T[p]
        checks.append({"property": p, "quick_cmd": f"./check {p}", "thorough_cmd": f"VERIF_TIER=thorough ./check {p}",
                       "technique": tech, "level": level, "level_note": note})
na = [{"property": p, "reason": "not claimed yet: its monitor is being built"} for p in props if p not in T]
m = {"version": 1, "setup_cmd": "./check setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the monitors use the public API only. VERIF_SEED selects the random choices; VERIF_TIER=thorough deepens every check."}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
open(f"{root}/MANIFEST.json", "a").write("\n")
