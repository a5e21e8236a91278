#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of claimed checks."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
T = json.load(open(os.path.join(V, "tools", "claims.json")))
checks, na = [], []
for p in props:
    c = T["claims"].get(p)
    if c:
        checks.append({"property": p, "quick_cmd": f"./run {p}", "thorough_cmd": f"VERIF_TIER=thorough ./run {p}",
                       "evidence_file": f"evidence/{p}.json", "technique": c["technique"], "level": c.get("level", "model_checking"),
                       "level_note": c["note"]})
    else:
        na.append({"property": p, "reason": T["na"].get(p, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 -B tools/setup.py", "checks": checks, "not_applicable": na}
if T.get("hooks"):
    m["hooks"] = T["hooks"]
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
