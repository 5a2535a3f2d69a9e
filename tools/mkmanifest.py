#!/usr/bin/env python3
"""MANIFEST.json and levels.json from one table"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
exec(open(V + "/tools/levels.py").read())
checks, na = [], []
levels = {}
for p in props:
    i = p["id"]
    if i in NA: na.append({"property": i, "reason": NA[i]}); continue
    lv, note = L.get(i, ("exploration", DEFAULT_NOTE))
    levels[i] = {"level": lv, "assumptions": []}
    checks.append({"property": i, "quick_cmd": "python3 tools/check.py " + i, "thorough_cmd": "python3 tools/check.py " + i,
                   "technique": TECH if lv == "proof" else TECH_B, "level": lv, "level_note": note})
json.dump({"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na, "notes": NOTES}, open(V + "/MANIFEST.json", "w"), indent=1)
json.dump(levels, open(V + "/tools/levels.json", "w"), indent=1)
