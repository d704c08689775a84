#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed checks below and properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(os.path.join(root, "tools/notes.json")))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    n = notes["checks"].get(p["id"])
    if n:
        checks.append({"property": p["id"], "quick_cmd": "./check " + p["id"],
                       "thorough_cmd": "VERIF_TIER=thorough ./check " + p["id"],
                       "technique": n[0], "level": "exploration", "level_note": n[1]})
    else:
        na.append({"property": p["id"], "reason": notes["na"].get(p["id"], "no check built yet")})
m = {"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": na, "notes": notes["notes"]}
open(os.path.join(root, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
