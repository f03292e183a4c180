#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NOTES = {}
exec(open(os.path.join(V, "tools", "manifest_notes.py")).read())
checks = []
for p in props:
    if p in NOTES:
        tech, level, note = NOTES[p]
        checks.append({"property": p, "quick_cmd": "python3 tools/check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + p,
                       "technique": tech, "level": level, "level_note": note})
m = {"version": 1, "setup_cmd": "python3 tools/check.py build", "checks": checks,
     "not_applicable": [{"property": p, "reason": "not built yet"} for p in props if p not in NOTES],
     "notes": "No hooks: every check drives the public API of /repo through the harness crate."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
