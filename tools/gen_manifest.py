#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of built checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from importlib import util
spec = util.spec_from_file_location("notes", os.path.join(V, "tools", "check_notes.py"))
notes = util.module_from_spec(spec); spec.loader.exec_module(notes)
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(V, "tools", "checks", p + ".py")) and p in notes.NOTES:
        tech, note = notes.NOTES[p]
        checks.append({"property": p, "quick_cmd": "python3 tools/run_check.py " + p,
                       "thorough_cmd": "VERIF_TIER=thorough python3 tools/run_check.py " + p,
                       "technique": tech, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": p, "reason": notes.NA.get(p, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "Black-box conformance drivers built from /repo's working tree; no hooks in /repo."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
