#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(HERE, "tools", "notes.json")))
checks, na = [], []
for p in props:
    n = NOTES.get(p["id"])
    if not n:
        na.append({"property": p["id"], "reason": "its check is not built yet"})
        continue
    checks.append({"property": p["id"], "quick_cmd": "python3 bin/check.py " + p["id"],
                   "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py " + p["id"],
                   "technique": n["technique"], "level": "model_checking", "level_note": n["note"]})
m = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specification in spec/, checked with TLC; traces recorded by harness/drv from the code of /repo are validated against it. No hooks in /repo."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
