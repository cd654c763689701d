#!/usr/bin/env python3
"""Writes MANIFEST.json: every property of properties.jsonl that has a suite is
claimed, the others are listed as not applicable (yet)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
from notes import NOTES
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in check.SUITES:
        tech, note = NOTES[p]
        checks.append({"property": p, "quick_cmd": "python3 runner/check.py %s quick" % p,
                       "thorough_cmd": "python3 runner/check.py %s thorough" % p,
                       "evidence_file": "evidence/%s.json" % p,
                       "technique": tech, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": p, "reason": "not built yet: the specification module and the binding for it are in progress"})
m = {"version": 1, "setup_cmd": "bash runner/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specification in spec/, judged by TLC; driver in driver/ executes cases on the real code; no hooks in /repo."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
