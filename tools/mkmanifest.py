#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl, the registry and the notes below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib.registry import REGISTRY, NOTES
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in REGISTRY:
        tech, note = NOTES[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i,
                       "thorough_cmd": "python3 check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": tech,
                       "level": "model_checking", "level_note": note})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 setup.py",
           "hooks": {"guard": "none", "enable": "no hooks: every check observes the public API only", "source_commits": []},
           "checks": checks, "not_applicable": na,
           "notes": "TLA+ checked with TLC; see DESIGN.md. Exit 2 is a tool error (no verdict)."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
