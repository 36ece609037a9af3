#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: the hand-written parts below plus tables from properties.jsonl, the registry and seeded/."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib.registry import NOTES
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
text = open(os.path.join(V, "tools", "design.in.md")).read()
rows = ["| property | method | bounds and reservations |", "|---|---|---|"]
for p in props:
    t, n = NOTES[p["id"]]
    rows.append("| %s %s | %s | %s |" % (p["id"], p["title"], t, n))
bugs = ["| bug | property | what it needs to show | what it breaks |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    bugs.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"], m["what_it_breaks"]))
text = text.replace("@PROPERTIES@", "\n".join(rows)).replace("@BUGS@", "\n".join(bugs))
open(os.path.join(V, "DESIGN.md"), "w").write(text)
