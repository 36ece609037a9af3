#!/usr/bin/env python3
"""Show the failing event of a replay file."""
import json, sys, re
d = json.load(open(sys.argv[1]))
print(d["what"])
m = re.search(r"position (\d+)", d["what"])
h = d["history"]
log = h.pop("log", None) if isinstance(h, dict) else None
print(json.dumps(h)[:1500])
if log and m:
    p = int(m.group(1))
    for e in log[max(0, p - 2):p + 1]:
        print(json.dumps(e)[:2500])
