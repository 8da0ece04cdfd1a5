#!/usr/bin/env python3
"""merge_evidence.py INTO FROM: add what a second run of a check covered to its evidence file."""
import json, os, sys

into, other = sys.argv[1:3]
a, b = json.load(open(into)), json.load(open(other))
ca, cb = a["coverage"], b["coverage"]
for k, v in cb.items():
    if isinstance(v, bool):
        ca[k] = ca[k] and v
    elif isinstance(v, (int, list)):
        ca[k] = ca[k] + v
a["violations"] += b["violations"]
a["wall_s"] = round(a["wall_s"] + b["wall_s"], 2)
with open(into, "w") as f:
    json.dump(a, f, indent=1)
    f.write("\n")
os.remove(other)
