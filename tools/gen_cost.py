#!/usr/bin/env python3
"""Keeps the cost of the last quick runs (from evidence/) in tools/cost.json."""
import json, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
r = {}
for f in sorted(glob.glob(root + "/evidence/C*.json")):
    e = json.load(open(f)); c = e["coverage"]
    r[os.path.basename(f)[:-5]] = dict(wall=round(e.get("wall_s", c.get("wall_s", 0))), paths=sum(h["paths"] for h in c["harnesses"]),
        queries=c["solver"]["queries"], functions=len(c.get("functions_encoded") or []),
        harnesses={h["harness"]: dict(bounds=h["bounds"], paths=h["paths"], complete=h["complete_within_bounds"]) for h in c["harnesses"]})
json.dump(r, open(root + "/tools/cost.json", "w"), indent=0, sort_keys=True)
