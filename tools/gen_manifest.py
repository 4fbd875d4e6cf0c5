#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the harnesses present."""
import json, os, re, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
have = {}
for f in glob.glob(root + "/harness/*/*.go"):
    for m in re.finditer(r"^func (C\d\d)_\w+\(\) *{", open(f).read(), re.M):
        have.setdefault(m.group(1), []).append(m.group(0)[5:-4])
notes = json.load(open(root + "/tools/level_notes.json"))
NA = json.load(open(root + "/tools/not_applicable.json"))
default = ("Bounded: every path of the harness over the compiled-from-source SSA of the real code is executed symbolically and each assertion is discharged by z3 for all values "
           "within the bounds listed in the evidence; counterexamples are replayed natively before being reported. Trusts the SSA interpreter (cross-checked by native replay of sampled paths), "
           "z3, and the library models named in DESIGN.md.")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA or i not in have:
        na.append({"property": i, "reason": NA.get(i, "no harness built yet")})
        continue
    checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick ./check.sh " + i,
        "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
        "technique": "symbolic execution of the real Go SSA, assertions discharged by z3 within bounds, native replay of counterexamples",
        "level": "model_checking", "level_note": (notes.get(i, "") + " " + default).strip()})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
  "notes": "No hooks in /repo: harnesses are added with a build overlay. Engine in /verif/engine, harnesses in /verif/harness; see DESIGN.md."},
  open(root + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
