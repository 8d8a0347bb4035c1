#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below. Properties without an entry are not claimed yet."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = " Trusts: the plain reference models under harness/src/refs (checked against published vectors by the selftest program), the Rust compiler, the rmath big-number crate."
C = {}
exec(open(os.path.join(root, "tools", "checks.py")).read())
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    if i not in C: continue
    tech, note = C[i]
    checks.append(dict(property=i, quick_cmd=f"./run.sh {i}", thorough_cmd=f"./run.sh {i}", technique=tech,
                       level="model_checking", level_note=note + TRUST))
m = dict(version=1, setup_cmd="./setup.sh", hooks=HOOKS, checks=checks,
         not_applicable=[dict(property=p["id"], reason="no check built yet") for p in props if p["id"] not in C],
         notes="Every check is an exhaustive bounded exploration of the real library code, rebuilt from /repo on each run; see DESIGN.md.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
