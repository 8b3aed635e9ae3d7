#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table of implemented checks."""
import json, os, subprocess
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
exec(open(os.path.join(here, "tools", "checks.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        t, note = CHECKS[i]
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
                           evidence_file=f"evidence/{i}.json", technique=t, level="model_checking", level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, "not claimed yet: its check is still being built (see DESIGN.md)")))
m = dict(version=1, setup_cmd="./tools/build.sh all", checks=checks, not_applicable=na, notes=NOTES)
if HOOKS: m["hooks"] = HOOKS
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(na), "not applicable")
