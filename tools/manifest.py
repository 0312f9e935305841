#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the table below and the checks present."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {}
exec(open(os.path.join(root, "tools", "notes.py")).read())
checks, missing = [], []
for l in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(l)["id"]
    if os.path.isdir(os.path.join(root, "harness", "cmd", p.lower())) and p in NOTE:
        tech, level, note = NOTE[p]
        checks.append(dict(property=p, quick_cmd="./run.sh " + p, thorough_cmd="./run.sh " + p + " --thorough",
                           evidence_file="evidence/%s.json" % p, technique=tech, level=level, level_note=note))
    else:
        missing.append(dict(property=p, reason="the check for this property is not finished yet"))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=missing,
         notes="No hooks: all checks are black-box monitors around the exported API; see DESIGN.md.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(missing), "missing")
