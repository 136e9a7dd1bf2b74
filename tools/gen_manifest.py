#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the stage table."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
from stages import STAGES, TECH, LEVEL_NOTE
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in STAGES:
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=TECH[i], level="model_checking", level_note=LEVEL_NOTE.get(i, LEVEL_NOTE["*"])))
    else:
        na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="python3 -m py_compile check.py tools/stages.py",
               checks=checks, not_applicable=na,
               notes="Every check compiles /repo's current sources itself (see DESIGN.md); no hooks are needed in /repo."),
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
