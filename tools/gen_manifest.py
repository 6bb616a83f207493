#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/plan.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from plan import CLAIMED, LEVELS, NOTES, TECH
props = [json.loads(l) for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    if i not in CLAIMED:
        continue
    checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s --thorough" % i,
                       evidence_file="evidence/%s.json" % i, technique=TECH.get(i, TECH["*"]), level=LEVELS.get(i, "exploration"),
                       level_note=NOTES.get(i, NOTES["*"])))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks,
         not_applicable=[dict(property=p["id"], reason="not built yet") for p in props if p["id"] not in CLAIMED],
         notes="Runtime monitoring: one harness crate (/verif/harness) that runs the real code under monitored transports, allocator and executor; "
               "see DESIGN.md. No hooks in /repo are needed: everything is observed through the public API.")
json.dump(m, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
