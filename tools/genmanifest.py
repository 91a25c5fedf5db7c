#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the plan."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from plan import PLAN  # noqa: E402
from notes import NOTES, TECH  # noqa: E402

props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl")) if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN:
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": TECH[i],
            "level": "exploration",
            "level_note": NOTES[i],
        })
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks: the checks use the public API of /repo's crate only. See DESIGN.md.",
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
