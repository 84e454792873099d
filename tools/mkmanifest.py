#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import props
from tools.notes import NOTES, NA, TECH
m = {"version": 1, "setup_cmd": "cd harness && cargo build --offline --quiet",
     "checks": [], "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items()) if p not in props.CHECKS],
     "notes": "TLA+ specifications in spec/, checked with TLC; the harness in harness/ executes spec-generated scenarios on the library and records traces."}
for p, (f, level) in sorted(props.CHECKS.items()):
    m["checks"].append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "python3 check.py " + p,
                        "technique": TECH.get(p, TECH["*"]), "level": level, "level_note": NOTES[p]})
json.dump(m, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json"), "w"), indent=1)
