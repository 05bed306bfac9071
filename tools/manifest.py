#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check  # noqa: E402

NOTE = {
    "proc": "TLC exhausts the bounded design (StatsdImpl x monitor StatsdMon, broken designs rejected); one behaviour per design transition plus seeded random histories are replayed on the real processors under Jython, stepping the flush generators, and TLC judges every recorded trace with the same monitor. Assumes the recorded projection (driver) is faithful; values within the ranges of DESIGN.md.",
}
TECH = {
    "proc": "TLA+ specification (TLC): design model checking, TLC-generated behaviours replayed on the code, trace validation of the recorded runs",
}
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in props:
    if p not in check.MODULES:
        continue
    mod = __import__("lib." + check.MODULES[p], fromlist=["x"])
    note = getattr(mod, "NOTE", {}).get(p) or getattr(mod, "LEVEL_NOTE", NOTE["proc"])
    tech = getattr(mod, "TECHNIQUE", TECH["proc"])
    checks.append({"property": p, "quick_cmd": "python3 check.py " + p,
                   "thorough_cmd": "python3 check.py %s --thorough" % p,
                   "evidence_file": "evidence/%s.json" % p,
                   "technique": tech, "level": "model_checking", "level_note": note})
na = [{"property": p, "reason": "not claimed yet: its check is being built"} for p in props if p not in check.MODULES]
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "TLA+ specifications in spec/, checked with TLC; drivers in harness/ run under Jython against /repo."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
