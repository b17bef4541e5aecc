#!/usr/bin/env python3
"""Writes MANIFEST.json from the plans (sim/plans.py) and the properties."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sim"))
from plans import PLANS, NOTES
NA = {
    "C16": "The lexer is a pure function of one string: no thread, clock, I/O, randomness or fault takes part, so there is nothing for a simulator to decide (it would be input fuzzing).",
    "C17": "The ISO 8601 decomposition is a pure function of one string, without schedule, clock, I/O or fault.",
    "C18": "The script table is a pure function of one language tag, without schedule, clock, I/O or fault.",
}
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p in PLANS:
        checks.append({"property": p, "quick_cmd": "python3 check.py %s quick" % p,
                       "thorough_cmd": "python3 check.py %s thorough" % p, "evidence_file": "evidence/%s.json" % p,
                       "technique": "deterministic simulation with fault injection: " + NOTES[p][0],
                       "level": "exploration", "level_note": NOTES[p][1]})
    else:
        na.append({"property": p, "reason": NA.get(p, "No check built yet.")})
json.dump({"version": 1, "setup_cmd": "python3 check.py --build", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the seams are a std facade (--extern std), the SQLite VFS, libc interposition and the library's own provider trait. See DESIGN.md."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
