#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks present and the property list."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE); sys.path.insert(0, HERE + "/tools")
sys.dont_write_bytecode = True
import props
NOTES = json.load(open(HERE + "/tools/notes.json"))
NA = {n[0]: n[6] for n in props.NA}
checks, na = [], []
for p in props.P:
    i = p["id"]
    if os.path.exists("%s/checks/%s.py" % (HERE, i.lower())):
        checks.append({"property": i, "quick_cmd": "python3 run.py check %s" % i, "thorough_cmd": "python3 run.py thorough %s" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "deterministic simulation with fault injection: " + NOTES[i][0], "level": "exploration", "level_note": NOTES[i][1]})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na}
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
print(len(checks), len(na))
