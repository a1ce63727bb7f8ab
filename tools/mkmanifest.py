#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from sim/table.py (claimed) and properties.jsonl (the rest)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
top = os.path.dirname(here)
sys.path.insert(0, top)
sys.dont_write_bytecode = True
from sim.table import TABLE
props = [json.loads(l) for l in open(os.path.join(top, "properties.jsonl"))]
ids = [p["id"] for p in props]
checks = []
for pid in ids:
    if pid not in TABLE:
        continue
    c = TABLE[pid]
    checks.append({
        "property": pid,
        "quick_cmd": "/opt/venv/bin/python check.py %s" % pid,
        "thorough_cmd": "VERIF_TIER=thorough /opt/venv/bin/python check.py %s" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": "deterministic simulation with fault injection: seeded search over "
                     + c["over"],
        "level": c["level"],
        "level_note": c["note"]})
m = {"version": 1, "setup_cmd": "true", "checks": checks,
     "not_applicable": [{"property": i, "reason": "check not built yet"} for i in ids if i not in TABLE],
     "notes": "No hooks are added to /repo: the simulated seam lies at the Python run-time's own "
              "file and clock functions, replaced in the checking process before the package is "
              "imported. Genuine defects found were repaired in 'fix:' commits; see "
              "KNOWN_FINDINGS.txt and DESIGN.md."}
with open(os.path.join(top, "MANIFEST.json"), "w") as fd:
    json.dump(m, fd, indent=1)
    fd.write("\n")
print(len(checks), "claimed;", len(m["not_applicable"]), "not")
