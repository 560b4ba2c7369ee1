#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from the table below and the checks present."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = (" Trusts the kernel, the probe's and interposer's own books, and the harness; says nothing about executions it did not produce.")
# id: (level, technique, note)
C = {}
def c(pid, technique, note, level="exploration"):
    C[pid] = (level, technique, note)
exec(open(os.path.join(ROOT, "tools", "claims.py")).read())
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    if pid in C and os.path.exists(os.path.join(ROOT, "checks", pid.lower() + ".py")):
        level, tech, note = C[pid]
        checks.append({"property": pid, "quick_cmd": f"./check {pid}", "thorough_cmd": f"VERIF_TIER=thorough ./check {pid}",
                       "evidence_file": f"evidence/{pid}.json", "technique": "runtime monitoring: " + tech, "level": level,
                       "level_note": note + TRUST})
    else:
        na.append({"property": pid, "reason": "no check for it has been built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every check observes the unmodified binary and Python package built from the working tree, "
              "from outside (LD_PRELOAD interposer, probe child processes, /proc, reference HTTP clients and agent servers)."}
open(os.path.join(ROOT, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not claimed")
