#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, tools/jobs.py and the notes below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from jobs import JOBS, NOTES
NA = {}
T = "deterministic simulation with fault injection: seeded search over schedules, machines, workloads and faults of the real code"
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 tools/build.py build def",
    "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"], "thorough_cmd": "python3 check.py %s --thorough" % p["id"],
                "technique": T, "level": "exploration", "level_note": NOTES[p["id"]]} for p in props if p["id"] in JOBS],
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
    "notes": "No hooks in /repo: the checks compile its sources to LLVM IR and rewrite that. DESIGN.md describes the simulator, the oracles and the bounds; known_findings.txt lists the repaired defects; tools/replay re-executes a replay file.",
}
assert {p["id"] for p in props} == set(JOBS) | set(NA)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
