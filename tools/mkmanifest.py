#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from plan import PLAN, NOTES, NA
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 run.py setup",
    "checks": [],
    "not_applicable": [],
    "notes": "All checks go through run.py, which rebuilds the harness with path dependencies on /repo. No hooks in /repo: everything is observed through its public interfaces, by interposing system calls, and by sanitizers.",
}
for p in props:
    i = p["id"]
    if i in PLAN:
        c = PLAN[i]
        m["checks"].append({
            "property": i,
            "quick_cmd": "VERIF_TIER=quick python3 run.py %s quick" % i,
            "thorough_cmd": "VERIF_TIER=thorough python3 run.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": c["technique"],
            "level": c["level"],
            "level_note": NOTES.get(i, NOTES["*"]),
        })
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
