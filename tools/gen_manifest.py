#!/usr/bin/env python3
"""Writes MANIFEST.json. Run after claiming a property."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{root}/properties.jsonl")]
T = {}
exec(open(f"{root}/tools/techniques.py").read())
checks = []
for p in props:
    i = p["id"]
    if i not in T:
        continue
    technique, note = T[i]
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
        "technique": technique,
        "level": "exploration",
        "level_note": note,
    })
na = [{"property": p["id"], "reason": NA.get(p["id"], "check not built yet")} for p in props if p["id"] not in T]
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: every oracle observes the public API (plus a counting allocator, counting resolvers and sanitizer builds). See DESIGN.md.",
}
open(f"{root}/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
