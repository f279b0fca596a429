#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/props.py (run after registering a property)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in props.PROPS:
        continue
    p = props.PROPS[i]
    checks.append({
        "property": i,
        "quick_cmd": "python3 run.py %s quick" % i,
        "thorough_cmd": "python3 run.py %s thorough" % i,
        "technique": p.get("technique") or "stateless bounded model checking of the real library: exhaustive enumeration of all inputs, schedules and operation sequences within stated bounds, each execution judged by an independent oracle",
        "level": p["level"],
        "level_note": p["rule"] + ("" if not p["assumptions"] else " Assumes: " + "; ".join(p["assumptions"])),
    })
na = [{"property": i, "reason": "no check built yet"} for i in ids if i not in props.PROPS]
m = {"version": 1, "setup_cmd": "python3 lib/build.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the harnesses compile and link /repo's sources as they are (lib/build.py). Findings and repairs are listed in known_findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
