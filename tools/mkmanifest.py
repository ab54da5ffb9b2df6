#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties that have a check."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(V, "checks")); sys.path.insert(0, os.path.join(V, "lib"))
import inproc
sys.dont_write_bytecode = True
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
meta = json.load(open(os.path.join(V, "tools", "levels.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if (i in inproc.TABLE or os.path.exists(os.path.join(V, "checks", "check_%s.py" % i))) and i in meta:
        m = meta[i]
        checks.append({"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i,
                       "technique": m["technique"], "level": m.get("level", "model_checking"), "level_note": m["note"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check has been built for it yet")})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "Checks rebuild /repo's sources themselves; no hooks are needed in /repo (guards and faults are injected from outside)."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
