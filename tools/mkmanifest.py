#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = {}
NA = {}
exec(open(os.path.join(HERE, "tools", "claims.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for id in props:
    if id in C:
        tech, level, note = C[id]
        checks.append({"property": id, "quick_cmd": "bash check.sh " + id, "thorough_cmd": "bash check.sh %s thorough" % id,
                       "technique": tech, "level": level, "level_note": note})
na = [{"property": id, "reason": NA.get(id, "no static check built for it yet")} for id in props if id not in C]
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
