#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json
T = {}
def claim(p, technique, note): T[p] = (technique, note)
NA = {}
exec(open('claims.py').read())
props = [json.loads(l)['id'] for l in open('properties.jsonl')]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
     "notes": "No hooks: the checks read the source. See DESIGN.md."}
for p in props:
    if p in T:
        t, n = T[p]
        m["checks"].append({"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
                            "technique": t, "level": "other", "level_note": n})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "not built yet")})
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
