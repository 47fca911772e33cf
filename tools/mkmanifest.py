#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table of claimed checks below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
NOTE = ("Static: decided from the type-checked SSA of /repo's current source, nothing is run. "
        "Trusts go/types and go/ssa, documented library behaviour, and the hand-written rule. ")
claimed = json.load(open(os.path.join(here, 'tools', 'claimed.json')))
na = json.load(open(os.path.join(here, 'tools', 'na.json')))
checks = []
rest = []
for p in props:
    i = p['id']
    if i in claimed:
        c = claimed[i]
        checks.append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "./check.sh " + i,
                       "technique": c[0], "level": "other", "level_note": NOTE + c[1]})
    else:
        rest.append({"property": i, "reason": na.get(i, "no check has been built for it yet")})
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": checks, "not_applicable": rest}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
