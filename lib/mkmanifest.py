#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from checks import CHECKS
ROOT = os.path.dirname(HERE)
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
NA = {}
assert set(CHECKS) <= set(props), set(CHECKS) - set(props)
m = {"version": 1,
     "setup_cmd": "python3 -c \"import sys; sys.path.insert(0, 'lib'); import checks, build\" && which clang++ ninja >/dev/null",
     "checks": [{"property": p, "quick_cmd": "./check %s" % p, "thorough_cmd": "./check %s --thorough" % p,
                 "technique": CHECKS[p]["technique"], "level": "exploration", "level_note": CHECKS[p]["note"]} for p in props if p in CHECKS],
     "not_applicable": [{"property": p, "reason": NA.get(p, "runtime monitoring applies; the check is not built yet")} for p in props if p not in CHECKS],
     "notes": "No hooks are compiled into /repo: the monitors observe through the public interfaces and the sanitizers' instrumentation."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
