#!/usr/bin/env python3
"""Writes MANIFEST.json from engines.PLAN and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engines
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in engines.PLAN:
        checks.append({"property": i,
                       "quick_cmd": "python3 tools/check.py %s quick" % i,
                       "thorough_cmd": "python3 tools/check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "TLA+ specification checked with TLC; scenarios generated from it and recorded traces of the real code validated against it",
                       "level": "model_checking",
                       "level_note": engines.NOTE.get(i, engines.NOTE["*"])})
    else:
        na.append({"property": i, "reason": engines.NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
