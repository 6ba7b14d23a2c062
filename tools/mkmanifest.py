#!/usr/bin/env python3
"""Writes MANIFEST.json from the plans and the property list."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, ".."))
from vt import plans
props = [json.loads(l) for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
checks, missing = [], []
for p in props:
    i = p["id"]
    if i not in plans.PLANS:
        missing.append({"property": i, "reason": "specification and conformance check not built yet"})
        continue
    pl = plans.PLANS[i]
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s" % i,
        "thorough_cmd": "python3 check.py %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "TLA+ specification checked with TLC; traces recorded from the real crate are validated against it by TLC",
        "level": "model_checking",
        "level_note": plans.COVERS[i] + " Assumes: the public API of a debug build, lattice inputs, TLC.",
    })
m = {"version": 1, "setup_cmd": "python3 -c 'import sys; sys.path.insert(0, \".\"); from vt import core; core.build_harness()'",
     "checks": checks, "not_applicable": missing,
     "notes": "No hooks in /repo: the crate is driven through its public API. Known and fixed defects: known_findings.txt."}
json.dump(m, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(missing), "not claimed")
