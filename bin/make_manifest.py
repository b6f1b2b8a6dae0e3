#!/usr/bin/env python3
"""MANIFEST.json from properties.jsonl and the checks present"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {}
exec(open(os.path.join(V, "bin", "notes.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd="python3 bin/check.py %s quick" % i, thorough_cmd="python3 bin/check.py %s thorough" % i, evidence_file="evidence/%s.json" % i,
            technique="symbolic execution of the compiled library (LLVM IR) with SAT/SMT-decided paths and assertions", level="model_checking", level_note=NOTE.get(i, "") + " " + COMMON))
    else: na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
json.dump(dict(version=1, setup_cmd="bash engine/build.sh", checks=checks, not_applicable=na,
    notes="All checks: python3 bin/check.py <property> <quick|thorough>. No hooks in /repo; only fix: commits."), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
