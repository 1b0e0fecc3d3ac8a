#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the modules in nmc/props."""
import ast
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    fn = os.path.join(V, "nmc", "props", i.lower()+".py")
    if not os.path.exists(fn):
        na.append({"property": i, "reason": NA.get(
            i, "check not built yet")})
        continue
    t = ast.parse(open(fn).read())
    d = {}
    for s in t.body:
        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
            try:
                d[s.targets[0].id] = ast.literal_eval(s.value)
            except ValueError:
                pass
    checks.append({
        "property": i, "quick_cmd": "./check %s quick" % i,
        "thorough_cmd": "./check %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": d.get("TECHNIQUE", "explicit-state model checking of the "
                           "implementation: exhaustive enumeration of a "
                           "bounded input and configuration space, each "
                           "execution compared with an independent reference "
                           "model"),
        "level": d["LEVEL"],
        "level_note": d.get("NOTE", d["RULE"])})
m = {"version": 1,
     "setup_cmd": "PYTHONPATH=. PYTHONDONTWRITEBYTECODE=1 "
                  "/opt/venv/bin/python -m nmc.build omp asan leak",
     "checks": checks, "not_applicable": na,
     "notes": "All checks build the C extension from /repo's working tree "
              "into /verif/.build (git-ignored) and import pymaster from "
              "/repo. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
