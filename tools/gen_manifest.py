#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of properties and the checks that exist in props/."""
import json
import os
import ast

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}     # property -> reason, for properties that solver-based checking cannot decide here
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    path = os.path.join(HERE, "props", pid + ".py")
    if pid in NA:
        na.append({"property": pid, "reason": NA[pid]})
        continue
    if not os.path.exists(path):
        na.append({"property": pid, "reason": "check not built yet"})
        continue
    env = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and node.targets[0].id in ("BOUNDS", "LEVEL", "TECHNIQUE"):
            env[node.targets[0].id] = ast.literal_eval(node.value)
    cmd = f"/opt/venv/bin/python run.py {pid}"
    checks.append({
        "property": pid, "quick_cmd": cmd + " --tier quick", "thorough_cmd": cmd + " --tier thorough --deadline 7000",
        "technique": env.get("TECHNIQUE", "symbolic execution of the Python source with SMT (z3, cvc5) deciding every path and claim"),
        "level": env.get("LEVEL", "model_checking"),
        "level_note": ("Every execution path of the functions within the bounds is explored on symbolic values and each claim is decided by "
                       "the solver (exact arithmetic); counterexamples are replayed on the real code in floating point. Bounds: " + env["BOUNDS"])[:1500]})
json.dump({"version": 1,
           "setup_cmd": "/opt/venv/bin/python run.py --selftest",
           "checks": checks, "not_applicable": na},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
