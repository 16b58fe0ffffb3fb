#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: the text below, the table of checks (from props/) and of planted bugs (from seeded/ and tools/seed_results.json)."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = open(os.path.join(HERE, "tools", "design_head.md")).read()
TAIL = open(os.path.join(HERE, "tools", "design_tail.md")).read()
ORACLE = json.load(open(os.path.join(HERE, "tools", "oracles.json")))
out = [HEAD, "## Per property\n"]
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    path = os.path.join(HERE, "props", p["id"] + ".py")
    out.append(f"### {p['id']} {p['title']}\n")
    if not os.path.exists(path):
        out.append("No check: see not_applicable in MANIFEST.json.\n")
        continue
    env = {}
    tree = ast.parse(open(path).read())
    for n in tree.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("BOUNDS", "ASSUMPTIONS", "FUNCTIONS"):
            env[n.targets[0].id] = ast.literal_eval(n.value)
    out.append("- Encoded: " + ", ".join(f"`{f}`" for f in env["FUNCTIONS"]) + ".")
    out.append(f"- Bounds: {env['BOUNDS']}.")
    out.append("- Assumed: " + "; ".join(env["ASSUMPTIONS"]) + ".")
    o = ORACLE.get(p["id"])
    if o:
        out.append(f"- Oracle: {o}")
    out.append(f"- Beyond the tests: {p['why_tests_cant']}\n")
out.append("## Planted bugs\n")
res = json.load(open(os.path.join(HERE, "tools", "seed_results.json")))
out.append("| bug | property | needs | caught by (quick tier) |\n|---|---|---|---|")
sd = os.path.join(HERE, "seeded")
for s in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, s, "meta.json")))
    out.append(f"| {s} | {m['property']} | {m['needs']} | {res.get(s, 'not run')} |")
out.append("\n" + TAIL)
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out))
