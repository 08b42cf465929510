#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the checks that exist."""
import ast
import json
import os

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
PY = "/opt/venv/bin/python"
checks, missing = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    prop = json.loads(line)
    pid = prop["id"]
    path = os.path.join(HERE, "checks", pid.lower() + ".py")
    if not os.path.isfile(path):
        missing.append({"property": pid, "reason": "its check is not built yet"})
        continue
    tree = ast.parse(open(path).read())
    note = "; ".join(
        "; ".join(ast.literal_eval(node.value))
        for node in tree.body if isinstance(node, ast.Assign)
        and getattr(node.targets[0], "id", "") == "ASSUMPTIONS")
    doc = ast.get_docstring(tree).split("\n")
    oracle = " ".join(d.strip() for d in doc[1:] if d.strip())
    checks.append({
        "property": pid,
        "quick_cmd": "{} check.py {} --tier quick".format(PY, pid),
        "thorough_cmd": "{} check.py {} --tier thorough".format(PY, pid),
        "evidence_file": "evidence/{}.json".format(pid),
        "technique": "property-based testing (Hypothesis, seeded): "
                     + (oracle or "independent reference model"),
        "level": "exploration",
        "level_note": "generated-input search, no proof of absence. Assumes: "
                      + note})
out = {"version": 1, "setup_cmd": PY + " lib/bootstrap.py", "checks": checks,
       "not_applicable": missing}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump(out, fh, indent=1)
    fh.write("\n")
print(len(checks), "claimed", len(missing), "not")
