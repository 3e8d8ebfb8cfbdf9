"""Writes /verif/MANIFEST.json from the check modules.  Run from /verif."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def constants(path):
    out = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                out[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    return out


ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for pid in ids:
    c = constants(os.path.join(HERE, "mc", "checks", pid.lower() + ".py"))
    checks.append(
        dict(
            property=pid,
            quick_cmd=f"bin/check {pid} --tier quick",
            thorough_cmd=f"bin/check {pid} --tier thorough",
            evidence_file=f"evidence/{pid}.json",
            technique=c["TECHNIQUE"],
            level="model_checking",
            level_note=c["LEVEL_NOTE"] + " Bounds: " + c["BOUNDS"] + "." + (
                " Assumes: " + "; ".join(c["ASSUMPTIONS"]) + "." if c["ASSUMPTIONS"] else ""
            ),
        )
    )
manifest = dict(
    version=1,
    setup_cmd="/opt/venv/bin/python -c 'import jax, numpy, pandas, scipy, yaml'",
    checks=checks,
    not_applicable=[],
    notes="No hooks: the checks drive the unmodified code through the functions its own tests import.",
)
json.dump(manifest, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
