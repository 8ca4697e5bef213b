"""Writes MANIFEST.json from the check modules present (run from /verif)."""
import ast
import json
import os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
SKIP = {}
checks, na = [], []
for p in props:
    path = os.path.join(root, "harness", "checks", p["id"].lower() + ".py")
    if p["id"] in SKIP:
        na.append({"property": p["id"], "reason": SKIP[p["id"]]})
        continue
    if not os.path.exists(path):
        na.append({"property": p["id"], "reason": "check under construction"})
        continue
    tree = ast.parse(open(path).read())
    g = {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("RULE", "ASSUMPTIONS", "TECHNIQUE", "NOTE"):
            g[n.targets[0].id] = ast.literal_eval(n.value)
    checks.append({
        "property": p["id"],
        "quick_cmd": f"bash run.sh {p['id']} --tier quick",
        "thorough_cmd": f"bash run.sh {p['id']} --tier thorough",
        "technique": g.get("TECHNIQUE", "property-based testing (Hypothesis) against a reference model"),
        "level": "exploration",
        "level_note": g.get("NOTE", "Generated-input search: " + g["RULE"] + ". Assumes: " + "; ".join(g.get("ASSUMPTIONS", [])) + "."),
    })
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na},
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
