"""Writes /verif/MANIFEST.json from checks/*.py and properties.jsonl."""
import ast
import json
from pathlib import Path

V = Path(__file__).resolve().parents[1]
props = [json.loads(x) for x in (V / "properties.jsonl").read_text().splitlines()]
checks, na = [], []
NA = {}
for p in props:
    f = V / "checks" / f"{p['id']}.py"
    if not f.exists():
        na.append({"property": p["id"], "reason": NA.get(p["id"], "check not built yet")})
        continue
    consts = {}
    for node in ast.parse(f.read_text()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                consts[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    checks.append({
        "property": p["id"],
        "quick_cmd": f"VERIF_TIER=quick ./run.sh {p['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {p['id']}",
        "technique": consts["TECHNIQUE"],
        "level": "exploration",
        "level_note": consts["LEVEL_NOTE"],
    })
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: all monitors wrap the public boundary from outside. Known findings: known_findings.txt"}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks", len(na), "not applicable")
