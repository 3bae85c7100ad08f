"""Writes properties.jsonl and MANIFEST.json from the definitions in props.py (next to this file)."""
import json
import os

import props

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]]},
        }) + "\n")
checks, na = [], []
for p in props.PROPS:
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    if not os.path.exists(os.path.join(HERE, "checks", p["id"].lower() + ".py")):
        na.append({"property": p["id"], "reason": "no check yet"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"{PY} checks/run.py {p['id']} --tier quick",
        "thorough_cmd": f"{PY} checks/run.py {p['id']} --tier thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": p["technique"], "level": "model_checking", "level_note": p["note"],
    })
json.dump({
    "version": 1, "setup_cmd": f"{PY} lib/mmbuild.py", "checks": checks, "not_applicable": na,
    "notes": "No hooks in /repo: the checks compile the Cython sources of /repo's working tree into /verif/.cache and drive the public API.",
}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")

# ---- DESIGN.md ----
import ast

def consts(path):
    out = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") in ("ASSUMPTIONS", "BOUNDS"):
            out[node.targets[0].id] = ast.literal_eval(node.value)
    return out

lines = [open(os.path.join(HERE, "tools", "design_head.md")).read(), "\n## Properties\n"]
for p in props.PROPS:
    lines.append(f"\n### {p['id']} {p['title']}\n")
    if p.get("na"):
        lines.append(f"Not applicable: {p['na']}\n")
        continue
    lines.append(f"*Specified:* {p['statement']}\n")
    lines.append(f"*Decided by:* {p['technique']}. Space: {p['quant']}.\n")
    f = os.path.join(HERE, "checks", p["id"].lower() + ".py")
    if os.path.exists(f):
        c = consts(f)
        lines.append("*Bounds:*\n" + "\n".join(f"- {k}: {v}" for k, v in c["BOUNDS"].items()) + "\n")
        lines.append("*Oracle and assumptions:*\n" + "\n".join(f"- {v}" for v in c["ASSUMPTIONS"]) + "\n")
    cost = ""
    try:
        e = json.load(open(os.path.join(HERE, "tools", "cost.json")))[p["id"]]
        cost = f"{e['states']} states, {e['transitions']} transitions in {e['seconds']} s (quick, 8 cores). "
    except (OSError, KeyError):
        pass
    lines.append(f"*Cost:* {cost}\n")
    lines.append(f"*Beyond the tests:* {p['why']} {p['note']}\n")
lines.append("\n" + open(os.path.join(HERE, "tools", "design_tail.md")).read())
kf = open(os.path.join(HERE, "known_findings.txt")).read().splitlines()
lines.append("\n## Defects found\n\nRepaired (one `fix:` commit each):\n\n" + "\n".join("- " + l[7:] for l in kf if l.startswith("fixed:")) + "\n")
kn = [l for l in kf if l.startswith("known:")]
lines.append("\nKnown findings (recorded, not repaired; see known_findings.txt):\n\n" + ("\n".join("- " + l[7:] for l in kn) or "- none") + "\n")
lines.append("\n## Planted bugs\n\n| bug | property | needs | caught by |\n|---|---|---|---|\n")
try:
    caught = json.load(open(os.path.join(HERE, "tools", "caught.json")))
except OSError:
    caught = {}
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
    lines.append(f"| {d} | {m['property']} | {m['needs']} | {caught.get(d, '?')} |\n")
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(lines).replace("|\n\n|", "|\n|"))

# the files must follow the schemas
import subprocess

subprocess.check_call(["python3-vt", "-c", """
import json, jsonschema
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('properties.jsonl'):
    jsonschema.validate(json.loads(l), s)
jsonschema.validate(json.load(open('MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
"""], cwd=HERE)
