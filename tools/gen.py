"""Regenerate properties.jsonl and MANIFEST.json from tools/props.py (run by hand, output is committed)."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from props import P  # noqa: E402

PY = "/opt/venv/bin/python"
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "hook_needed": None},
        }) + "\n")
checks, na = [], []
for p in P:
    if os.path.exists(os.path.join(ROOT, "checks", p["id"].lower() + ".py")):
        checks.append({
            "property": p["id"], "quick_cmd": f"{PY} /verif/check.py {p['id']} --tier quick",
            "thorough_cmd": f"{PY} /verif/check.py {p['id']} --tier thorough",
            "technique": p["technique"], "level": "model_checking", "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": "check not built yet"})
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "mkdir -p /verif/evidence /verif/replays",
               "checks": checks, "not_applicable": na,
               "notes": "No hooks in /repo are needed: the machinery drives the public API and replaces Ray by a controlled scheduler."}, f, indent=1)
print(len(checks), "checks", len(na), "not applicable")
