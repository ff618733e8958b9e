"""Regenerate DESIGN.md from tools/design_head.md, the property table, the checks' RULE/ASSUMPTIONS and tools/notes.json (run by hand, output is committed)."""
import ast
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from props import P  # noqa: E402

notes = json.load(open(os.path.join(ROOT, "tools", "notes.json")))
known = json.load(open(os.path.join(ROOT, "known_findings.json")))
out = [open(os.path.join(ROOT, "tools", "design_head.md")).read().rstrip(), "", "## Properties", ""]
for p in P:
    src = open(os.path.join(ROOT, "checks", p["id"].lower() + ".py")).read()
    vals = {t.id: ast.literal_eval(n.value) for n in ast.parse(src).body if isinstance(n, ast.Assign) for t in n.targets
            if isinstance(t, ast.Name) and t.id in ("RULE", "ASSUMPTIONS")}
    n = notes["props"].get(p["id"], {})
    out += [f"### {p['id']} {p['title']}", "",
            f"- *Specified*: {p['statement']}",
            f"- *Enumerated / oracle*: {vals['RULE']}.",
            f"- *Technique*: {p['technique']}; anchored in {', '.join(f.replace('src/rxn_network/', '') for f in p['files'])}.",
            f"- *Why tests cannot*: {p['why']}"]
    if vals.get("ASSUMPTIONS"):
        out.append(f"- *Assumptions*: {'; '.join(vals['ASSUMPTIONS'])}.")
    if n.get("scope"):
        out.append(f"- *Left out / notes*: {n['scope']}")
    out.append(f"- *Cost*: {n.get('cost', 'see evidence')}.")
    fx = [f.split(maxsplit=2) for f in known["fixed"] if f.startswith(f"fixed: property={p['id']} ")]
    if fx:
        out.append(f"- *Defects repaired*: {'; '.join(x[2] for x in fx)}.")
    k = sum(f["property"] == p["id"] for f in known["findings"])
    if k:
        out.append(f"- *Known findings*: {k} (see below).")
    out.append("")
out += ["## Planted bugs and what catches them", "",
        "Each was written from the property and the code only, confirmed with its demonstration (0 without, nonzero with the patch) and against the stable tests.", "",
        "| id | property | needs | caught by |", "|---|---|---|---|"]
sd = os.path.join(ROOT, "seeded")
for d in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, d, "meta.json")))
    out.append(f"| {d} | {m['property']} | {m['needs']} | {notes['caught'].get(d, m['property'])} |")
out += ["", open(os.path.join(ROOT, "tools", "design_tail.md")).read().rstrip(), ""]
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out))
