"""tools/mkseed.py FILE: write planted bugs described in a python file (list S of dicts) to /verif/seeded (development tool)."""
import json
import os
import subprocess
import sys
import tempfile

PRE = '''import os, sys, warnings
warnings.simplefilter("ignore")
os.environ.setdefault("RAY_USAGE_STATS_ENABLED", "0")
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
import numpy as np
from pymatgen.core import Element
from rxn_network.core import Composition
from rxn_network.entries.entry_set import GibbsEntrySet
from rxn_network.entries.gibbs import GibbsComputedEntry
from rxn_network.entries.interpolated import InterpolatedEntry
from rxn_network.reactions.basic import BasicReaction
from rxn_network.reactions.computed import ComputedReaction
from rxn_network.reactions.open import OpenComputedReaction
from rxn_network.reactions.reaction_set import ReactionSet


def ent(f, epa, eid=None):
    c = Composition(f)
    return InterpolatedEntry(c, epa * c.num_atoms, entry_id=eid or f)


def rx(es, cs, **kw):
    return ComputedReaction(list(es), np.array(cs, float), **kw)


'''
SH = '''#!/bin/bash
# exit 0 when the property holds, non-zero otherwise
d=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg RAY_USAGE_STATS_ENABLED=0 PYTHONHASHSEED=0
exec /opt/venv/bin/python "$d/demo.py"
'''
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for s in ns["S"]:
    if only and s["id"] not in only:
        continue
    d = f"/verif/seeded/{s['id']}"
    os.makedirs(d, exist_ok=True)
    with tempfile.TemporaryDirectory(dir="/tmp") as t:
        subprocess.run(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", t + "/w"], check=True)
        try:
            for f, old, new in s["edits"]:
                p = f"{t}/w/src/rxn_network/{f}"
                x = open(p).read()
                assert x.count(old) == 1, (s["id"], f, x.count(old))
                open(p, "w").write(x.replace(old, new))
            diff = subprocess.run(["git", "-C", t + "/w", "diff"], check=True, capture_output=True, text=True).stdout
        finally:
            subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", t + "/w"], check=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(SH)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.py", "w").write(PRE + s["demo"].strip() + "\n")
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print("wrote", s["id"])
