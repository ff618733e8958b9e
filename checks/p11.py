"""P11: BasicOpenEnumerator against exhaustive exact enumeration, over every choice of open phases and option setting."""
from itertools import combinations, product

from checks import p10
from vlib import enum_drive as ed
from vlib import enum_model as em
from vlib import fakeray

RULE = ("five chemical systems, one with three open gases that react together; every combination of open-phase set x precursor set x target set x n x exclusivity x filter_duplicates x "
        "filter_by_chemsys, and every small subset of the entries with one or two open phases; oracle: exact balancing of every closed "
        "combination pair with every non-empty set of open phases on one side")
ASSUMPTIONS = ["open phases all sit on one side of a reaction, at least one takes part (as documented for BasicOpenEnumerator)"]

OPEN = {"YMnO": [["O2"], ["MnO"], ["O2", "MnO2"], ["N2"]], "LiCO": [["O2"], ["CO2"], ["CO2", "O2"], ["CO2", "CO", "O2"]],
        "exch": [["O2"], ["LiCl"], ["LiCl", "O2"], ["Cl2", "O2"]], "grid": [["O2"], ["O2", "BaO"]], "LiHCO": [["CO2", "H2O", "O2"], ["CO2", "H2O"], ["H2O"]]}
SYS = [*em.SYSTEMS, "LiHCO"]
PRE = {**p10.PRE, "LiHCO": [["Li"], ["Li2O", "LiOH"], ["Li2CO3"]]}
TGT = {**p10.TGT, "LiHCO": [["LiHCO3"], ["LiOH", "Li2CO3"]]}
FILT = {**p10.FILT, "LiHCO": "H"}


def run(ctx):
    from rxn_network.entries.entry_set import GibbsEntrySet
    from rxn_network.enumerators.basic import BasicOpenEnumerator

    full = {s: em.entries(s) for s in SYS}
    cache = {}

    def allr(s, ents, n, oi):
        k = (s, frozenset(ents), n, oi)
        if k not in cache:
            cache[k] = em.all_reactions(ents, n, oi) if oi else set()
        return cache[k]

    def one(c, item):
        s, ids, op, n, pre, tgt, exp_, ext, dup, filt = item
        key = f"{s}{'' if ids is None else '|'.join(ids)} open={op} n={n} pre={pre} tgt={tgt} exP={exp_} exT={ext} dup={dup} filt={filt}"
        if not c.case(key):
            return
        ents = full[s] if ids is None else {i: full[s][i] for i in ids}
        ents2 = ed.with_new(ents, [*(pre or ()), *(tgt or ())])
        oi = tuple(sorted(i for i, e in ents2.items() if e.composition.reduced_formula in op))
        want = em.request(allr(s, ents2, n, oi), ents2, ed.ids_for(pre, ents2), ed.ids_for(tgt, ents2), exp_, ext, filt, oi)
        with c.guard(key):
            fakeray.reset(cpus=3)
            es = GibbsEntrySet(ents.values())
            if len(key) % 2:
                es.build_indices()
            before = ed.snap(es)
            en = BasicOpenEnumerator(op, precursors=pre, targets=tgt, n=n, exclusive_precursors=exp_, exclusive_targets=ext,
                                     filter_duplicates=dup, filter_by_chemsys=filt, quiet=True)
            rs = list(en.enumerate(es))
            c.check(ed.snap(es) == before, f"{key} given entries unchanged")
            ed.sound(c, key, rs, ents2)
            ed.diff(c, key, ed.keys(rs, ents2), want)
            c.trace()
            c.state(key)
            c.outcome(len(want))
            if len(rs) > 3:
                c.sample({"config": key, "reactions": [str(r) for r in rs[:3]]})

    items = []
    for s in SYS:
        pres, tgts = [None, *PRE[s]], [None, *TGT[s]]
        for op, pre, tgt in product(OPEN[s], pres, tgts):
            for n in (1, 2):
                exs = [(a, b) for a in ((True, False) if pre else (True,)) for b in ((True, False) if tgt else (False,))]
                for a, b in exs:
                    if ctx.quick and n == 2 and op is not OPEN[s][0] and (pre is None or not a) and (tgt is None or not b) and (pre or tgt):
                        continue
                    items.append((s, None, op, n, pre, tgt, a, b, False, None))
                    if n == 2 and (not ctx.quick or (pre and a)):
                        items.append((s, None, op, n, pre, tgt, a, b, True, FILT[s]))
        ids = list(em.entries(s))
        for k in ((3, 4) if ctx.quick else (2, 3, 4, 5)):
            subs = list(combinations(ids, k))
            for sub in subs[:: 3 if ctx.quick and k == 4 else 1]:
                fs = [i for i in sub if {**em.SYSTEMS, **em.MORE}[s][ids.index(i)][1] in {o for op in OPEN[s] for o in op}]
                for op in combinations([{**em.SYSTEMS, **em.MORE}[s][ids.index(i)][1] for i in fs], 1):
                    items.append((s, sub, list(op), 2, None, None, True, False, False, None))
    items.sort(key=lambda x: -x[3])
    ctx.pmap(items, one)
