"""P10: BasicEnumerator against exhaustive exact enumeration of candidates, over every option setting."""
from itertools import combinations, product

from vlib import enum_drive as ed
from vlib import enum_model as em
from vlib import fakeray

RULE = ("four chemical systems (polymorphs, degenerate geometry, exchange) and a family of systems of three to nine elements; every combination of precursor set x target set x n x "
        "exclusivity x filter_duplicates x filter_by_chemsys, and every small subset of the entries with the default options; "
        "oracle: every pair of phase combinations balanced with exact rational arithmetic and filtered by the request")
ASSUMPTIONS = ["a request names phases of the system or formulas without entry; chemical systems of one element are outside (documented skip)"]

PRE = {"YMnO": [["Mn2O3", "Y2O3"], ["Mn4O6"], ["Y2O3", "MnO2", "O2"], ["YMn3O6", "MnO"]],
       "LiCO": [["Li2CO3", "C"], ["Li2O", "CO2"], ["O2", "Li2C2O4", "Li"]],
       "exch": [["YCl3", "LiMnO2"], ["LiCl", "Y2O3", "Mn2O3"], ["YCl3", "Li2O", "Mn2O3"]],
       "grid": [["BaO", "TiO2"], ["BaTiO3", "Ti", "O2"], ["Ti2O3"]]}
TGT = {"YMnO": [["YMnO3"], ["YMn2O5", "O2"], ["Y2Mn2O7"]],
       "LiCO": [["Li2O2"], ["CO", "Li2CO3"]],
       "exch": [["YMnO3"], ["YOCl", "LiCl"], ["YMnO3", "LiCl"]],
       "grid": [["BaTiO3"], ["TiO", "Ba2TiO4"]]}
WIDE = [f"wide{k}" for k in range(3, 10)]
FILT = {"YMnO": "Mn-O", "LiCO": "C-Li-O", "exch": "Cl", "grid": "Ti"}


def run(ctx):
    from rxn_network.entries.entry_set import GibbsEntrySet
    from rxn_network.enumerators.basic import BasicEnumerator

    full = {s: em.entries(s) for s in (*em.SYSTEMS, *WIDE)}
    cache = {}

    def allr(s, ents, n):
        k = (s, frozenset(ents), n)
        if k not in cache:
            cache[k] = em.all_reactions(ents, n)
        return cache[k]

    def one(c, item):
        s, ids, n, pre, tgt, exp_, ext, dup, filt, extra = item
        key = f"{s}{'' if ids is None else '|'.join(ids)} n={n} pre={pre} tgt={tgt} exP={exp_} exT={ext} dup={dup} filt={filt} {extra or ''}"
        if not c.case(key):
            return
        ents = full[s] if ids is None else {i: full[s][i] for i in ids}
        ents2 = ed.with_new(ents, [*(pre or ()), *(tgt or ())])
        want = em.request(allr(s, ents2, n), ents2, ed.ids_for(pre, ents2), ed.ids_for(tgt, ents2), exp_, ext, filt)
        with c.guard(key):
            fakeray.reset(cpus=3)
            es = GibbsEntrySet(ents.values())
            if len(key) % 2:
                es.build_indices()
            before = ed.snap(es)
            en = BasicEnumerator(precursors=pre, targets=tgt, n=n, exclusive_precursors=exp_, exclusive_targets=ext,
                                 filter_duplicates=dup, filter_by_chemsys=filt, quiet=True, **dict(extra or ()))
            rs = list(en.enumerate(es))
            c.check(ed.snap(es) == before, f"{key} given entries unchanged")
            got = ed.keys(rs, ents2)
            ed.sound(c, key, rs, ents2)
            if extra:  # looser balancing options: everything strict is still there and all is within the request
                strict = set(want)
                c.check(strict <= set(got), f"{key} misses a strictly balanced reaction", lambda: [ed.show(x) for x in strict - set(got)][:3])
                pi, ti = ed.ids_for(pre, ents2), ed.ids_for(tgt, ents2)
                rest = set(got) - set(em.request(set(got), ents2, pi, ti, exp_, ext, filt))
                c.check(not rest, f"{key} outside the request", lambda: [ed.show(x) for x in rest][:3])
            else:
                ed.diff(c, key, got, want)
            c.trace()
            c.state(key)
            c.outcome(len(want))
            if len(got) > 3:
                c.sample({"config": key, "reactions": [ed.show(x) for x in got[:3]]})

    items = []
    for s in em.SYSTEMS:
        pres, tgts = [None, *PRE[s]], [None, *TGT[s]]
        for pre, tgt in product(pres, tgts):
            for n in (1, 2):
                exs = [(a, b) for a in ((True, False) if pre else (True,)) for b in ((True, False) if tgt else (False,))]
                for a, b in exs:
                    items.append((s, None, n, pre, tgt, a, b, False, None, None))
                    if n == 2:
                        items.append((s, None, n, pre, tgt, a, b, True, FILT[s], None))
                        if not ctx.quick:
                            items.append((s, None, n, pre, tgt, a, b, True, None, None))
        for pre in PRE[s]:
            for a in (True, False):
                for extra in ((("remove_changed", False),), (("remove_unbalanced", False),), (("max_num_constraints", 3),)):
                    items.append((s, None, 2, pre, None, a, False, False, None, extra))
        for pre in PRE[s][:2] if ctx.quick else [None, *PRE[s]]:
            for tgt in TGT[s][:1] if ctx.quick else [None, *TGT[s]]:
                items.append((s, None, 3, pre, tgt, True, False, False, None, None))
        ids = list(em.entries(s))
        for k in ((2, 3) if ctx.quick else (2, 3, 4, 5)):
            for sub in combinations(ids, k):
                items.append((s, sub, 2, None, None, True, False, False, None, None))
        if ctx.quick:
            items += [(s, sub, 2, None, None, True, False, False, None, None) for sub in list(combinations(ids, 4))[::5]]
    for s in WIDE:  # three to nine elements in one reaction
        fa, fb, fab, *_ = [x[1] for x in em.MORE[s]]
        for pre, tgt in product((None, [fa], [fa, fb], [fab]), (None, [fab], [fa, fb])):
            for n in (1, 2, 3):
                for a, b in product((True, False) if pre else (True,), (True, False) if tgt else (False,)):
                    items.append((s, None, n, pre, tgt, a, b, False, None, None))
    items.sort(key=lambda x: -x[2])
    ctx.pmap(items, one)
