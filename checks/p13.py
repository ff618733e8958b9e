"""P13: MinimizeGibbs / MinimizeGrandPotential enumerators against an exact lower-hull model."""
from itertools import combinations, product

from checks.p10 import FILT, PRE, TGT
from vlib import enum_drive as ed
from vlib import enum_model as em
from vlib import fakeray

RULE = ("four chemical systems x closed / open to one element at several chemical potentials x precursors x targets x exclusivity x "
        "duplicate filtering, every subset of the non-elemental phases up to the bound; oracle: every pair of reactants to every face of the exact "
        "lower hull (rational arithmetic), kept when uniquely balanced")
ASSUMPTIONS = ["hull facets are decided exactly on energies rounded to 1e-9; entry sets contain every elemental phase"]


def run(ctx):
    from pymatgen.core.periodic_table import Element
    from rxn_network.entries.entry_set import GibbsEntrySet
    from rxn_network.enumerators.minimize import MinimizeGibbsEnumerator, MinimizeGrandPotentialEnumerator

    full = {s: em.entries(s) for s in em.SYSTEMS}
    cache = {}

    def one(c, item):
        s, ids, op, mu, pre, tgt, exp_, ext, dup, filt = item
        key = f"{s}{'' if ids is None else '|'.join(ids)} open={op} mu={mu} pre={pre} tgt={tgt} exP={exp_} exT={ext} dup={dup} filt={filt}"
        if not c.case(key):
            return
        ents = full[s] if ids is None else {i: full[s][i] for i in ids}
        k = (s, ids, op, mu)
        with c.guard(key):
            if k not in cache:
                cache[k] = em.hull_reactions(ents, op, mu)
            oi = tuple(i for i in ents if op and set(em.comp(ents[i])) == {op})
            pi, ti = ed.ids_for(pre, ents), ed.ids_for(tgt, ents)
            want = em.request(cache[k], ents, pi, ti, exp_, ext, filt, oi)
            fakeray.reset(cpus=3)
            es = GibbsEntrySet(ents.values())
            if len(key) % 2:
                es.build_indices()
            before = ed.snap(es)
            kw = dict(precursors=pre, targets=tgt, exclusive_precursors=exp_, exclusive_targets=ext, filter_duplicates=dup,
                      filter_by_chemsys=filt, quiet=True)
            en = MinimizeGrandPotentialEnumerator(Element(op), mu, **kw) if op else MinimizeGibbsEnumerator(**kw)
            rs = list(en.enumerate(es))
            c.check(ed.snap(es) == before, f"{key} given entries unchanged")
            ed.sound(c, key, rs, ents, op, mu if op else None)

            def finding(x):
                # zero exchange of the open element: whether it is reported depends on round-off (known finding, per reaction)
                if op and not (x[0] | x[1]) & set(oi):
                    c.violation(f"grand {s} open={op} misses {ed.show(x)}", key)
                    return True
                return False

            got = ed.keys(rs, ents)
            if filt:  # applies to the reactants' system: a reaction of only one of them may come with it
                want |= {x for x in set(got) & em.request(cache[k], ents, pi, ti, exp_, ext, None, oi) if len(x[0] - set(oi)) == 1}
            ed.diff(c, key, got, want, finding, repeats=not dup)
            c.trace()
            c.state(key)
            c.outcome(len(want))
            if len(rs) > 3:
                c.sample({"config": key, "reactions": [str(r) for r in rs[:3]]})

    items = []
    mus = {"YMnO": [("O", -0.3), ("O", -2.1), ("O", -4.2), ("Mn", -0.5)], "LiCO": [("O", -0.3), ("O", -1.9), ("C", -0.2)],
           "exch": [("O", -0.5)], "grid": [("O", -0.7), ("O", -6.1), ("Ba", -1.3)]}
    if not ctx.quick:
        mus = {k: v + [("O", 0.0), ("O", -1.3), ("O", -2.9), ("O", -5.3)] for k, v in mus.items()}
        mus["exch"].append(("Cl", -1.1))
    for s in em.SYSTEMS:
        pres, tgts = [None, *(p for p in PRE[s] if "YMn3O6" not in p)], [None, *(t for t in TGT[s] if "Y2Mn2O7" not in t)]
        for (op, mu), pre, tgt in product([(None, None), *mus[s]], pres, tgts):
            exs = [(a, b) for a in ((True, False) if pre else (True,)) for b in ((True, False) if tgt else (False,))]
            for a, b in exs:
                dup = (pre is None) != (tgt is None)
                items.append((s, None, op, mu, pre, tgt, a, b, dup, None))
                if pre and b is False and (not ctx.quick or s != "exch"):
                    items.append((s, None, op, mu, pre, tgt, a, b, True, FILT[s]))
        elem = [i for i, e in full[s].items() if len(e.composition.elements) == 1]
        rest = [i for i in full[s] if i not in elem]
        for k in ((1, 2, 3) if ctx.quick else range(1, len(rest))):
            for sub in combinations(rest, k):
                for op, mu in [(None, None), mus[s][0]] if ctx.quick else [(None, None), *mus[s]]:
                    if s == "exch" and ctx.quick and k == 3:
                        continue
                    items.append((s, (*elem, *sub), op, mu, None, None, True, False, False, None))
    ctx.pmap(items, one)
