"""P24: pathways and pathway sets vs a reference model, over all small pathways and all pairs of them."""
from itertools import combinations, permutations, product

import numpy as np

from vlib import enum_model as em
from vlib import exact, uni
from vlib import solve_model as sm

RULE = ("every ordered pathway of 1-3 reactions from the pool (supercells, polymorphs, multiples, reversals) x multiplicities x costs: derived quantities vs direct sums, "
        "matrices vs stoichiometry, invariance under every reordering; every closed set of up to 5 reactions x precursor choices: interdependence vs "
        "'no executable order exists'; every ordered pair of the pathway pool: equality and hashing; every tuple of pathways up to the bound through PathwaySet")


def run(ctx):
    from pymatgen.core.periodic_table import Element
    from rxn_network.core import Composition
    from rxn_network.pathways.balanced import BalancedPathway
    from rxn_network.pathways.basic import BasicPathway
    from rxn_network.pathways.pathway_set import PathwaySet
    from rxn_network.reactions.computed import ComputedReaction
    from rxn_network.reactions.open import OpenComputedReaction

    vecs = [sm.vec(*p) for p in sm.POOL]
    ents, ref = {}, em.entries("YMnO")
    flags = [{}, {"theoretical": False}, {"theoretical": True}, {"icsd_ids": ["1"]}, {"icsd_ids": []}]
    for j, (i, f, x) in enumerate(em.SYSTEMS["YMnO"]):
        if i in ("Y", "Mn", "O2"):
            ents[i] = uni.gent(f, 0.0, 10.0 + j, eid=i, data={"theoretical": False})
        else:
            ents[i] = uni.gent((ref[i].composition * (1 + j % 3)).formula, x, 10.0 + j, eid=i, data=dict(flags[j % 5]))
    exp = {"O2", "Y", "Mn"} | {i for j, (i, _, _) in enumerate(em.SYSTEMS["YMnO"]) if j % 5 in (1, 3)}
    red = {i: Composition(e.composition.reduced_formula) for i, e in ents.items()}

    def mk(k, mu=None):
        ids, co = sm.POOL[k]
        if mu is not None:
            return OpenComputedReaction([ents[i] for i in ids], np.array(co, float), chempots={Element("O"): mu})
        return ComputedReaction([ents[i] for i in ids], np.array(co, float))

    R = [mk(k) for k in range(len(sm.POOL))]
    en = [sum(float(c) * ents[i].energy_per_atom * red[i].num_atoms for i, c in v.items()) for v in vecs]
    at = [sum(float(c) * red[i].num_atoms for i, c in v.items() if c > 0) for v in vecs]
    COST = [round(0.11 + 0.07 * (k * 5 % 16), 3) for k in range(len(R))]

    def snapshot(p):
        return [(uni.rkey_ent(r), float(r.energy)) for r in p.reactions], list(p.costs), list(getattr(p, "coefficients", []))

    def shape(c, key, p, sel, co, cost):
        """derived properties of one pathway object"""
        vs = [vecs[i] for i in sel]
        ar = {red[i] for v in vs for i, x in v.items() if x < 0}
        ap = {red[i] for v in vs for i, x in v.items() if x > 0}
        ids = {i for v in vs for i in v}
        snap = snapshot(p)
        c.check(list(p.reactions) == [R[i] for i in sel], f"{key} reactions")
        c.check(set(p.all_reactants) == ar and set(p.all_products) == ap, f"{key} all reactants and products")
        c.check(set(p.reactants) == ar - ap and set(p.products) == ap - ar and set(p.intermediates) == ar & ap, f"{key} net phases and intermediates",
                lambda: f"{p.reactants} {p.products} {p.intermediates}")
        comps = list(p.compositions)
        c.check(len(comps) == len(set(comps)) and set(comps) == ar | ap, f"{key} compositions")
        c.check({str(e.entry_id) for e in p.entries} == ids, f"{key} entries")
        c.check(np.isclose(p.energy, sum(en[i] for i in sel)), f"{key} energy", lambda: p.energy)
        c.check(np.isclose(p.energy_per_atom, sum(en[i] / at[i] for i in sel)), f"{key} energy per atom", lambda: p.energy_per_atom)
        c.check(p.is_experimental == (ids <= exp), f"{key} is_experimental", lambda: f"{ids} {p.is_experimental}")
        c.check(np.isclose(p.total_cost, sum(cost)), f"{key} total cost")
        if co is not None:
            c.check(np.isclose(p.average_cost, sum(a * b for a, b in zip(co, cost)) / sum(co)), f"{key} average cost", lambda: p.average_cost)

            def row(v):
                out = {}
                for i, x in v.items():
                    out[red[i]] = float(x)
                return [out.get(q, 0.0) for q in comps]

            poly = any(len({red[i] for i in v}) < len(v) for v in vs)
            if not poly:
                c.check(np.allclose(p.get_comp_matrix(), [row(v) for v in vs]), f"{key} composition matrix")
                for i in range(len(R)):
                    if set(red[t] for t in vecs[i]) <= set(comps):
                        c.check(np.allclose(p.get_coeff_vector_for_rxn(R[i]), row(vecs[i])), f"{key} coefficient vector of {i}")
        c.check(isinstance(repr(p), str) and all(str(r) in repr(p) for r in p.reactions), f"{key} printed form lists the reactions")
        c.check(snapshot(p) == snap, f"{key} unchanged by queries")

    def props(c, head):
        mults = (1.0, 0.5, 3.0)
        for rest in [()] + list(permutations([i for i in range(len(R)) if i != head], 1)) + list(permutations([i for i in range(len(R)) if i != head], 2)):
            sel = (head, *rest)
            if len(sel) == 3 and c.quick and sum(sel) % 3:
                continue
            key = f"pathway {sel}"
            if not c.case(key):
                continue
            with c.guard(key):
                cost = [COST[i] for i in sel]
                shape(c, key, BasicPathway([R[i] for i in sel], cost), sel, None, cost)
                for co in ([mults[(head + j) % 3] for j in range(len(sel))], [1.0 + j for j in range(len(sel))]):
                    bal = BalancedPathway([R[i] for i in sel], co, cost, balanced=bool(head % 2))
                    c.check(bal.balanced == bool(head % 2), f"{key} balanced flag")
                    shape(c, key, bal, sel, co, cost)
                c.trace()
                c.state(sel)
                c.outcome(("shape", len(sel)))

    def inter(c, head):
        top = 4 if c.quick else 5
        n = len(R)
        for k in range(1, top):
            for rest in combinations(range(head + 1, n), k):
                sel = (head, *rest)
                if c.quick and k == 3 and sum(sel) % 2:
                    continue
                vs = []
                for i in sel:  # by composition
                    t = {}
                    for q, x in vecs[i].items():
                        f = ents[q].composition.reduced_formula
                        t[f] = t.get(f, 0) + x
                    vs.append(t)
                used = {f for v in vs for f, x in v.items() if x < 0}
                made = {f for v in vs for f, x in v.items() if x > 0}
                need = used - made
                extra = sorted(used & made)
                for opt in [()] + [(x,) for x in extra]:
                    pre = need | set(opt)
                    key = f"interdependent {sel} from {sorted(pre)}"
                    if not c.case(key):
                        continue
                    with c.guard(key):
                        want = len(vs) > 1 and not sm.realizable(vs, pre)
                        for s in (sel, sel[::-1]):
                            p = BalancedPathway([R[i] for i in s], [1.0] * len(s), [0.1] * len(s))
                            got = p.contains_interdependent_rxns([Composition(f) for f in sorted(pre)])
                            c.check(bool(got) == want, key, lambda: f"{p} got {got} want {want}")
                        c.state(key)
                        c.outcome(("interdependent", want))
            c.trace()

    def pool():
        out = []
        opt = [(0,), (1,), (5,), (14,), (0, 1), (1, 0), (0, 1, 2), (0, 1, 4), (3, 7), (7, 3), (6, 5), (0, 5)]
        for sel in opt:
            cost = [COST[i] for i in sel]
            cost2 = [*cost[:-1], cost[-1] + 0.25]
            out.append((("basic", sel), BasicPathway([R[i] for i in sel], cost)))
            for co in ([1.0] * len(sel), [*([1.0] * (len(sel) - 1)), 2.0], [*([1.0] * (len(sel) - 1)), 1.004]):
                for cc in (cost, cost2):
                    out.append((("bal", sel, tuple(co), tuple(cc)), BalancedPathway([mk(i) for i in sel], list(co), list(cc))))
        # the same content built from phases listed in another order
        for sel in opt:
            rx = [ComputedReaction(r.entries[::-1], np.array(r.coefficients)[::-1]) for r in (R[i] for i in sel)]
            cost = [COST[i] for i in sel]
            out.append((("basic", sel), BasicPathway(rx, cost)))
            out.append((("bal", sel, tuple([1.0] * len(sel)), tuple(cost)), BalancedPathway(rx, np.ones(len(sel)), cost)))
        return out

    P = pool()
    # pathways without costs differ from those with costs
    PE = P + [(("bal", sel, tuple([1.0] * len(sel)), cc), BalancedPathway([mk(i) for i in sel], [1.0] * len(sel), list(cc)))
              for sel in ((0,), (5,), (0, 1), (0, 1, 2)) for cc in ((), (COST[sel[0]],) * len(sel), (COST[sel[0]],) if len(sel) > 1 else (9.0,))]

    def eqs(c, i):
        ka, a = PE[i]
        for j, (kb, b) in enumerate(PE):
            key = f"equal {ka} #{i} {kb} #{j}"
            if not c.case(key):
                continue
            with c.guard(key):
                if ka[0] == kb[0]:
                    c.check(bool(a == b) == (ka == kb), key, lambda: f"{a}\n{b}")
                    c.check(bool(a != b) == (ka != kb), f"{key} (not equal)")
                    if ka == kb:
                        c.check(hash(a) == hash(b), f"{key} hash")
                c.state((ka, kb))
                c.trace()
        if ka[0] == "basic":  # costs are optional
            p = BasicPathway(list(a.reactions))
            with c.guard(f"no costs {ka}"):
                c.check(list(p.costs) == [] and p.total_cost == 0 and list(p.reactions) == list(a.reactions), f"no costs {ka}", lambda: p.costs)
        for x in (None, 3, "x", R[0], [R[0]]):
            with c.guard(f"equal {ka} {x!r}"):
                c.check(not a == x, f"equal {ka} to another object")
        c.outcome("pairs")

    sets = [(), (0,), (3, 9), (9, 3)] + list(combinations(range(0, len(P), 3), 2)) + list(combinations(range(1, len(P), 7), 3))
    if not ctx.quick:
        sets += list(permutations(range(0, len(P), 5), 3))

    def pset(c, sel):
        for mu in (None, -0.5):
            key = f"set {sel} mu={mu}"
            if not c.case(key):
                continue
            with c.guard(key):
                paths = []
                for i in sel:
                    k = P[i][0]
                    rx = [mk(t, mu) for t in k[1]]
                    cost = [COST[t] for t in k[1]]
                    paths.append(BasicPathway(rx, cost) if k[0] == "basic" else BalancedPathway(rx, list(k[2]), list(k[3]), balanced=i % 2 == 0))
                before = [snapshot(p) for p in paths]
                ps = PathwaySet.from_paths(paths)
                for again in range(2):
                    out = list(ps) if again == 0 else list(ps.paths)
                    c.check(len(ps) == len(out) == len(paths), f"{key} length")
                    for p, q in zip(paths, out):
                        c.check(type(p) is type(q) and p == q, f"{key} reproduces the pathway", lambda: f"{p}\n{q}")
                        c.check([uni.rkey_ent(r) for r in p.reactions] == [uni.rkey_ent(r) for r in q.reactions]
                                and np.allclose([r.energy for r in p.reactions], [r.energy for r in q.reactions])
                                and [type(r) for r in p.reactions] == [type(r) for r in q.reactions], f"{key} reactions", lambda: f"{p}\n{q}")
                        c.check(list(p.costs) == list(q.costs) and np.isclose(p.total_cost, q.total_cost), f"{key} costs")
                        if isinstance(p, BalancedPathway):
                            c.check(list(p.coefficients) == list(q.coefficients) and np.isclose(p.average_cost, q.average_cost), f"{key} multiplicities")
                            c.check(p.balanced == q.balanced, f"{key} balanced flag")
                c.check([snapshot(p) for p in paths] == before, f"{key} given pathways unchanged")
                c.trace()
                c.state((sel, mu))
                c.outcome(("set", len(sel)))

    def job(c, it):
        it[0](c, it[1])
        c.sample(f"{it[0].__name__} {it[1]}")

    n = len(R)
    items = [(inter, h) for h in range(n)] + [(props, h) for h in range(n)] + [(eqs, i) for i in range(len(PE))] + [(pset, s) for s in sets]
    ctx.pmap(items, job)
    assert exact
