"""P22: the pathway solver vs exact multiplicities of every combination of reactions."""
from fractions import Fraction as F
from itertools import combinations, product

import numpy as np

from vlib import enum_model as em
from vlib import fakeray, uni
from vlib import solve_model as sm

RULE = ("every subset (bounded size) of a 16-reaction pool (multiples, a reversal, polymorphs, supercells) split into candidate pathways x 7 net reactions x "
        "combination sizes 1-4 x scale of the coefficients x intermediate-reaction and interdependence options, plus closed/open systems; reference: exact rational multiplicities of every "
        "combination; interdependence = no order in which each step uses precursors and earlier products")
ASSUMPTIONS = ["Ray is replaced by an in-process scheduler that isolates tasks by pickling (vlib/fakeray.py)",
               "linearly dependent combinations have no unique multiplicities: they may be returned, and must then be valid"]


def run(ctx):
    from pymatgen.core.periodic_table import Element
    from rxn_network.costs.functions import Softplus
    from rxn_network.entries.entry_set import GibbsEntrySet
    from rxn_network.pathways.basic import BasicPathway
    from rxn_network.pathways.pathway_set import PathwaySet
    from rxn_network.pathways.solver import PathwaySolver
    from rxn_network.reactions.computed import ComputedReaction
    from rxn_network.reactions.open import OpenComputedReaction

    cf = Softplus(900)
    vecs = [sm.vec(*p) for p in sm.POOL]
    nets = [sm.vec(*p) for p in sm.NETS]

    def mk(ents, p, open_=None):
        es, co = [ents[i] for i in p[0]], np.array(p[1], float)
        return OpenComputedReaction(es, co, chempots={Element(open_[0]): open_[1]}) if open_ else ComputedReaction(es, co)

    def fresh(scale=0, only=None):
        out = {}
        for j, (i, f, x) in enumerate(em.SYSTEMS["YMnO"]):
            if only is None or i in only:
                c = em.entries("YMnO", [i])[i].composition
                out[i] = uni.ient((c * (1 + (j + scale) % 3)).formula if scale else f, x, i)
        return out

    def paths_of(rx, how):
        cost = [cf.evaluate(r) for r in rx]
        if how == 0 or len(rx) < 2:
            groups = [list(range(len(rx)))]
        elif how == 1:
            groups = [[i] for i in range(len(rx))]
        else:  # overlapping pathways
            groups = [list(range(i, min(len(rx), i + 2))) for i in range(len(rx))]
        return [BasicPathway([rx[i] for i in g], [cost[i] for i in g]) for g in groups]

    def one(c, key, sub, n, k, how=0, scale=0, inter=None, open_=None, filt=False, cutoff=0.0, only=None, rs=1, ns=1):
        if not c.case(key):
            return
        with c.guard(key):
            ents = fresh(scale, only)
            es = GibbsEntrySet(ents.values())
            if (n + len(sub)) % 3:
                es.build_indices()
            fac = [F(rs) ** (1 if j % 2 else -1) if isinstance(rs, int) else rs for j in range(len(sub))]
            times = lambda p, f: (p[0], [F(x).limit_denominator(10**4) * f for x in p[1]])  # noqa: E731
            rx = [mk(ents, times(sm.POOL[i], f), open_) for i, f in zip(sub, fac)]
            net_rxn = mk(ents, times(sm.NETS[n], F(ns)), open_)
            fakeray.reset(cpus=3.0)
            kw = {}
            if len(key) % 3:  # work split into chunks and batches of any size
                kw.update(chunk_size=(1, 2, 3, 5, 16)[(n + len(sub) + sum(sub)) % 5] if len(sub) < 6 else (17, 64, 300)[(n + k) % 3], batch_size=(None, 1, 2, 5)[(n + k + sum(sub)) % 4])
            if open_:
                kw.update(open_elem=open_[0] if n % 2 else Element(open_[0]), chempot=open_[1])
            snap = lambda: [(uni.rkey_ent(r), r.energy, uni.crepr(r.data), [uni.crepr(e.data) for e in r.entries]) for r in rx]  # noqa: E731, B023
            before = snap()
            ps = PathwaySolver(PathwaySet.from_paths(paths_of(rx, how)), es, cf, **kw)
            args = {"max_num_combos": k, "filter_interdependent": False, "find_intermediate_rxns": bool(inter)}
            if inter:
                args.update(use_basic_enumerator="b" in inter, use_minimize_enumerator="m" in inter, intermediate_rxn_energy_cutoff=cutoff)
            c.check(before == snap(), f"{key} given reactions unchanged by building a solver")
            if (n + k + len(sub)) % 2:  # the entries meanwhile take part in another entry set
                GibbsEntrySet(list(ents.values())[3:]).build_indices()
                before = snap()
            out = list(ps.solve(net_rxn, **args))
            net, vs = {i: x * F(ns) for i, x in nets[n].items()}, [{i: x * f for i, x in vecs[q].items()} for q, f in zip(sub, fac)]
            c.step(len(vs))
            if inter:
                vs = vs + sm.intermediates(ents, vs, net, *(open_ or (None, None)), cutoff=cutoff, basic="b" in inter, minimize="m" in inter)
            want, dep = sm.solutions(sm.candidates(vs, net), net, k)
            trivial = frozenset([sm.key(net)])  # a multiple of the net reaction as its own pathway: left open
            got = {}
            for p in out:
                g = frozenset(sm.key(sm.rvec(r)) for r in p.reactions)
                c.check(g not in got, f"{key} returns a pathway twice", lambda: str(p))
                got[g] = p
                c.check(len(g) == len(p.reactions), f"{key} uses a reaction twice", lambda: str(p))
                c.check(len(p.reactions) <= k, f"{key} size limit", lambda: str(p))
                c.check(p.balanced is True, f"{key} marked balanced")
                tot = {}
                for r, m in zip(p.reactions, p.coefficients):
                    for i, x in zip([str(e.entry_id) for e in r.entries], r.coefficients):
                        tot[i] = tot.get(i, 0) + m * float(x)
                c.check(len(p.coefficients) == len(p.reactions) and min(p.coefficients) > 0, f"{key} positive multiplicities", lambda: str(p.coefficients))
                c.check(all(abs(tot.get(i, 0) - float(net.get(i, 0))) < 1e-4 for i in {*tot, *net}), f"{key} sums to the net reaction", lambda: f"{p} {p.coefficients} {tot}")
                c.check(len(p.costs) == len(p.reactions) and np.allclose(p.costs, [cf.evaluate(r) for r in p.reactions]), f"{key} costs", lambda: f"{p} {p.costs}")
                for r in p.reactions:
                    v = {i: float(x) for i, x in sm.rvec(r).items()}
                    c.check(abs(r.energy_per_atom - sm.energy_pa(ents, v, *(open_ or (None, None)))) < 1e-6, f"{key} step energy", lambda: f"{r} {r.energy_per_atom}")
                    c.check(all(e.energy_per_atom == ents[str(e.entry_id)].energy_per_atom for e in r.entries), f"{key} step entries")
                if g in want:
                    mult = {sm.key(sm.rvec(r)): m * max(abs(float(t)) for t in r.coefficients) for r, m in zip(p.reactions, p.coefficients)}
                    c.check(all(abs(mult[q] - float(x)) < 1e-4 for q, x in want[g].items()), f"{key} multiplicities", lambda: f"{p} {p.coefficients} {want[g]}")
            c.check(not set(got) - set(want) - dep, f"{key} only balanced pathways", lambda: f"{[str(got[g]) for g in set(got) - set(want) - dep][:2]}")
            c.check(not set(want) - set(got) - {trivial}, f"{key} every balanced pathway", lambda: f"missing {[sorted(g) for g in set(want) - set(got) - {trivial}][:2]} of {len(want)}")
            ac = [float(np.dot(p.coefficients, p.costs) / sum(p.coefficients)) for p in out]
            c.check(all(a <= b + 1e-9 for a, b in zip(ac, ac[1:])), f"{key} sorted by average cost", ac)
            c.check(before == snap(), f"{key} given reactions unchanged")
            if filt or inter:
                fakeray.reset(cpus=3.0)
                args["filter_interdependent"] = True
                fl = {frozenset(sm.key(sm.rvec(r)) for r in p.reactions) for p in ps.solve(net_rxn, **args)}
                pre = {ents[i].composition.reduced_formula for i, x in net.items() if x < 0}

                def form(r):
                    t = {}
                    for i, x in sm.rvec(r).items():
                        f = ents[i].composition.reduced_formula
                        t[f] = -1 if x < 0 else t.get(f, 1)
                    return t

                keep = {g for g, p in got.items() if sm.realizable([form(r) for r in p.reactions], pre)}
                c.check(fl == keep, f"{key} interdependent removed", lambda: f"kept wrongly {[str(got[g]) for g in fl - keep if g in got][:2]} removed wrongly {[str(got[g]) for g in keep - fl][:2]}")
                c.outcome(("filter", len(got), len(keep)))
            c.trace()
            c.state((tuple(sorted(sub)), n, k, inter, open_, scale))
            c.outcome((len(want), len(dep)))

    # compile the numba kernel once, before forking
    w = fresh()
    one(ctx, "warmup", (0, 1), 0, 2)
    del w
    N = 16  # the rest of the pool is for the near misses below
    items = []
    sizes = (2, 3, 4) if ctx.quick else (1, 2, 3, 4, 5)
    for s in sizes:
        for j, sub in list(enumerate(combinations(range(N), s)))[:: 3 if ctx.quick and s == 4 else 1]:
            if ctx.quick:
                ns = [j % 7] if s == 4 else [j % 7, (j // 7 + 3) % 7]
            else:
                ns = range(7) if s < 5 else [j % 7, (j + 3) % 7]
            for n in ns:
                items.append((f"sub {sub} net {n}", sub, n, 4 if s > 3 else 1 + (j + n) % 4, {"how": j % 3, "filt": j % 2 == 0, "scale": j % 4}))
    ds = range(0, N, 2) if ctx.quick else range(N)
    rest = [tuple(i for i in range(N) if i != d) for d in ds] + [tuple(range(N)), tuple(range(N - 1, -1, -1)), ()]
    for j, sub in enumerate(rest):
        for n in range(7):
            for k in ((1 + (j + n) % 3,) if ctx.quick else (1, 2, 3, 4)):
                items.append((f"big {sub} net {n} k {k}", sub, n, k, {"filt": n % 2 == 0, "how": n % 3, "scale": (j + n) % 4}))
    subs = [(0,), (5,), (13,), (1, 9), (0, 1), (2, 15), (1, 14), (5, 6), (3, 7), (4, 8), (10, 9, 11)]
    for j, (sub, n, inter) in enumerate(product(subs, range(7), ("b", "m", "bm", "n"))):
        if ctx.quick and (j + n) % 3:
            continue
        cut = (0.0, -0.05, 0.05)[(j // 3) % 3]
        k = 2 if inter != "m" else 3
        items.append((f"inter {sub} net {n} {inter} {cut}", sub, n, k, {"inter": inter, "cutoff": cut, "scale": j % 3}))
        o = ("O", (-0.4, 0.0, -1.0)[j % 3])
        items.append((f"open {sub} net {n} {inter} {cut} {o}", sub, n, k, {"inter": inter, "cutoff": cut, "open_": o, "only": None}))
    for j, (a, b) in enumerate(combinations(range(N), 2)):
        items.append((f"open {a, b} closed-world", (a, b, (a + b) % N), j % 7, 3, {"open_": ("O", -0.3), "filt": True}))
    # reactions and net reactions written with large or small coefficients (multiplicities from 1/60 to 60)
    for j, sub in enumerate([(0, 1), (0, 1, 2, 9), (3, 8, 13, 1), (9, 10), (11, 9, 4, 1), tuple(range(0, N, 2)), tuple(range(1, N, 2))]):
        for n, (rs, ns) in product(range(7), ((30, 1), (F(1, 30), 1), (F(30), 1), (1, 20), (1, F(1, 20)), (7, 3))):
            if ctx.quick and (j + n) % 2:
                continue
            items.append((f"scale {sub} net {n} {rs} {ns}", sub, n, 2 + (j + n) % 3, {"rs": rs, "ns": ns, "filt": j % 2 == 0, "how": n % 3}))
    near = [(1, 16), (1, 17), (1, 18), (14, 17, 18), (16, 17, 18, 1), (8, 10, 1, 17), (1, 16, 17), (18, 9, 1, 13)]
    items += [(f"near {sub} net {n} k {k}", sub, n, k, {"filt": k == 2, "how": k % 3}) for sub in near for n in (7, 8) for k in (2, 3)]
    items = items[::-1]

    def job(c, it):
        one(c, *it[:4], **it[4])
        c.sample(it[0])

    ctx.pmap(items, job)

    # a net reaction that conserves nothing has no pathways: refused
    ents = fresh()
    rx = [mk(ents, sm.POOL[i]) for i in (0, 1, 2, 9)]
    for n, (ids, co) in enumerate(sm.NETS):
        for j, f in product(range(len(ids)), (2, F(1, 2), 3)):
            key = f"unbalanced net {n} phase {j} x{f}"
            if not ctx.case(key):
                continue
            net = mk(ents, (ids, [float(x) * (float(f) if i == j else 1) for i, x in enumerate(co)]))
            for opts in ({}, {"find_intermediate_rxns": True, "intermediate_rxn_energy_cutoff": 0.0}):
                fakeray.reset(cpus=3.0)
                ps = PathwaySolver(PathwaySet.from_paths(paths_of(rx, 0)), GibbsEntrySet(ents.values()), cf)
                try:
                    out = ps.solve(net, max_num_combos=3, **opts)
                    ctx.violation(f"{key} accepted", f"{net}: {len(out.paths)} pathways")
                except ValueError:
                    pass
                ctx.trace()
            ctx.state(key)
