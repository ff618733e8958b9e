"""P27: chemical potential diagrams against exact vertex enumeration; query histories."""
from itertools import combinations, product

import numpy as np

from vlib import enum_model as em
from vlib import uni
from vlib.cpd import Ref, full_dim, min_dist, model, same_points

RULE = ("every subset (bounded) of the non-elemental phases of eight pools (2, 3 and 4 elements, polymorphs, supercells, exactly degenerate phases, unstable phases, shifted elemental references) x limits: "
        "the vertices of every stability domain by exact enumeration of all hyperplane intersections, distances of all pairs, offsets of all entries, metastable domains; "
        "every query history up to depth 2 (quick) or 3 (thorough) against a fresh diagram")
ASSUMPTIONS = ["domains are represented by their vertices, and distances are between vertices, as documented (KDTree on boundary points)",
               "phases exactly on the hull without a full-dimensional domain may be reported either way"]

POOLS = {
    "YMnO": em.SYSTEMS["YMnO"],
    "LiCO": em.SYSTEMS["LiCO"],
    "grid": em.SYSTEMS["grid"],
    "LiO": [("Li", "Li", 0.0), ("Lib", "Li2", 0.03), ("O2", "O2", 0.0), ("Li2O", "Li2O", -2.03), ("Li2O2", "Li4O4", -1.62),
            ("Li2O2b", "Li2O2", -1.45), ("LiO2", "LiO2", -0.9), ("Li3O", "Li3O", 0.4)],
    # exactly on tie lines / tie planes
    "tie": [("A", "Na", 0.0), ("B", "Cl2", 0.0), ("C", "O2", 0.0), ("AB", "NaCl", -2.0), ("A2B", "Na2Cl", -1.3333333333333333), ("A3B", "Na3Cl", -1.0),
            ("AC", "NaO", -1.0), ("ABC", "Na2ClO", -1.5), ("BC", "ClO", 0.0)],
    # raw (unshifted) energies
    "raw": [("Y", "Y", -6.4), ("Mn", "Mn", -9.1), ("O2", "O2", -4.9), ("Y2O3", "Y2O3", -9.31), ("Mn2O3", "Mn4O6", -8.53), ("MnO", "MnO", -8.93),
            ("YMnO3", "YMnO3", -9.09), ("YMn2O5", "YMn2O5", -8.4), ("MnO2", "MnO2", -7.9)],
    "many": [("Fe", "Fe", 0.0), ("O2", "O2", 0.0), ("FeO", "FeO", -1.4), ("Fe3O4", "Fe3O4", -1.66), ("Fe2O3", "Fe2O3", -1.7), ("FeO2", "FeO2", -1.1), ("Fe2O", "Fe2O", -0.7)],
    "exch": em.SYSTEMS["exch"],
}


def run(ctx):
    from pymatgen.core import Element

    from rxn_network.entries.entry_set import GibbsEntrySet
    from rxn_network.thermo.chempot_diagram import ChemicalPotentialDiagram as CPD

    def one(c, item):
        pool, ids, lims = item
        key = f"{pool} {'+'.join(ids)}" + (f" limits {lims}" if lims else "")
        if not c.case(key):
            return
        with c.guard(key):
            ents = {i: uni.ient(f, x, i) for i, f, x in POOLS[pool] if i in ids}
            R = Ref(ents, lims)
            best, pl, dom = R.best, R.pl, R.dom
            full, degen, off, n = R.full, R.degen, R.off, len(R.el)
            arg = {Element(k): v for k, v in lims.items()} if lims else None
            es_list = list(ents.values())
            cpd = CPD(es_list, limits=arg)
            d = cpd.domains
            c.check(full <= set(d) <= full | degen, f"{key}: phases with a domain", lambda: f"{sorted(d)} vs {sorted(full)} (+{sorted(degen)})")
            for f in set(d) & full:
                ref = [[float(x) for x in v] for v in dom[f]]
                c.check(same_points(d[f], ref), f"{key}: domain of {f}", lambda: f"{d[f].tolist()} vs {ref}")
            for f in set(d) & degen:
                A = np.array([[float(x) for x in a] for a, _ in pl.values()])
                B = np.array([float(b) for _, b in pl.values()])
                c.check(bool((d[f] @ A.T - B < 1e-6).all()), f"{key}: domain of {f} feasible")
            # offsets
            for i, e in ents.items():
                f = e.composition.reduced_formula
                if lims:
                    break
                exp = R.offset(e)
                got = cpd.get_offset(e)
                c.check(abs(got - exp) < 1e-6, f"{key}: offset of {i}", lambda: f"{got} vs {exp}")
            # distances between stable phases
            fs = sorted(full & set(d))
            for a, b in combinations(fs, 2):
                exp = R.dist(a, b)
                g1, g2, g3 = cpd.shortest_domain_distance(a, b), cpd.shortest_domain_distance(b, a), cpd.shortest_domain_distance(a, b, offset=0.25)
                c.check(abs(g1 - exp) < 1e-6 and abs(g2 - exp) < 1e-6 and abs(g3 - exp - 0.25) < 1e-6, f"{key}: distance {a} {b}", lambda: f"{g1} {g2} {g3} vs {exp}")
                c.check((g1 < 1e-6) == bool(set(dom[a]) & set(dom[b])), f"{key}: zero distance iff coexisting {a} {b}")
            # metastable phases
            if not lims:
                md = cpd.metastable_domains
                c.check(set(md) == set(best) - set(d), f"{key}: phases with a metastable domain", lambda: f"{sorted(md)} vs {sorted(off | degen)}")
                for f, pts in md.items():
                    a, b = pl[f]
                    hull = R.hull(f)
                    if f in off:
                        c.check(same_points(pts, R.pts(f)), f"{key}: metastable domain of {f}", lambda: f"{pts.tolist()} vs {R.pts(f).tolist()}")
                    else:
                        A = np.array([[float(x) for x in p] for g, (p, _) in pl.items() if g != f])
                        B = np.array([float(q) for g, (_, q) in pl.items() if g != f])
                        c.check(bool((pts @ A.T - B < 1e-6).all()) and len(pts) >= n, f"{key}: metastable domain of {f} feasible", lambda: pts.tolist())
                        pr = pts @ np.array([float(x) for x in a]) - float(hull)
                        c.check(bool((pr < 1e-6).all() and (pr > -0.0101).all()), f"{key}: metastable domain of {f} at the hull", lambda: pr.tolist())
                for f in md:
                    g = fs[0]
                    d1, d2 = cpd.shortest_domain_distance(f, g), cpd.shortest_domain_distance(g, f)
                    exp = min_dist(md[f], d[g])
                    c.check(abs(d1 - d2) < 1e-7 and abs(d1 - exp) < 1e-6, f"{key}: metastable distance {f} {g}", lambda: f"{d1} {d2} {exp}")
                cpd2 = CPD(es_list[::-1])
                c.check(set(cpd2.domains) == set(d) and all(same_points(cpd2.domains[f], d[f]) for f in full), f"{key}: entry order")
            # nothing changed
            c.check(set(cpd.domains) == set(d) and len(es_list) == len(ents) and all(x is y for x, y in zip(es_list, ents.values())), f"{key}: unchanged")
            c.trace()
            c.state(key)
            c.outcome((len(full), len(degen), len(off)))
            c.sample({"entries": key, "domains": {f: len(v) for f, v in dom.items()}})

    items = []
    for pool, pe in POOLS.items():
        els = [i for i, f, _ in pe if len(em.comp(uni.ient(f, 0))) == 1 and i != "Lib"]
        rest = [i for i, _, _ in pe if i not in els]
        for k in range(len(rest) + 1):
            if pool == "exch" and (k > 2 and k < len(rest)) or (ctx.quick and pool == "exch" and k in (1, 2)):
                continue
            if ctx.quick and pool in ("YMnO", "grid") and 4 <= k <= len(rest) - 2:
                continue
            for sub in combinations(rest, k):
                items.append((pool, (*els, *sub), None))
                if k in (2, len(rest)) and pool != "exch":
                    e0 = em.comp(uni.ient(next(f for i, f, _ in pe if i == els[-1]), 0))
                    e1 = em.comp(uni.ient(next(f for i, f, _ in pe if i == els[0]), 0))
                    items.append((pool, (*els, *sub), {next(iter(e0)): (-12.5, 0)}))
                    if pool != "raw":
                        items.append((pool, (*els, *sub), {next(iter(e0)): (-9, 0), next(iter(e1)): (-40, 0)}))
    ctx.pmap(items, one)

    # query histories
    CASES = [("LiCO", None), ("LiO", None), ("tie", ("A", "B", "C", "AB", "A2B", "A3B", "AC")), ("tie", None), ("YMnO", ("Y", "Mn", "O2", "Y2O3", "MnO", "Mn2O3", "Mn2O3b", "MnO2", "YMnO3")), ("grid", None)]

    def ans(op, cpd, ents):
        k, *a = op
        if k == "dist":
            return round(float(cpd.shortest_domain_distance(*a)), 7)
        if k == "offset":
            return round(float(cpd.get_offset(ents[a[0]])), 7)
        d = cpd.metastable_domains if k == "meta" else cpd.domains
        return {f: sorted(map(tuple, np.round(np.asarray(v), 6) + 0.0)) for f, v in d.items()}

    def eq(a, b):
        if isinstance(a, dict):
            return isinstance(b, dict) and set(a) == set(b) and all(same_points(a[f], b[f], 1e-5) for f in a)
        return abs(a - b) < 1e-5

    def hist(c, item):
        ci, first = item
        pool, ids = CASES[ci]
        ents = {i: uni.ient(f, x, i) for i, f, x in POOLS[pool] if ids is None or i in ids}
        _, best, _, dom, _ = model(ents)
        n = len({x for e in ents.values() for x in em.comp(e)})
        full = [f for f, v in dom.items() if full_dim(v, n)]
        rest = [f for f in dom if f not in full]
        comp = [f for f in full if len(em.comp(ents[best[f]])) > 1]
        ops = [("domains",), ("meta",)]
        for f in rest[:3]:
            ops += [("dist", f, comp[0]), ("offset", best[f])]
        if len(rest) > 1:
            ops.append(("dist", rest[0], rest[1]))
        ops += [("dist", comp[0], comp[-1]), ("offset", best[comp[0]])]
        poly = [i for i, e in ents.items() if best[e.composition.reduced_formula] != i]
        ops += [("offset", i) for i in poly[:1]]
        if first >= len(ops):
            return
        fresh = {}
        for op in ops:
            with c.guard(f"hist {pool} {ci} fresh {' '.join(op)}"):
                fresh[op] = ans(op, CPD(list(ents.values())), ents)
        ops = [op for op in ops if op in fresh]
        if first >= len(ops):
            return
        for dep in range(0, 2 if c.quick else 3):
            for tail in product(ops, repeat=dep):
                seq = (ops[first], *tail)
                key = f"hist {pool} {ci} {' ; '.join(' '.join(o) for o in seq)}"
                if not c.case(key):
                    continue
                with c.guard(key):
                    es = GibbsEntrySet(ents.values())
                    cpd = CPD(es)
                    for op in seq:
                        got = ans(op, cpd, ents)
                        c.check(eq(got, fresh[op]), f"{key}: answer of {' '.join(op)}", lambda: f"{got} vs {fresh[op]}")
                    for op in ops[:2]:
                        got = ans(op, cpd, ents)
                        c.check(eq(got, fresh[op]), f"{key}: final {op[0]}", lambda: f"{got} vs {fresh[op]}")
                    c.check({id(e) for e in es} == {id(e) for e in ents.values()}, f"{key}: entry set unchanged")
                    c.check(all(abs(e.energy_per_atom - x) < 1e-12 for i, f, x in POOLS[pool] if (e := ents.get(i)) is not None), f"{key}: energies unchanged")
                    c.trace()
                    c.state(key)

    ctx.pmap([(i, k) for i in range(len(CASES)) for k in range(16)], hist)

    # a diagram needs at least two elements, each with its terminal phase
    if ctx.case("refused"):
        for fs in (("Li",), ("Li", "Li2"), ("Li", "Li2O"), ("O2", "Li2O", "Li2O2"), ("Li2O",), ("Li", "O2", "YMnO3"), ("Y", "Mn", "YMnO3")):
            try:
                CPD([uni.ient(f, -1.0 if len(em.comp(uni.ient(f, 0))) > 1 else 0.0, f) for f in fs])
                ctx.violation(f"diagram of {fs} accepted")
            except ValueError:
                ctx.step()
        ctx.state("refused")
