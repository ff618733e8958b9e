"""P28: cost functions and calculators against closed forms and the exact chemical potential model."""
import math
from itertools import combinations, permutations, product

import numpy as np

from vlib import cpd as cm
from vlib import enum_model as em
from vlib import hulls as hl
from vlib import uni

RULE = ("cost functions: every parameter list (all sub-lists and orders of attributes and data keys) x weights grid x temperatures x data values on a grid, missing parameters; "
        "chemical-potential distance: every balanced reaction with <=2 reactants and <=2 (thorough: 3) products of four pools x aggregation functions x closed/open diagrams against exact vertex "
        "enumeration; every calculator x decorate/decorate_many/calculate_many x names x initial data of the reaction")
ASSUMPTIONS = ["energies are within +-20 eV/atom", "distances are reported rounded to 5 digits"]


def softplus(x, t):
    return math.log1p((273 / t) * math.exp(x))


def run(ctx):
    from rxn_network.costs.calculators import (
        ChempotDistanceCalculator, PrimaryCompetitionCalculator, SecondaryCompetitionAreaCalculator, SecondaryCompetitionCalculator,
        SecondaryCompetitionMaxCalculator, SecondaryCompetitionWithEhullCalculator,
    )
    from rxn_network.costs.functions import Softplus, WeightedSum
    from rxn_network.reactions.computed import ComputedReaction
    from rxn_network.reactions.open import OpenComputedReaction
    from rxn_network.thermo.chempot_diagram import ChemicalPotentialDiagram
    from pymatgen.analysis.phase_diagram import GrandPotPDEntry
    from pymatgen.core import Element

    # ---------------- cost functions
    GRID = [-20.0, -3.1, -1.0, -0.25, -1e-3, 0.0, 1e-3, 0.25, 1.0, 3.1, 20.0]
    WEIGHTS = [0.0, 0.1, 0.45, 1.0, -0.5]
    TEMPS = [1, 300, 900, 2500.0]

    def base(e, data=None, mu=None):
        ents = [uni.ient("BaO", 0.0), uni.ient("TiO2", 0.0), uni.ient("BaTiO3", e)]
        if mu is not None:
            return OpenComputedReaction(ents, [-1, -1, 1], {Element("O"): mu}, data=data)
        return ComputedReaction(ents, [-1, -1, 1], data=data)

    def val(rxn, p, e, data, mu):
        if data and p in data:
            return data[p]
        open_shift = 0.0 if mu is None else -mu * 0  # oxygen is balanced between closed phases
        return {"energy_per_atom": None, "energy": e * 5 + open_shift, "num_atoms": 5}.get(p)

    def cost(c, item):
        params, data = item
        key = f"cost {params} {data}"
        if not c.case(key):
            return
        with c.guard(key):
            wl = list(product(WEIGHTS, repeat=len(params))) if len(params) < 3 else [(0.1, 0.45, 1.0), (1.0, -0.5, 0.0), (0.45, 0.45, 0.1)]
            for e in GRID if not data else GRID[::3]:
                for mu in (None, -1.0):
                    d0 = dict(data) if data is not None else None
                    r = base(e, d0, mu)
                    vals = []
                    for p in params:
                        if data and p in data:
                            vals.append(data[p])
                        elif p == "energy_per_atom":
                            vals.append(e * 5 / (5 if mu is None else 2))
                        elif p == "energy":
                            vals.append(e * 5)
                        else:
                            vals.append({"num_atoms": 5 if mu is None else 2}.get(p))
                    miss = any(v is None for v in vals)
                    for w in wl:
                        for t in TEMPS if data is None or len(params) == 1 else TEMPS[1:3]:
                            for kind in ("soft", "sum"):
                                if kind == "sum" and t != TEMPS[1]:
                                    continue
                                fn = Softplus(t, list(params), list(w)) if kind == "soft" else WeightedSum(list(params), list(w))
                                try:
                                    got = fn.evaluate(r)
                                except ValueError:
                                    c.check(miss, f"{key} {kind}: refuses only missing parameters", f"{e} {w} {t}")
                                    continue
                                if not c.check(not miss, f"{key} {kind}: missing parameter refused", lambda: got):
                                    continue
                                x = sum(a * b for a, b in zip(w, vals))
                                exp = x if kind == "sum" else softplus(x, t)
                                c.check(math.isfinite(got) and math.isclose(got, exp, rel_tol=1e-9, abs_tol=1e-12), f"{key} {kind} value", lambda: f"{e} {mu} {w} {t}: {got} vs {exp}")
                                c.check(r.data == (d0 or {}) or r.data is d0, f"{key} {kind}: data unchanged", lambda: r.data)
            c.trace()
            c.state(key)

    items = []
    names = ["energy_per_atom", "energy", "a", "b"]
    for k in (1, 2, 3):
        for ps in permutations(names, k):
            if ctx.quick and k == 3 and ps[0] != "energy_per_atom":
                continue
            for data in (None, {}, {"a": 0.3, "b": -1.25}, {"a": 0, "energy_per_atom": 0.7}, {"b": 2, "a": np.float64(0.5), "z": 1.0}, {"energy_per_atom": -0.0, "b": 0.0}):
                items.append((ps, data))
    ctx.pmap(items, cost)

    if ctx.case("softplus shape"):
        with ctx.guard("softplus shape"):
            for t in TEMPS:
                f = Softplus(t)
                got = [f.evaluate(base(e / 2)) for e in np.linspace(-30, 30, 241)]
                ctx.check(all(math.isfinite(x) and x > 0 for x in got), f"softplus positive and finite {t}")
                ctx.check(all(a < b for a, b in zip(got, got[1:])), f"softplus strictly increasing {t}")
            dflt = [Softplus(), WeightedSum()]
            for e in GRID:
                ctx.check(math.isclose(dflt[0].evaluate(base(e)), softplus(e, 300), rel_tol=1e-9, abs_tol=1e-12), "softplus defaults")
                ctx.check(math.isclose(dflt[1].evaluate(base(e)), e, abs_tol=1e-12), "weighted sum defaults")
            for t in (0, -1):
                try:
                    Softplus(t)
                    ok = False
                except ValueError:
                    ok = True
                ctx.check(ok, "non-positive temperature refused")

    # ---------------- chemical potential distance
    POOLS = {
        "YMnO": (em.SYSTEMS["YMnO"], ("Y", "Mn", "O2", "Y2O3", "MnO", "Mn2O3", "Mn2O3b", "Mn3O4", "YMnO3", "YMn2O5")),
        "YMnOm": ([(i, f, x if i != "YMnO3" else -2.9) for i, f, x in em.SYSTEMS["YMnO"]], ("Y", "Mn", "O2", "Y2O3", "MnO", "Mn2O3", "YMnO3", "YMn2O5")),
        "LiCO": (em.SYSTEMS["LiCO"], None),
        "grid": (em.SYSTEMS["grid"], None),
    }
    AGG = {"sum": sum, "max": max, "mean": lambda v: sum(v) / len(v)}

    def dist(c, item):
        pool, mode, pi = item
        spec, ids = POOLS[pool]
        ents = {i: uni.ient(f, x, i) for i, f, x in spec if ids is None or i in ids}
        mu = {Element("O"): -0.5}
        if mode == "open":
            ment = {i: GrandPotPDEntry(e, mu) for i, e in ents.items() if len(em.comp(e)) > 1 or "O" not in em.comp(e)}
        else:
            ment = ents
        R = cm.Ref(ment)
        if R.degen:
            c.cap(f"{pool} {mode}: phases without a full domain left out: {sorted(R.degen)}")
        cpd = ChemicalPotentialDiagram(list(ment.values()))
        cache = {}

        def pair(a, b):
            k = (a, b)
            if k not in cache:
                ea, eb = ment[a], ment[b]
                fa, fb = ea.composition.reduced_formula, eb.composition.reduced_formula
                cache[k] = R.dist(fa, fb) + R.offset(ea) + R.offset(eb)
            return cache[k]

        def ok(i):
            return i not in ment or ment[i].composition.reduced_formula not in R.degen

        use = [i for i in ents if ok(i)]
        sides = [s for k in (1, 2) for s in combinations(use, k)]
        tri = list(combinations(use, 3))
        psides = sides + tri
        for ri, rs in enumerate(sides):
            if ri % 8 != pi:
                continue
            for pj, ps in enumerate(psides):
                if c.quick and len(ps) == 3 and (pj + ri) % 4:
                    continue
                if {ents[i].composition.reduced_formula for i in rs} & {ents[i].composition.reduced_formula for i in ps}:
                    continue
                v = em.unique_reaction([em.comp(ents[i]) for i in rs], [em.comp(ents[i]) for i in ps])
                if v is None:
                    continue
                key = f"dist {pool} {mode} {'+'.join(rs)}->{'+'.join(ps)}"
                if not c.case(key):
                    continue
                with c.guard(key):
                    es = [ents[i] for i in (*rs, *ps)]
                    if mode == "open":
                        rxn = OpenComputedReaction.balance(es[: len(rs)], es[len(rs):], mu)
                        ra, pa = [i for i in rs if i in ment], [i for i in ps if i in ment]
                    else:
                        rxn = ComputedReaction.balance(es[: len(rs)], es[len(rs):])
                        ra, pa = list(rs), list(ps)
                    prs = [*product(ra, pa), *combinations(pa, 2)]
                    if not prs:
                        continue
                    vals = [pair(a, b) for a, b in prs]
                    for n, fn in AGG.items():
                        k = ChempotDistanceCalculator(cpd, n)
                        got = k.calculate(rxn)
                        exp = float(fn(vals))
                        c.check(abs(got - exp) < 2e-5, f"{key} {n}", lambda: f"{got} vs {exp} {dict(zip(prs, vals))}")
                    got = ChempotDistanceCalculator(cpd, min, name="mn").calculate(rxn)
                    c.check(abs(got - min(vals)) < 2e-5, f"{key} own function", lambda: f"{got} vs {min(vals)}")
                    if pj % 3 == 0:
                        cs = np.array([float(x) for x in rxn.coefficients])
                        for f in (0.01, 40.0):  # however many formula units react
                            r2 = OpenComputedReaction(list(rxn.entries), cs * f, mu) if mode == "open" else ComputedReaction(list(rxn.entries), cs * f)
                            got = ChempotDistanceCalculator(cpd, "sum").calculate(r2)
                            c.check(abs(got - sum(vals)) < 2e-5, f"{key} scaled by {f}", lambda: f"{got} vs {sum(vals)}")
                    dec = ChempotDistanceCalculator(cpd, name="q").decorate(rxn)
                    c.check(abs(dec.data["q"] - sum(vals)) < 2e-5 and "q" not in rxn.data and dec is not rxn and dec == rxn, f"{key} decorate", lambda: f"{dec.data} {rxn.data}")
                    c.trace()
                    c.state(key)
                    c.outcome((len(rs), len(ps), round(sum(vals), 2)))
                    c.sample({"reaction": str(rxn), "diagram": mode, "sum": round(sum(vals), 4)})

    ctx.pmap([(p, m, i) for i in range(8) for p in POOLS for m in ("closed", "open")], dist)

    if ctx.case("unknown aggregation"):
        d0 = ChemicalPotentialDiagram([uni.ient(f, x, f) for f, x in (("Li", 0.0), ("O2", 0.0), ("Li2O", -2.0))])
        for nm in ("median", "Sum", ""):
            try:
                ChempotDistanceCalculator(d0, nm)
                ctx.violation(f"unknown aggregation {nm!r} accepted")
            except ValueError:
                ctx.step()
        ctx.state("unknown aggregation")

    # ---------------- decorating
    B = hl.Build()
    XS = [hl.F(1, 4), hl.F(1, 2), hl.F(3, 5), hl.F(3, 4)]

    def deco(c, ys):
        key = f"decorate {ys}"
        if not c.case(key):
            return
        with c.guard(key):
            irh, rx = B.hull([(x, y) for x, y in zip(XS, ys)])
            for K, direct in ((PrimaryCompetitionCalculator, lambda r: irh.get_primary_competition(r)), (SecondaryCompetitionCalculator, lambda r: irh.get_secondary_competition(r)),
                              (SecondaryCompetitionWithEhullCalculator, lambda r: irh.get_secondary_competition(r, include_e_hull=True)),
                              (SecondaryCompetitionMaxCalculator, lambda r: irh.get_secondary_competition_max_energy(r)),
                              (SecondaryCompetitionAreaCalculator, None)):
                for nm in (None, "x"):
                    k = K(irh) if nm is None else K(irh, name=nm)
                    name = nm or {"PrimaryCompetitionCalculator": "primary_competition", "SecondaryCompetitionCalculator": "secondary_competition",
                                  "SecondaryCompetitionWithEhullCalculator": "secondary_competition_with_ehull", "SecondaryCompetitionMaxCalculator": "secondary_competition_max",
                                  "SecondaryCompetitionAreaCalculator": "secondary_competition_area"}[K.__name__]
                    for init in (None, {}, {"old": [1, 2]}, {name: 17.0, "o": {"p": 1}}):
                        rs = [r.__class__(r.entries, r.coefficients, data=None if init is None else {a: b for a, b in init.items()}) for r in rx]
                        try:
                            vals = [k.calculate(r) for r in rs]
                        except Exception:  # noqa: BLE001  areas of flat sequences
                            if direct is None:
                                continue
                            raise
                        if direct is not None:
                            c.check(all(abs(v - direct(r)) < 1e-9 for v, r in zip(vals, rs)), f"{key} {K.__name__} value")
                        before = [dict(r.data) if r.data else r.data for r in rs]
                        one = [k.decorate(r) for r in rs]
                        many = k.decorate_many(rs)
                        cm_ = k.calculate_many(rs)
                        c.check(len(many) == len(rs) and all(np.isclose(a, b) for a, b in zip(cm_, vals)), f"{key} {K.__name__} calculate_many")
                        for r, o, m, v, b in zip(rs, one, many, vals, before):
                            exp = {**(init or {}), name: v}
                            for d in (o, m):
                                c.check(d is not r and d == r and set(d.data) == set(exp) and np.isclose(d.data[name], v)
                                        and all(d.data[x] == exp[x] for x in exp if x != name), f"{key} {K.__name__} decorated data", lambda: f"{d.data} vs {exp}")
                                c.check(d.data is not r.data and all(d.data[x] is not r.data[x] for x in (init or {}) if isinstance(exp[x], (list, dict))), f"{key} {K.__name__} copy")
                            c.check((dict(r.data) if r.data else r.data) == b, f"{key} {K.__name__} original unchanged", lambda: f"{r.data} vs {b}")
            c.trace()
            c.state(key)

    vals = (-3, -1) if ctx.quick else (-4, -3, -1, 0)
    ctx.pmap([v for v in product(vals, repeat=len(XS)) if any(v)], deco)
