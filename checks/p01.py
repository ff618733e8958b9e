"""P01 balancing vs exact rational null space, every reactant/product combination of a pool."""
from fractions import Fraction as F
from itertools import combinations, permutations

import numpy as np

from vlib import exact, uni

RULE = ("every ordered pair of disjoint reactant/product sets (sizes up to the bound) drawn from each "
        "composition pool, through BasicReaction.balance / from_formulas / ComputedReaction.balance / "
        "OpenComputedReaction.balance; oracle: exact rational null space; a state is a distinct (pool, R, P) problem, "
        "non-trivial ones have a null space of dimension >= 1")
ASSUMPTIONS = ["stoichiometries are those of the pools (small integers, a few fractional, one large ratio)"]

POOLS = {
    "LiCO": ["Li", "O2", "C", "Li2O", "Li2O2", "CO", "CO2", "Li2CO3", "Li2C2O4"],
    "YMnO": ["Y2O3", "Mn2O3", "Mn3O4", "MnO", "MnO2", "YMnO3", "YMn2O5", "Y2Mn2O7", "O2"],
    "exch": ["YCl3", "LiMnO2", "LiCl", "YMnO3", "Li2O", "Y2O3", "YOCl", "MnO", "O2", "Cl2"],
    "scale": ["Fe4O6", "Fe2O3", "Li0.5O0.25", "Li2O", "LiFe5O8", "LiFeO2", "Li10Fe2O8", "H2O", "LiOH", "FeHO2"],
    "near": ["MnO2", "MnO1.996", "O2", "MnO1.99", "LiMnO2", "Li0.998MnO2", "Li", "Li2O"],  # phases that almost balance each other
    "conv": ["Ba", "Ti", "BaTiO3", "Ba2TiO4", "TiO2", "BaO", "Ti3O5", "BaTi2O5"],
}


FORM = {}
TAG = {"tag": 7}  # the same dictionary is handed to every balancing call


def expected(rows, nr, np_):
    n = nr + np_
    ns = exact.nullspace(rows, n)
    d = len(ns)
    if d == 0:
        return d, None, None
    if d == 1:
        v = ns[0]
        best = n + 1
        for s in (1, -1):
            err = sum(1 for i in range(n) if (v[i] * s * (-1 if i < nr else 1)) <= 0)
            if err < n:
                best = min(best, err)
        return d, v, best
    return d, None, None


def check_one(ctx, key, R, P, how):
    from pymatgen.core.periodic_table import Element
    from rxn_network.core import Composition
    from rxn_network.reactions.basic import BasicReaction
    from rxn_network.reactions.computed import ComputedReaction
    from rxn_network.reactions.open import OpenComputedReaction

    if how in ("basic", "formulas"):
        rc, pc = [Composition(x) for x in R], [Composition(x) for x in P]
        rxn = BasicReaction.balance(rc, pc, data=TAG) if how == "basic" else BasicReaction.from_formulas(list(R), list(P))
        comps = rc + pc
    else:
        re_ = [uni.ient(x, -1.0 - 0.01 * i) for i, x in enumerate(R)]
        pe = [uni.ient(x, -1.5 - 0.01 * i) for i, x in enumerate(P)]
        if how == "computed":
            rxn = ComputedReaction.balance(re_, pe, data=TAG)
        else:
            rxn = OpenComputedReaction.balance(re_, pe, {Element("O"): -1.0}, data=TAG)
        comps = [e.composition.reduced_composition for e in re_ + pe]
    if how != "formulas":
        ctx.check(TAG == {"tag": 7} and rxn.data.get("tag") == 7, f"{how} {key} data carried over, caller's dictionary unchanged", lambda: f"{TAG} {rxn.data}")
        TAG.clear()
        TAG["tag"] = 7
    rows = exact.comp_rows(comps)
    n = len(comps)
    d, v, errs = expected(rows, len(R), len(P))
    co = np.array(rxn.coefficients, dtype=float)
    ctx.outcome((d, errs, bool(rxn.balanced), float(rxn.lowest_num_errors)))
    ctx.check(co.shape == (n,), f"{how} {key} shape", f"{co}")
    ctx.check([c.reduced_formula for c in rxn.compositions] == [c.reduced_formula for c in comps],
              f"{how} {key} composition order", f"{rxn.compositions}")
    m = np.array([[float(x) for x in r] for r in rows])
    resid = np.abs(m @ co).max()
    ctx.check(resid < 1e-6 * max(1, np.abs(co).max()), f"{how} {key} returned coefficients conserve every element",
              lambda: f"{rxn} residual {resid}")
    ctx.check(rxn.data.get("num_constraints") == (d if d >= 2 else 1), f"{how} {key} num_constraints",
              lambda: f"{rxn.data} expected nullity {d}")
    sign = np.array([-1.0] * len(R) + [1.0] * len(P))
    if d == 0:
        ctx.check(rxn.lowest_num_errors == np.inf, f"{how} {key} unbalanceable reported",
                  lambda: f"errors={rxn.lowest_num_errors}")
        ctx.check(np.allclose(co, 0), f"{how} {key} unbalanceable has no coefficients", f"{co}")
        if how in ("basic", "formulas"):
            ctx.check(rxn.balanced is False, f"{how} {key} unbalanceable not balanced")
        return
    if d == 1:
        ctx.check(rxn.lowest_num_errors == errs, f"{how} {key} lowest_num_errors",
                  lambda: f"{rxn}: {rxn.lowest_num_errors} expected {errs}")
        vf = np.array([float(x) for x in v])
        i = int(np.argmax(np.abs(vf)))
        ctx.check(abs(co[i]) > 1e-9 and np.allclose(co / co[i], vf / vf[i], atol=1e-6),
                  f"{how} {key} coefficients are the unique solution", lambda: f"{co} vs {vf}")
        if errs == 0:
            ctx.check(bool(rxn.balanced) and (co * sign > 0).all(), f"{how} {key} all phases on their given side",
                      lambda: f"{co}")
    else:
        feas = exact.feasible_signed(rows, len(R), len(P))
        if rxn.lowest_num_errors == 0:
            ctx.check(feas and (co * sign > 0).all() and bool(rxn.balanced),
                      f"{how} {key} zero errors means all phases keep their side", lambda: f"{co} feasible={feas}")
        else:
            bad = int(((co * sign) < 1e-6).sum())
            if np.isfinite(rxn.lowest_num_errors):
                ctx.check(bad == rxn.lowest_num_errors, f"{how} {key} error count matches coefficients",
                          lambda: f"{co} errors={rxn.lowest_num_errors}")
    if np.isfinite(rxn.lowest_num_errors):
        ctx.check(bool(rxn.balanced), f"{how} {key} conserved result flagged balanced", f"{rxn}")


def run(ctx):
    from rxn_network.core import Composition

    FORM.update({x: Composition(x).reduced_formula for p in POOLS.values() for x in p})
    jobs = []
    for name, pool in POOLS.items():
        mx = (3, 2) if not ctx.quick else (2, 2)
        sets_r = [c for k in range(1, mx[0] + 1) for c in combinations(pool, k)]
        sets_p = [c for k in range(1, mx[1] + 1) for c in combinations(pool, k)]
        jobs += [(name, R, sets_p) for R in sets_r]
        if ctx.quick:  # a slice of the 3 -> 1..3 space as well
            sub = pool[:6]
            s3 = list(combinations(sub, 3))
            s123 = [c for k in (1, 2, 3) for c in combinations(sub, k)]
            jobs += [(name, R, s123) for R in s3]
        else:
            jobs += [(name, R, list(combinations(pool, 3))) for R in combinations(pool, 3)]

    # many independent balances: every set of up to five metals oxidised or carbonated, from metals or oxides
    many = []
    for k in range(2, 6 if ctx.quick else 7):
        for ms in combinations(("Mg", "Ca", "Sr", "Ba", "Zn", "Be")[: 5 if ctx.quick else 6], k):
            ox, ca = [f"{m}O" for m in ms], [f"{m}CO3" for m in ms]
            many += [([*ms, "O2"], ox), (ox, [*ms, "O2"]), ([*ox, "CO2"], ca), (ca, [*ox, "CO2"]), ([*ms, "C", "O2"], ca), ([*ms, "CO2"], [*ox, "C"])]
            if k < 5:
                many += [([*ms, *ox[:1], "CO2", "O2"], ca), ([*ms, "O2"], [*ox, *[f"{m}O2" for m in ms]])]
    jobs += [("many", tuple(R), [tuple(P)]) for R, P in many]
    FORM.update({x: Composition(x).reduced_formula for R, P in many for x in (*R, *P)})

    def one(c, job):
        name, R, Ps = job
        for P in Ps:
            key = f"{name}:{'+'.join(R)}->{'+'.join(P)}"
            if not c.case(key):
                continue
            if len({FORM[x] for x in (*R, *P)}) < len(R) + len(P):
                continue  # one phase twice is outside the property
            ov = False
            c.state(key)
            c.trace()
            hows = ["basic", "computed"]
            if len(R) + len(P) <= 3 and not ov:
                hows += ["formulas", "open"]
            for how in hows:
                with c.guard(f"{how} {key}"):
                    check_one(c, key, R, P, how)
            # order independence of the verdict (reactants / products listed the other way round)
            if len(R) == 2 and len(P) == 2 and not ov:
                for how in ("basic",):
                    with c.guard(f"{how} {key} reordered"):
                        check_one(c, key + " reordered", R[::-1], P[::-1], how)
            if "->" in key and len(R) == 2 and len(P) == 1:
                c.sample(key)

    ctx.pmap(jobs, one)

    # reactions written down by hand: flagged balanced exactly when they are
    from rxn_network.reactions.basic import BasicReaction
    from rxn_network.reactions.computed import ComputedReaction

    def hand(c, job):
        fs, co = job
        key = f"by hand {co} {fs}"
        if not c.case(key):
            return
        comps = [Composition(f) for f in fs]
        with c.guard(key):
            for how in ("basic", "computed"):
                def mk(cs):
                    return BasicReaction(comps, cs) if how == "basic" else ComputedReaction([uni.ient(f, -1.0 - i) for i, f in enumerate(fs)], cs)  # noqa: B023
                for sc in (1, 0.5, 3, -1):
                    base = [float(x) * sc for x in co]
                    c.check(mk(base).balanced is True, f"{how} {key} x{sc} balanced")
                    for i in range(len(fs)):
                        for rel, want in ((1e-10, True), (-1e-10, True), (1e-5, False), (-1e-4, False), (1e-3, False), (-4e-3, False), (0.25, False)):
                            cs = list(base)
                            cs[i] *= 1 + rel
                            r = mk(np.array(cs) if i % 2 else cs)
                            c.check(r.balanced is want, f"{how} {key} x{sc} phase {i} off by {rel}", lambda: f"{r.balanced} {cs}")  # noqa: B023
                            c.step()
            c.trace()
            c.state(key)

    HAND = [(("MnO", "O2", "Mn2O3"), (-4, -1, 2)), (("Y2O3", "Mn2O3", "YMnO3"), (-1, -1, 2)), (("Li2CO3", "Mn2O3", "LiMnO2", "CO2"), (-1, -1, 2, 1)),
            (("YCl3", "LiMnO2", "YMnO3", "LiCl", "O2", "Li2O"), (-2, -2, 2, 2, -4, 0)), (("MnO", "MnO2", "Mn2O3"), (-1, -1, 1)), (("BaO", "TiO2", "BaTiO3"), (-1, -1, 1))]
    HAND = [h for h in HAND if 0 not in h[1]]
    ctx.pmap(HAND, hand)
