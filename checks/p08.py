"""P08: queries by reactants / product over every small set of reactions."""
from itertools import combinations

import numpy as np

from vlib import uni

RULE = ("every subset (bounded) of a reaction pool covering every entry position (first, last), polymorphs on both sides, "
        "sizes 2-4 and reversed reactions; every product formula and every reactant-formula subset, as list and as "
        "ReactionSet, incl. unknown formulas and unreduced spellings; oracle: direct filtering of the listed reactions")


def pool():
    from rxn_network.reactions.computed import ComputedReaction

    e = {k: uni.ient(f, x, k) for k, f, x in [
        ("MnO", "MnO", -1.9), ("O2", "O2", 0.0), ("Mn2O3", "Mn2O3", -1.95), ("Mn2O3b", "Mn4O6", -1.90),
        ("Mn2O3c", "Mn2O3", -1.80), ("Y2O3", "Y2O3", -3.8), ("YMnO3", "YMnO3", -2.95), ("MnO2", "MnO2", -1.75)]}
    R = lambda es, cs, t: ComputedReaction([e[x] for x in es], np.array(cs, float), data={"t": t})  # noqa: E731
    rx = [
        R(["MnO", "O2", "Mn2O3"], [-2, -0.5, 1], 0),
        R(["MnO", "O2", "Mn2O3b"], [-2, -0.5, 1], 1),
        R(["Mn2O3c", "MnO", "O2"], [-1, 2, 0.5], 2),
        R(["Y2O3", "Mn2O3b", "YMnO3"], [-1, -1, 2], 3),
        R(["YMnO3", "Y2O3", "Mn2O3"], [-2, 1, 1], 4),
        R(["Mn2O3", "Mn2O3c"], [-1, 1], 5),
        R(["MnO", "MnO2", "Mn2O3c"], [-1, -1, 1], 6),
        R(["Y2O3", "MnO", "O2", "YMnO3"], [-1, -2, -0.5, 2], 7),
        R(["O2", "MnO", "MnO2"], [-0.5, -1, 1], 8),
        R(["YMnO3", "O2", "Y2O3", "MnO2"], [-2, -0.5, 1, 2], 9),
    ]
    return list(e.values()), rx


def run(ctx):
    from rxn_network.core import Composition
    from rxn_network.reactions.reaction_set import ReactionSet

    ents, rx = pool()
    forms = sorted({e.composition.reduced_formula for e in ents})
    sizes = (1, 2, len(rx)) if ctx.quick else (1, 2, 3, 4, len(rx))
    subs = [s for k in sizes for s in combinations(range(len(rx)), k)] + [()]
    rq = [q for k in (1, 2, 3) for q in combinations(forms, k)] + [tuple(forms)]

    def rf(r):
        return {c.reduced_formula for c in r.reactants}

    def pf(r):
        return {c.reduced_formula for c in r.products}

    def tags(it):
        return [r.data["t"] for r in it]

    def one(c, s):
        if not c.case(f"subset {s}"):
            return
        rs_in = [rx[i] for i in s]
        for variant in ("all", "used", "open"):
            with c.guard(f"{variant} {s}"):
                if variant == "used":
                    if not s:
                        continue
                    rs = ReactionSet.from_rxns(rs_in)
                elif variant == "all":
                    rs = ReactionSet.from_rxns(rs_in, entries=ents)
                else:
                    if len(s) > 2 and len(s) != len(rx):
                        continue
                    rs = ReactionSet.from_rxns(rs_in, entries=ents, open_elem="O", chempot=-1.0)
                c.state((variant, s))
                for f in [*forms, "Mn4O6", "O1", "Fe2O3", "Y4O6"]:
                    red = Composition(f).reduced_formula
                    want = sorted(r.data["t"] for r in rs_in if red in pf(r))
                    for as_set in (False, True):
                        k = f"{variant} {s} product {f} as_set={as_set}"
                        with c.guard(k):
                            got = rs.get_rxns_by_product(f, return_set=as_set)
                            if as_set:
                                c.check(isinstance(got, ReactionSet), f"{k} is a ReactionSet", lambda: type(got).__name__)
                                c.check(len(got) == len(want), f"{k} length")
                            got = list(got)
                            c.trace()
                            c.outcome(("p", len(want), bool(got)))
                            c.check(sorted(tags(got)) == want, k, lambda: f"{tags(got)} want {want}")
                            for r in got:
                                c.check((type(r).__name__ == "OpenComputedReaction") == (variant == "open"), f"{k} class")
                qs = rq if len(s) != 2 or not c.quick else rq[::3]
                for q in [*qs, ("Fe2O3",), ("Fe2O3", "MnO", "O2"), ("Mn4O6", "Y4O6")]:
                    red = {Composition(f).reduced_formula for f in q}
                    want = sorted(r.data["t"] for r in rs_in if rf(r) <= red)
                    for as_set in (False, True):
                        k = f"{variant} {s} reactants {q} as_set={as_set}"
                        with c.guard(k):
                            got = rs.get_rxns_by_reactants(list(q), return_set=as_set)
                            if as_set:
                                c.check(isinstance(got, ReactionSet), f"{k} is a ReactionSet", lambda: type(got).__name__)
                            got = list(got)
                            c.trace()
                            c.outcome(("r", len(want), bool(got)))
                            c.check(sorted(tags(got)) == want, k, lambda: f"{tags(got)} want {want}")
                # queries do not disturb the set
                c.check(sorted(tags(rs.get_rxns())) == sorted(r.data["t"] for r in rs_in), f"{variant} {s} set intact")
        if len(s) == 2:
            c.sample(f"subset {s}")

    ctx.pmap(subs, one)

    # a set of thousands of reactions answers like one of ten
    from rxn_network.reactions.computed import ComputedReaction

    def large(c, n):
        if not c.case(f"large {n}"):
            return
        with c.guard(f"large {n}"):
            many = [ComputedReaction(r.entries, np.array(r.coefficients, float), data={"t": 10 * k + i}) for k in range(n) for i, r in enumerate(rx)]
            rs = ReactionSet.from_rxns(many, entries=ents)
            c.state(n)
            c.check(sorted(tags(rs.get_rxns())) == list(range(10 * n)), f"large {n} all listed")
            for f in forms:
                want = sorted(r.data["t"] for r in many if f in pf(r))
                for as_set in (False, True):
                    got = sorted(tags(rs.get_rxns_by_product(f, return_set=as_set)))
                    c.check(got == want, f"large {n} product {f} as_set={as_set}", lambda: f"{len(got)} of {len(want)}")
            for q in rq[::7]:
                want = sorted(r.data["t"] for r in many if rf(r) <= set(q))
                for as_set in (False, True):
                    got = sorted(tags(rs.get_rxns_by_reactants(list(q), return_set=as_set)))
                    c.check(got == want, f"large {n} reactants {q} as_set={as_set}", lambda: f"{len(got)} of {len(want)}")
                    c.trace()

    ctx.pmap((30, 110, 300) if ctx.quick else (30, 110, 300, 1500), large)
