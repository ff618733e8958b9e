"""P04: equality, hashing and identity of reactions over every small coefficient assignment."""
from itertools import combinations, permutations, product

import numpy as np

from vlib import uni

RULE = ("all reactions over 2-4 phases with signed coefficients from a small alphabet, listed in every phase order, as "
        "BasicReaction and ComputedReaction; all ordered pairs are compared with a phase->coefficient mapping model; "
        "a state is a distinct reaction object content, a transition one comparison")

PH = ["Li2O", "MnO2", "LiMnO2", "Li2MnO3"]


def run(ctx):
    from rxn_network.core import Composition
    from rxn_network.reactions.basic import BasicReaction
    from rxn_network.reactions.computed import ComputedReaction

    amts = [-2, -1, 1, 2] if ctx.quick else [-2, -1, -0.5, 0.5, 1, 2]
    groups = []
    for n in (2, 3):
        for ph in combinations(PH, n):
            objs = []
            for cs in product(amts, repeat=n):
                perms = list(permutations(range(n)))
                if ctx.quick and n == 3:
                    perms = [perms[0], perms[3]]
                for pm in perms:
                    objs.append(tuple((ph[i], cs[i]) for i in pm))
            groups.append(("basic", objs))
    # four phases, three of them with every sign pattern, magnitudes 1/2
    objs = []
    for cs in product((1, 2), repeat=4):
        for sg in ((-1, -1, 1, 1), (-1, 1, -1, 1), (-1, -1, -1, 1), (1, 1, -1, -1)):
            objs.append(tuple((p, c * s) for p, c, s in zip(PH, cs, sg)))
            objs.append(tuple((p, c * s) for p, c, s in zip(PH, cs, sg))[::-1])
    groups.append(("basic", objs))
    # same phase lists but different phases in the same chemical system
    objs = [tuple(zip(ph, cs)) for ph in permutations(PH, 2) for cs in product((-1, 1, 2), repeat=2)]
    groups.append(("basic", objs))
    for eset in ("e0", "e1", "e2", "e3"):
        objs = [tuple(zip(("Li2O", "MnO2", "Li2MnO3"), cs)) for cs in product((-1, -2, 1, 2), repeat=3)]
        objs += [o[::-1] for o in objs[:24]]
        groups.append((eset, objs))
    groups.append(("mix", [tuple(zip(("Li2O", "MnO2", "Li2MnO3"), (s, s, -s))) for s in (-1, 1, -2, 2)] ))

    E = {"e0": {"Li2O": -2.0, "MnO2": -1.7, "Li2MnO3": -2.1, "LiMnO2": -2.0},
         "e2": {"Li2O": -2.0, "MnO2": -1.7, "Li2MnO3": -2.101, "LiMnO2": -2.0},  # a polymorph 1 meV/atom below that of e0
         "e3": {"Li2O": -2.0, "MnO2": -1.7, "Li2MnO3": -2.10008, "LiMnO2": -2.0},  # and one 0.08 meV/atom below
         "e1": {"Li2O": -2.0, "MnO2": -1.7, "Li2MnO3": -2.3, "LiMnO2": -2.0}}

    def mk(kind, o):
        if kind == "basic":
            return BasicReaction([Composition(f) for f, _ in o], [c for _, c in o])
        return ComputedReaction([uni.ient(f, E[kind][f]) for f, _ in o], [float(c) for _, c in o])

    def one(c, g):
        kind, objs = g
        if not c.case(f"{kind}:{objs[0]}:{len(objs)}"):
            return
        if kind == "mix":
            pool = [((s, frozenset(o)), mk(s, o)) for s in ("e0", "e1", "e2", "e3") for o in objs]
        else:
            pool = [((kind, frozenset(o)), mk(kind, o)) for o in objs]
        tiny = []
        for k, r in pool[:6]:  # coefficients that differ by rounding noise are the same reaction
            noisy = np.array(r.coefficients, float) * (1 + 1e-13)
            tiny.append((k, ComputedReaction(r.entries, noisy) if kind != "basic" else BasicReaction(r.compositions, noisy)))
        pool += tiny
        for k, r in pool:
            c.state((k, tuple(np.round(r.coefficients, 9))))
            ident = set(map(str, r.reactants)) == set(map(str, r.products))
            c.check(r.is_identity == ident, f"{kind} {r} is_identity")
        for i, (ka, a) in enumerate(pool):
            c.trace()
            for kb, b in pool:
                with c.guard(f"{ka} == {kb}"):
                    exp = ka == kb
                    got = bool(a == b)
                    c.check(got == exp, f"eq {sorted(ka[1])} [{ka[0]}] vs {sorted(kb[1])} [{kb[0]}]",
                            lambda: f"{a} == {b} gives {got}")
                    if exp:
                        c.check(hash(a) == hash(b), f"hash of equal reactions {sorted(ka[1])}",
                                lambda: f"{a!r} {list(a.coefficients)} / {b!r} {list(b.coefficients)}")
                    c.outcome((exp, got))
        for k, r in pool[:4]:  # nothing but a reaction equals a reaction
            for o in (5, None, str(r), r.reactants, tuple(r.coefficients)):
                with c.guard(f"{kind} {r} vs {o!r}"):
                    c.check(not (r == o) and r != o, f"{kind} {r} equals {type(o).__name__}")
        if kind == "basic":
            distinct = {k for k, _ in pool}
            c.check(len({r for _, r in pool}) == len(distinct), f"set() of {kind} {objs[0]} collapses exactly duplicates")
        c.sample(str(pool[0][1]))

    ctx.pmap(groups, one)
    # identity reactions
    for f in PH:
        for x in (1, 2, 0.5):
            if ctx.case(f"id {f} {x}"):
                e = uni.ient(f, -1.0)
                r = ComputedReaction([e, e], [-x, x])
                ctx.check(r.is_identity, f"identity {x} {f}")
                r = ComputedReaction.balance([e], [e])
                ctx.check(r.is_identity and abs(r.energy) < 1e-9, f"balanced identity {f}")
    for a, b in permutations(PH, 2):
        if ctx.case(f"id2 {a} {b}"):
            ea, eb = uni.ient(a, -1.0), uni.ient(b, -1.1)
            r = ComputedReaction([ea, eb, ea, eb], [-1, -2, 1, 2])
            ctx.check(r.is_identity, f"identity {a}+2{b}")
            r = BasicReaction([ea.composition, eb.composition, ea.composition, eb.composition], [-1, -2, 2, 1], balanced=True)
            ctx.check(not r.is_identity, f"{a}+2{b}->2{a}+{b} is no identity")
