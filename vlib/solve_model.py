"""Reference model of pathway solving: exact multiplicities for every combination of reactions."""

from __future__ import annotations

from fractions import Fraction as F
from itertools import combinations

from vlib import enum_model as em
from vlib import exact

# reactions (entry ids, coefficients) over enum_model.SYSTEMS["YMnO"]; 3/12 are multiples, 5 uses a polymorph, 7 reverses 3
POOL = [
    (["MnO", "O2", "Mn2O3"], [-2, -0.5, 1]),  # 0
    (["Y2O3", "Mn2O3", "YMnO3"], [-1, -1, 2]),  # 1
    (["Mn2O3", "O2", "MnO2"], [-1, -0.5, 2]),  # 2
    (["MnO2", "MnO", "Mn2O3"], [-1, -1, 1]),  # 3
    (["YMnO3", "MnO", "O2", "YMn2O5"], [-1, -1, -0.5, 1]),  # 4
    (["Y2O3", "Mn2O3b", "YMnO3"], [-1, -1, 2]),  # 5
    (["MnO", "O2", "Mn2O3b"], [-4, -1, 2]),  # 6
    (["Mn2O3", "MnO2", "MnO"], [-2, 2, 2]),  # 7
    (["Y2O3", "MnO", "MnO2", "YMnO3"], [-1, -1, -1, 2]),  # 8
    (["MnO", "O2", "Mn3O4"], [-3, -0.5, 1]),  # 9
    (["Y2O3", "Mn3O4", "YMnO3", "MnO"], [-1, -1, 2, 1]),  # 10
    (["Mn3O4", "O2", "MnO2"], [-1, -1, 3]),  # 11
    (["YMn2O5", "YMnO3", "MnO2"], [-1, 1, 1]),  # 12
    (["MnO", "O2", "MnO2"], [-1, -0.5, 1]),  # 13
    (["Y2O3", "Mn2O3", "YMnO3"], [-3, -3, 6]),  # 14 multiple of 1
    (["Y2O3", "MnO2", "YMn2O5", "YMnO3"], [-1, -3, 1, 1]),  # 15 placeholder, balanced below
]
POOL[15] = (["Y2O3", "MnO2", "YMn2O5", "O2"], [-1, -4, 2, 0.5])
NETS = [
    (["Y2O3", "MnO", "O2", "YMnO3"], [-1, -2, -0.5, 2]),
    (["Y2O3", "Mn2O3", "YMnO3"], [-0.5, -0.5, 1]),
    (["Y2O3", "MnO", "O2", "YMn2O5"], [-1, -4, -1.5, 2]),
    (["Y2O3", "MnO2", "YMnO3", "O2"], [-1, -2, 2, 0.5]),
    (["MnO", "O2", "MnO2"], [-2, -1, 2]),
    (["Y2O3", "MnO2", "MnO", "YMnO3"], [-1, -1, -1, 2]),
    (["Y2O3", "Mn3O4", "O2", "YMn2O5", "YMnO3"], [-3, -3, -1.5, 3, 3]),
]


# reactions and a net reaction that agree to 0.5 %, 0.05 % but do not add up (two degrees of freedom), and ones that do
POOL += [
    (["MnO", "MnO2", "Mn2O3", "Mn3O4"], [-3.01, -2.005, 1, 1.005]),  # 16
    (["Mn3O4", "Mn2O3", "MnO2", "MnO"], [1.0005, 1, -2.0005, -3.001]),  # 17
    (["MnO", "MnO2", "Mn2O3", "Mn3O4"], [-3, -2, 1, 1]),  # 18
]
NETS += [
    (["Y2O3", "MnO", "MnO2", "Mn2O3", "Mn3O4", "YMnO3"], [-0.5, -3, -2, 0.5, 1, 1]),  # 7 = 18 + half of 1
    (["Y2O3", "MnO", "MnO2", "Mn2O3", "Mn3O4", "YMnO3"], [-0.5, -3.001, -2.0005, 0.5, 1.0005, 1]),  # 8 = 17 + half of 1
]


def vec(ids, co):
    return {i: F(c).limit_denominator(10**4) for i, c in zip(ids, co)}


def key(v):
    """Class of a reaction up to positive scale."""
    m = max(abs(x) for x in v.values())
    return tuple(sorted((i, x / m) for i, x in v.items() if x))


def rvec(r):
    return {str(e.entry_id): F(float(c)).limit_denominator(10**4) for e, c in zip(r.entries, r.coefficients)}


def balance(combo, net):
    """Exact (multiplicities or None, independent?) of a combination of reaction vectors."""
    ids = sorted({i for v in [*combo, net] for i in v})
    a = [[v.get(i, F(0)) for v in combo] for i in ids]
    b = [net.get(i, F(0)) for i in ids]
    ind = exact.rank(a) == len(combo)
    x = exact.solve(a, b)
    return x, ind


def solutions(vecs, net, n):
    """{frozenset of classes: {class: multiplicity x scale}} of every independent combination; second: dependent solvable combos."""
    out, dep = {}, set()
    for k in range(1, min(n, len(vecs)) + 1):
        for c in combinations(vecs, k):
            x, ind = balance(c, net)
            if x is None:
                continue
            if not ind:
                dep.add(frozenset(key(v) for v in c))
            elif all(m > 0 for m in x):
                out[frozenset(key(v) for v in c)] = {key(v): m * max(abs(t) for t in v.values()) for v, m in zip(c, x)}
    return out, dep


def candidates(vecs, net):
    """Distinct reactions (up to scale), leaving out the net reaction itself."""
    out = {}
    for v in vecs:
        out.setdefault(key(v), v)
    return [v for v in out.values() if v != net]


def intermediates(ents, vecs, net, open_el=None, mu=None, cutoff=0.0, basic=True, minimize=False):
    """Reactions among the phases of the pathways and the elements that form a target, below the energy cutoff."""
    tg = {ents[i].composition.reduced_formula for i, c in net.items() if c > 0}
    ids = {i for v in vecs for i in v} | {i for i, c in net.items() if c > 0} | {i for i, e in ents.items() if e.is_element}
    sub = {i: ents[i] for i in ids}
    keep = em.min_entries(sub)
    t = frozenset(i for i in keep if sub[i].composition.reduced_formula in tg)
    found = set()
    o = ("O2",) if open_el else ()
    if basic:
        found |= em.request(em.all_reactions(sub, 2), sub, None, t)
        if open_el:
            found |= em.request(em.all_reactions(sub, 2, o), sub, None, t, open_ids=o)
    if minimize:
        found |= em.request(em.hull_reactions(sub), sub, None, t)
        if open_el:
            found |= em.request(em.hull_reactions(sub, open_el, mu), sub, None, t, open_ids=o)
    out = []
    for r, p in found:
        r, p = sorted(r), sorted(p)
        co = em.unique_reaction([em.comp(sub[i]) for i in r], [em.comp(sub[i]) for i in p])
        v = {**{i: -c for i, c in zip(r, co)}, **{i: c for i, c in zip(p, co[len(r):])}}
        if energy_pa(sub, v, open_el, mu) < cutoff:
            out.append(v)
    return out


def energy_pa(ents, v, open_el=None, mu=None):
    tot = at = 0.0
    for i, c in v.items():
        cc = {k: float(x) for k, x in em.comp(ents[i]).items()}
        if set(cc) == {open_el}:
            continue  # exchanged at its chemical potential
        n = sum(cc.values())
        e = ents[i].energy_per_atom * n
        if open_el:
            e -= cc.get(open_el, 0.0) * mu
            n -= cc.get(open_el, 0.0)
        tot += float(c) * e
        if c > 0:
            at += float(c) * n
    return tot / at


def realizable(vecs, precursors):
    """Can the reactions be run one after another, each from precursors and products of earlier ones?"""
    have, left = set(precursors), list(vecs)
    while left:
        nxt = [v for v in left if all(i in have for i, c in v.items() if c < 0)]
        if not nxt:
            return False
        for v in nxt:
            have |= {i for i, c in v.items() if c > 0}
            left.remove(v)
    return True
