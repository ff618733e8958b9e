"""Reference model of reaction enumeration: exact balancing over every candidate, exact lower-hull faces."""

from __future__ import annotations

from fractions import Fraction as F
from itertools import combinations

from vlib import exact, uni

# (entry id, formula, energy per atom [eV])
SYSTEMS = {
    "YMnO": [("Y", "Y", 0.0), ("Mn", "Mn", 0.0), ("O2", "O2", 0.0), ("Y2O3", "Y2O3", -3.81), ("MnO", "MnO", -1.93),
             ("Mn2O3", "Mn2O3", -1.953), ("Mn2O3b", "Mn4O6", -1.90), ("Mn3O4", "Mn3O4", -1.957), ("MnO2", "MnO2", -1.77),
             ("YMnO3", "YMnO3", -3.051), ("YMn2O5", "YMn2O5", -2.66)],
    "LiCO": [("Li", "Li", 0.0), ("C", "C", 0.0), ("O2", "O2", 0.0), ("Li2O", "Li2O", -2.03), ("Li2O2", "Li2O2", -1.62),
             ("CO2", "CO2", -1.37), ("CO", "CO", -0.6), ("Li2CO3", "Li2CO3", -2.05), ("Li2C2O4", "Li2C2O4", -1.72)],
    "exch": [("YCl3", "YCl3", -2.6), ("LiMnO2", "LiMnO2", -2.25), ("LiCl", "LiCl", -2.12), ("YMnO3", "YMnO3", -3.051),
             ("YOCl", "YOCl", -3.4), ("Y2O3", "Y2O3", -3.81), ("Li2O", "Li2O", -2.03), ("Mn2O3", "Mn2O3", -1.953),
             ("Y", "Y", 0.0), ("Li", "Li", 0.0), ("Mn", "Mn", 0.0), ("O2", "O2", 0.0), ("Cl2", "Cl2", 0.0)],
    # chosen for degenerate geometry: many phases on common lines and planes
    "grid": [("Ba", "Ba", 0.0), ("Ti", "Ti", 0.0), ("O2", "O2", 0.0), ("BaO", "BaO", -2.8), ("TiO2", "TiO2", -3.25),
             ("BaTiO3", "BaTiO3", -3.3), ("Ba2TiO4", "Ba2TiO4", -3.14), ("BaTi2O5", "BaTi2O5", -3.283), ("TiO", "TiO", -2.71),
             ("Ti2O3", "Ti2O3", -3.1), ("BaTiO3b", "BaTiO3", -3.25)],
}

# systems used by single checks: three gases that act together, and systems of two to nine elements
MORE = {
    "LiHCO": [("Li", "Li", 0.0), ("Li2O", "Li2O", -2.03), ("LiOH", "LiOH", -1.68), ("Li2CO3", "Li2CO3", -2.05), ("LiHCO3", "LiHCO3", -1.7),
              ("LiH", "LiH", -0.45), ("O2", "O2", 0.0), ("H2O", "H2O", -0.99), ("CO2", "CO2", -1.37)],
}
_METALS = ["Li", "Na", "K", "Rb", "Mg", "Ca", "Sr", "Ba"]
for _k in range(2, 9):
    _a, _b = _METALS[:_k // 2], _METALS[_k // 2:_k]
    _f = lambda m, n: "".join(m) + f"O{n}"  # noqa: E731
    MORE[f"wide{_k + 1}"] = [("A", _f(_a, 2), -1.0), ("B", _f(_b, 3), -1.2), ("AB", _f(_a + _b, 5), -1.4), ("AB+", _f(_a + _b, 8), -1.1),
                             ("B+", _f(_b, 6), -1.0)]


def entries(name, only=None):
    return {i: uni.ient(f, e, i) for i, f, e in {**SYSTEMS, **MORE}[name] if only is None or i in only}


def comp(e):
    return {str(k): exact.frac(v) for k, v in e.composition.reduced_composition.items()}


def els(comps):
    return sorted({k for c in comps for k in c})


def rows(comps):
    return [[c.get(e, F(0)) for c in comps] for e in els(comps)]


def lin(c):
    """Direction of a composition (scaled to one atom)."""
    t = sum(c.values())
    return tuple(sorted((k, v / t) for k, v in c.items()))


def unique_reaction(rc, pc):
    """(coefs R, coefs P) all positive if the problem is balanced uniquely with every phase on its side, else None."""
    ns = exact.nullspace(rows(rc + pc), len(rc) + len(pc))
    if len(ns) != 1:
        return None
    v = [-x if i < len(rc) else x for i, x in enumerate(ns[0])]
    if all(x > 0 for x in v):
        return v
    if all(x < 0 for x in v):
        return [-x for x in v]
    return None


def all_reactions(ents, n, open_ids=()):
    """Every reaction among ents (dict id->entry): closed phases <= n a side. Open phases: at least one, all on one side.

    Returns set of (frozenset R ids, frozenset P ids)."""
    cs = {i: comp(e) for i, e in ents.items()}
    closed = [i for i in ents if i not in open_ids]
    combos = [c for k in range(1, n + 1) for c in combinations(closed, k)]
    ele = {c: frozenset(k for i in c for k in cs[i]) for c in combos}
    out = set()
    if not open_ids:
        by = {}
        for c in combos:
            by.setdefault(ele[c], []).append(c)
        for g in by.values():
            for a, b in combinations(g, 2):
                if set(a) & set(b):
                    continue
                if unique_reaction([cs[i] for i in a], [cs[i] for i in b]):
                    out |= {(frozenset(a), frozenset(b)), (frozenset(b), frozenset(a))}
        return out
    oc = [c for k in range(1, len(open_ids) + 1) for c in combinations(sorted(open_ids), k)]
    for a in combos:
        for b in combos:
            if set(a) & set(b):
                continue
            for o in oc:
                oe = frozenset(k for i in o for k in cs[i])
                if ele[a] | oe != ele[b] | oe and not (ele[a] <= ele[b] | oe):
                    continue
                if unique_reaction([cs[i] for i in a], [cs[i] for i in (*b, *o)]):
                    out |= {(frozenset(a), frozenset((*b, *o))), (frozenset((*b, *o)), frozenset(a))}
    return out


def _total(side, ents):
    return frozenset(ents[i].composition.reduced_formula for i in side)


def request(rxns, ents, pre=None, tgt=None, ex_p=True, ex_t=False, chemsys=None, open_ids=()):
    """Filter reactions by the request, all in ids."""
    o = frozenset(open_ids)
    out = set()
    for r, p in rxns:
        rc, pc = r - o, p - o
        el = {str(k) for i in r | p for k in ents[i].composition.elements}
        if _total(r, ents) is not None and _total(r, ents) == _total(p, ents):
            continue  # only polymorphs are exchanged: identity
        if len(el | {str(k) for i in o for k in ents[i].composition.elements}) < 2:
            continue  # a single element: no reaction in the sense of the enumerators
        if pre and not (rc <= pre | o if ex_p else rc & pre):
            continue
        if tgt and not (pc <= tgt | o if ex_t else pc & tgt):
            continue
        if chemsys and not set(chemsys.split("-")) <= el | {str(k) for i in o for k in ents[i].composition.elements}:
            continue
        out.add((r, p))
    return out


def got_key(r):
    return (frozenset(str(e.entry_id) for e, c in zip(r.entries, r.coefficients) if c < 0),
            frozenset(str(e.entry_id) for e, c in zip(r.entries, r.coefficients) if c > 0))


# ------------------------------------------------------------------ hull
def det_solve(a, b):
    return exact.solve(a, b)


def hull_facets(points):
    """points: {id: (composition dict, energy)} (already one per direction); list of facets (frozenset ids).

    Exact: a maximal simplex is a facet if no other phase lies below its hyperplane; phases exactly on it are merged."""
    ids = list(points)
    cs = {i: points[i][0] for i in ids}
    el = els(cs.values())
    d = len(el)
    out = set()
    for s in combinations(ids, d):
        m = [[cs[i].get(e, F(0)) for e in el] for i in s]
        if exact.rank(m) < d:
            continue
        mu = exact.solve(m, [points[i][1] for i in s])
        gaps = {i: points[i][1] - sum(cs[i].get(e, F(0)) * u for e, u in zip(el, mu)) for i in ids}
        if min(gaps.values()) >= -F(1, 10**9):
            out.add(frozenset(i for i in ids if gaps[i] <= F(1, 10**9)))
    return out


def min_entries(ents):
    """Lowest-energy entry id of each formula."""
    best = {}
    for i, e in ents.items():
        f = e.composition.reduced_formula
        if f not in best or e.energy_per_atom < ents[best[f]].energy_per_atom:
            best[f] = i
    return set(best.values())


def hull_reactions(ents, open_el=None, mu=None):
    """Every reaction of one or two phases to an assemblage of coexisting hull phases that is unique.

    With open_el: reactants exchange open_el at chemical potential mu (its elemental phase is added where needed)."""
    keep = min_entries(ents)
    pts, closed, oid = {}, {}, None
    for i in keep:
        e = ents[i]
        c = comp(e)
        en = F(e.energy_per_atom).limit_denominator(10**9) * sum(c.values())
        if open_el:
            if set(c) == {open_el}:
                oid = i
                continue
            en -= c.get(open_el, F(0)) * F(mu).limit_denominator(10**9)
            c = {k: v for k, v in c.items() if k != open_el}
        closed[i] = c
        pts[i] = (c, en)
    facets = {}
    out = set()
    allids = sorted(closed)
    full = {i: comp(ents[i]) for i in keep}
    for nr in (1, 2):
        for r in combinations(allids, nr):
            ele = frozenset(k for i in r for k in closed[i])
            if ele not in facets:
                facets[ele] = hull_facets({i: pts[i] for i in allids if set(closed[i]) <= ele})
            faces = {s for f in facets[ele] for k in range(1, len(ele) + 1) for s in combinations(sorted(f), k)}
            for s in faces:
                if set(s) & set(r):
                    continue
                v = unique_reaction([closed[i] for i in r], [closed[i] for i in s])
                if v is None:
                    continue
                rr, pp = set(r), set(s)
                if open_el:
                    bal = sum((-x if j < nr else x) * full[i].get(open_el, F(0)) for j, (i, x) in enumerate(zip((*r, *s), v)))
                    if bal > 0:
                        rr.add(oid)
                    elif bal < 0:
                        pp.add(oid)
                out.add((frozenset(rr), frozenset(pp)))
    return out
