"""P15: stability queries of GibbsEntrySet against an exact lower-hull model."""
from fractions import Fraction as F
from itertools import combinations, product

import numpy as np

from vlib import enum_model as em
from vlib import exact, uni

RULE = ("every subset of the non-elemental phases of three pools (two or three elements, polymorphs, supercells, near-degenerate energies): hull energies, every cutoff "
        "on a grid around the exact hull distances x polymorph option, stabilisation and interpolation of every phase and of off-pool compositions; "
        "many-element sets of disconnected sub-systems; oracle: exact rational hyperplane enumeration of the lower hull")
ASSUMPTIONS = ["cutoffs are at least 1e-6 away from the exact hull distances unless the distance is zero"]

POOLS = {
    "YMnO": [("Y", "Y", 0.0), ("Mn", "Mn", 0.0), ("O2", "O2", 0.0), ("Y2O3", "Y2O3", -3.81), ("MnO", "Mn2O2", -1.93), ("Mn2O3", "Mn2O3", -1.953),
             ("Mn2O3b", "Mn4O6", -1.90), ("Mn2O3c", "Mn2O3", -1.9526), ("MnO2", "MnO2", -1.60), ("YMnO3", "Y2Mn2O6", -3.051), ("YMn2O5", "YMn2O5", -2.55)],
    "LiO": [("Li", "Li", 0.0), ("Lib", "Li2", 0.03), ("O2", "O2", 0.0), ("O3", "O3", 0.2), ("Li2O", "Li2O", -2.03), ("Li2O2", "Li4O4", -1.62), ("Li2O2b", "Li2O2", -1.45),
            ("LiO2", "LiO2", -0.9), ("Li3O", "Li3O", 0.4)],
    "CO": [("C", "C", -0.1), ("O2", "O2", 0.25), ("CO2", "CO2", -1.37), ("CO", "CO", -0.59), ("COb", "C2O2", -0.5896), ("C3O2", "C3O2", -0.2), ("CO2b", "C2O4", -1.37)],
}


def hull_energy(facet_mus, c):
    return max(sum(mu.get(e, F(0)) * v for e, v in c.items()) for mu in facet_mus)


def facet_mus(points):
    ids = list(points)
    cs = {i: points[i][0] for i in ids}
    el = em.els(cs.values())
    out = []
    for s in combinations(ids, len(el)):
        m = [[cs[i].get(e, F(0)) for e in el] for i in s]
        if exact.rank(m) < len(el):
            continue
        mu = exact.solve(m, [points[i][1] for i in s])
        if all(points[i][1] - sum(cs[i].get(e, F(0)) * u for e, u in zip(el, mu)) >= 0 for i in ids):
            d = dict(zip(el, mu))
            if d not in out:
                out.append(d)
    return out


def run(ctx):
    from rxn_network.entries.entry_set import GibbsEntrySet
    from pymatgen.analysis.phase_diagram import PhaseDiagram
    from pymatgen.entries.computed_entries import ConstantEnergyAdjustment
    from rxn_network.entries.utils import initialize_entry
    from rxn_network.enumerators.utils import stabilize_entries

    def pts(ents):
        out = {}
        for i, e in ents.items():
            c = em.comp(e)
            out[i] = (c, F(e.energy_per_atom).limit_denominator(10**9) * sum(c.values()))
        return out

    def one(c, item):
        pool, ids = item
        key = f"{pool} {'+'.join(ids)}"
        if not c.case(key):
            return
        ents = {i: uni.ient(f, x, i) for i, f, x in POOLS[pool] if i in ids}
        with c.guard(key):
            P = pts(ents)
            chem = {}
            dist = {}
            for i, e in ents.items():
                els = frozenset(em.comp(e))
                if els not in chem:
                    chem[els] = facet_mus({j: P[j] for j in P if set(P[j][0]) <= els})
                dist[i] = float((P[i][1] - hull_energy(chem[els], P[i][0])) / sum(P[i][0].values()))
            es = GibbsEntrySet(ents.values())
            for i, e in ents.items():
                c.check(np.isclose(es.get_e_above_hull(e), dist[i], atol=1e-6), f"{key} e_above_hull {i}", lambda: f"{es.get_e_above_hull(e)} vs {dist[i]}")
            cuts = sorted({0.0, 1e-5, 0.5} | {round(d + x, 7) for d in dist.values() for x in (-1e-5, 1e-5) if d + x > 0})
            for cut, poly in product(cuts, (False, True)):
                exp = {i for i in ents if dist[i] <= cut + 1e-12}
                if not poly:
                    best = {}
                    for i in exp:
                        best.setdefault(ents[i].composition.reduced_formula, []).append((ents[i].energy_per_atom, i))
                    ties = {f: {i for x, i in v if abs(x - min(v)[0]) < 1e-9} for f, v in best.items()}
                got = [str(e.entry_id) for e in es.filter_by_stability(cut, include_polymorphs=poly)]
                if poly:
                    c.check(sorted(got) == sorted(exp), f"{key} filter({cut},{poly})", lambda: f"{sorted(got)} vs {sorted(exp)}")
                else:
                    c.check(len(got) == len(ties) and all(len(set(got) & t) == 1 for t in ties.values()), f"{key} filter({cut},{poly})",
                            lambda: f"{sorted(got)} vs {ties}")
                c.step()
            c.check({str(e.entry_id) for e in es} == set(ents), f"{key} unchanged by filtering")
            for i, e in ents.items():
                for tol, force in ((1e-3, False), (1e-2, True)):
                    st = es.get_stabilized_entry(e, tol=tol, force=force)
                    on = dist[i] < 1e-9
                    if on and not force:
                        if abs(st.energy - e.energy) > 1e-9:  # distance zero only within round-off: may be lowered by tol
                            c.check(abs(st.energy - e.energy + tol) < 1e-6, f"{key} stable entry {i} kept", lambda: f"{st.energy} {e.energy}")
                    else:
                        exp = e.energy - dist[i] * e.composition.num_atoms - tol
                        c.check(abs(st.energy - exp) < 1e-6, f"{key} stabilised {i} energy", lambda: f"{st.energy} vs {exp}")
                    c.check(st.composition == e.composition and type(st) is type(e), f"{key} stabilised {i} composition")
                    if i not in (d for d in ents if ents[d].is_element):
                        new = GibbsEntrySet([x for j, x in ents.items() if j != i] + [st])
                        c.check(new.get_e_above_hull(st) < 1e-6, f"{key} stabilised {i} is on the hull", lambda: new.get_e_above_hull(st))
            pd = PhaseDiagram(list(ents.values()))
            for sel in [(i,) for i in ents] + list(combinations(ents, 2))[:: 3 if c.quick else 1]:
                for tol in (1e-6, 1e-2):
                    got = stabilize_entries(pd, [ents[i] for i in sel], *([] if tol == 1e-6 else [tol]))
                    c.check([str(x.entry_id) for x in got] == list(sel) and all(x.composition == ents[i].composition and abs(x.energy - (ents[i].energy - dist[i] * ents[i].composition.num_atoms - tol)) < 1e-7
                            for i, x in zip(sel, got)), f"{key} stabilize_entries {sel} tol {tol}", lambda: f"{[x.energy for x in got]} {[ents[i].energy for i in sel]} {[dist[i] for i in sel]}")
            forms = {"YMnO": ["YMnO3", "Y2Mn3O7", "MnO3", "YMn"], "LiO": ["Li2O2", "Li4O", "LiO3"], "CO": ["CO2", "C2O3", "CO5"]}[pool]
            for f in forms:
                from rxn_network.core import Composition

                cf = {str(k): exact.frac(v) for k, v in Composition(f).reduced_composition.items()}
                for tol in (1e-3, 0.02):
                    it = es.get_interpolated_entry(f, tol_per_atom=tol)
                    mus = facet_mus({j: P[j] for j in P if set(P[j][0]) <= set(cf)})
                    exp = float(hull_energy(mus, cf)) - tol * float(sum(cf.values()))
                    c.check(abs(it.energy - exp) < 1e-6 and it.composition.reduced_formula == Composition(f).reduced_formula,
                            f"{key} interpolated {f}", lambda: f"{it.energy} vs {exp}")
                for mult in (2, 3):  # the same phase, however its formula is written
                    f2 = Composition({k: v * mult for k, v in Composition(f).items()}).formula.replace(" ", "")
                    a, b = es.get_interpolated_entry(f), es.get_interpolated_entry(f2)
                    c.check(a.composition == b.composition and a.entry_id == b.entry_id and abs(a.energy - b.energy) < 1e-9 and a == b, f"{key} interpolated {f} as {f2}", lambda: f"{a} {b}")
                init = initialize_entry(f, es)
                rf = Composition(f).reduced_formula
                same = [e for e in ents.values() if e.composition.reduced_formula == rf]
                exp = min(e.energy_per_atom for e in same) if same else float(hull_energy(mus, cf) / sum(cf.values())) - 1e-3
                c.check(abs(init.energy_per_atom - exp) < 1e-6, f"{key} initialise {f}", lambda: f"{init.energy_per_atom} vs {exp}")
            full = GibbsEntrySet([e.copy() for e in ents.values()], calculate_e_above_hulls=True)
            c.check(all(np.isclose(e.data["e_above_hull"], dist[str(e.entry_id)], atol=1e-6) for e in full), f"{key} stored e_above_hull")
            for e in full:
                st = full.get_stabilized_entry(e)
                if dist[str(e.entry_id)] > 1e-9:
                    exp = e.energy - dist[str(e.entry_id)] * e.composition.num_atoms - 1e-3
                    c.check(abs(st.energy - exp) < 1e-6, f"{key} stabilised from stored data {e.entry_id}", lambda: f"{st.energy} vs {exp}")
            c.trace()
            c.state(key)
            c.outcome(sum(d < 1e-9 for d in dist.values()))
            c.sample({"set": key, "e_above_hull": {k: round(v, 4) for k, v in dist.items()}})

    items = []
    for pool, pe in POOLS.items():
        els = [i for i, f, _ in pe if len(em.comp(uni.ient(f, 0))) == 1 and i not in ("Lib", "O3")]
        rest = [i for i, _, _ in pe if i not in els]
        for k in range(len(rest) + 1):
            for sub in combinations(rest, k):
                items.append((pool, (*els, *sub)))
    ctx.pmap(items, one)

    # large systems: pairs of elements from 12, each with its own sub-diagram
    E12 = ["Li", "Na", "K", "Rb", "Cs", "Mg", "Ca", "Sr", "Ba", "Zn", "F2", "Cl2"]

    def large(c, seed):
        key = f"large {seed}"
        if not c.case(key):
            return
        with c.guard(key):
            ents = {x: uni.ient(x, 0.0, x) for x in E12}
            k = 0
            for i, a in enumerate(E12[:10]):
                for b in ("F", "Cl"):
                    k += 1
                    for j, (n, m) in enumerate(((1, 1), (1, 2), (2, 1))):
                        f = f"{a}{n}{b}{m}"
                        ents[f] = uni.ient(f, -1.0 - 0.13 * ((k * 7 + j * (3 + seed)) % 11) / 2 - (0.4 if seed % 2 else 0) * (j == 1), f)
            if seed > 1:
                ents["LiFCl"] = uni.ient("Li2FCl", -1.2 - 0.2 * seed, "LiFCl")
            es = GibbsEntrySet(ents.values())
            P = pts(ents)
            dist = {}
            for i, e in ents.items():
                els = frozenset(em.comp(e))
                mus = facet_mus({j: P[j] for j in P if set(P[j][0]) <= els})
                dist[i] = float((P[i][1] - hull_energy(mus, P[i][0])) / sum(P[i][0].values()))
                c.check(np.isclose(es.get_e_above_hull(e), dist[i], atol=1e-6), f"{key} e_above_hull {i}", lambda: f"{es.get_e_above_hull(e)} vs {dist[i]}")
            for cut in (0.0, 0.05, 0.2):
                got = {str(e.entry_id) for e in es.filter_by_stability(cut)}
                c.check(got == {i for i in ents if dist[i] <= cut}, f"{key} filter {cut}", lambda: got ^ {i for i in ents if dist[i] <= cut})
            c.trace()
            c.state(key)

    ctx.pmap(range(4 if ctx.quick else 40), large)

    if ctx.case("stabilize computed entries"):
        with ctx.guard("stabilize computed entries"):
            for a1, a2 in product((0.0, 0.3, -0.2), repeat=2):
                adj = lambda v: [ConstantEnergyAdjustment(v, name="x")] if v else None
                el = [uni.gent(x, 0.0, eid=x) for x in ("Mn", "O2")]
                hi = uni.gent("Mn2O2", -1.0, eid="MnO", energy_adjustments=adj(a1), data={"tag": 1})
                lo = uni.gent("Mn2O3", -2.0, eid="Mn2O3", energy_adjustments=adj(a2))
                pd = PhaseDiagram([*el, hi, lo])
                for e in (hi, lo):
                    d = pd.get_e_above_hull(e)
                    new = stabilize_entries(pd, [e])[0]
                    ctx.check(abs(new.energy - (e.energy - d * e.composition.num_atoms - 1e-6)) < 1e-7 and new.data.get("tag") == e.data.get("tag"), f"stabilize computed entry {a1} {a2}", lambda: f"{new.energy} {e.energy} {d}")
                    ctx.check(PhaseDiagram([*el, *(x for x in (hi, lo) if x is not e), new]).get_e_above_hull(new) < 1e-8, f"stabilized computed entry on the hull {a1} {a2}")
            ctx.trace()
