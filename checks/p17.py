"""P17: building Gibbs entry sets under every option combination, against a model of inclusion and corrections."""
import math
from collections import Counter
from itertools import combinations, product

from monty.serialization import loadfn

from vlib import uni
from vlib.thermo import BASE, TAB, interp, sisso

RULE = ("every combination of the five data-source/correction options x temperatures inside, at the edge of and outside the tabulated ranges x every bounded subset of the computed-entry pool "
        "(elemental polymorphs, supercells, polymorphs of tabulated compounds, carbonates with each run type, oxalates, CO2) x entry orders x both constructors, plus systems of at least ten elements "
        "that are split into sub-diagrams; oracle: a direct model of which entries belong in the set and their energies from the raw tables and the descriptor formula")

POOLS = {
    "LiCO": ["Li", "Li2*", "C", "C4*", "O2", "O4*", "CO2", "C2O4", "CO", "Li2CO3 GGA", "Li4C2O6 GGA+U", "Li2CO3 R2SCAN", "Li2O", "Li2O2", "Li4O4", "Li2C2O4 GGA", "LiC3O9 GGA", "Li4CO4 GGA", "Li2CO6 GGA+U"],
    "MnMgCO": ["Mn", "Mn2*", "Mg", "C", "O2", "MnO", "Mn2O3", "Mn4O6", "MnCO3 GGA+U", "MgCO3 GGA", "MgO", "Mg2O2", "MgMnC2O6 GGA", "Mn3O4"],
    "NaTiHO": ["Na", "Ti", "H2", "O2", "H2O", "H4O2", "TiO2", "Ti2O4", "NaO2", "Na2O", "NaOH", "Na2TiO3"],
}
SPLIT = ["Li", "C", "O2", "Mn", "Mg", "Na", "Ti", "H2", "Y", "Cl2", "F2", "Li2O", "Li2CO3 GGA", "MnO", "Mn2O3", "MgCO3 GGA", "Na2O", "TiO2", "H2O", "Y2O3", "YOCl", "LiF", "LiCl", "NaCl",
         "LiMnO2", "Li2*", "O4*", "CO2", "YMnO3", "MnCO3 R2SCAN"]


def run(ctx):
    from pymatgen.analysis.phase_diagram import PhaseDiagram
    from pymatgen.core import Lattice, Structure
    from pymatgen.core.composition import Composition
    from pymatgen.entries.computed_entries import ComputedStructureEntry
    from rxn_network.entries.entry_set import GibbsEntrySet

    ignore = set(loadfn(BASE + "nist/ignore_solids.json"))

    def make(names):
        out = []
        for i, nm in enumerate(names):
            f, _, rt = nm.partition(" ")
            f = f.rstrip("*")
            comp = Composition(f)
            sp = [el for el, n in comp.items() for _ in range(int(n))]
            n = len(sp)
            vol = (9.0 + 0.37 * i) * n
            st = Structure(Lattice.cubic(vol ** (1 / 3)), sp, [[(k * 0.13) % 1, (k * 0.29) % 1, k / n] for k in range(n)])
            epa = (sum((-2.0 - 0.3 * (el.Z % 7)) * x for el, x in comp.items()) / n) - (0 if len(comp) == 1 else 1.1 + 0.17 * (i % 5)) + (0.3 if "*" in nm else 0)
            out.append(ComputedStructureEntry(st, epa * n, correction=(0.05 * n if i % 3 == 1 and len(comp) > 1 else 0.0), entry_id=f"mp-{i}",
                                              parameters={"run_type": rt} if rt else {}, data={"tag": i}))
        return out

    def model(ents, opt, t):
        nist, freed, carb, co2, ign = opt
        ref = {}
        for e in ents:
            if len(e.composition) == 1:
                el = e.composition.elements[0]
                if el not in ref or e.energy_per_atom < ref[el].energy_per_atom:
                    ref[el] = e
        want = Counter()
        seen = set()
        for e in ents:
            f = e.composition.reduced_formula
            if len(e.composition) == 1 and ref[e.composition.elements[0]] is not e:
                continue
            exp = []
            for kind, on in (("nist", nist), ("freed", freed)):
                if not on or f not in TAB[kind] or (kind == "nist" and ign and f in ignore):
                    continue
                ks = [float(k) for k in TAB[kind][f]]
                if min(ks) <= t <= max(ks):
                    corr = 8.617e-5 * t * math.log(0.0004) if co2 and f == "CO2" else 0.0
                    exp.append((kind.upper() + "ReferenceEntry", f, None, round(interp(TAB[kind][f], t) + corr, 5), None))
            if exp:
                if f not in seen:
                    want.update(exp)
                    seen.add(f)
                continue
            n = e.composition.num_atoms
            fpa = (e.energy - sum(x * ref[el].energy_per_atom for el, x in e.composition.items())) / n
            corr = 0.0
            if carb and e.parameters.get("run_type") in ("GGA", "GGA+U") and e.composition["C"] and e.composition["O"] == 3 * e.composition["C"]:
                corr += 0.83 * e.composition["C"]
            if co2 and f == "CO2":
                corr += n / 3 * 8.617e-5 * t * math.log(0.0004)
            want[("GibbsComputedEntry", e.composition.formula, e.entry_id, round(sisso(e.composition.formula, fpa, e.structure.volume / n, t) + corr, 5), e.data["tag"])] += 1
        return want

    def got(s, minimized=False):
        out = Counter()
        for e in s:
            if type(e).__name__ == "GibbsComputedEntry":
                out[(type(e).__name__, e.composition.formula, e.entry_id, round(float(e.energy), 5), None if minimized else e.data.get("tag"))] += 1
            else:
                out[(type(e).__name__, e.composition.reduced_formula, None, round(float(e.energy), 5), None)] += 1
        return out

    def close(a, b):
        """Counters equal up to rounding of the energy."""
        def srt(c):
            return sorted(c.elements(), key=lambda k: (k[0], k[1], str(k[2]), k[3]))
        x, y = srt(a), srt(b)
        return len(x) == len(y) and all(p[:3] == q[:3] and p[4] == q[4] and abs(p[3] - q[3]) < 2e-4 for p, q in zip(x, y))

    KW = ("include_nist_data", "include_freed_data", "apply_carbonate_correction", "apply_atmospheric_co2_correction", "ignore_nist_solids")
    OPTS = list(product((False, True), repeat=5))
    TEMPS = (300, 1100, 1999) if ctx.quick else (300, 450, 700, 1000, 1100, 1300, 1777.5, 1999, 2000)

    def one(c, item):
        pool, idxs, rev = item
        names = [POOLS[pool][i] for i in idxs]
        key = f"{pool} {names} rev={rev}"
        if not c.case(key):
            return
        full = make(POOLS[pool])
        for t in TEMPS:
            ents = [full[i] for i in idxs]
            if rev:
                ents = ents[::-1]
            tags = [dict(e.data) for e in ents]
            for oi, opt in enumerate(OPTS):
                kw = dict(zip(KW, opt))
                k2 = f"{key} T={t} {opt}"
                with c.guard(k2):
                    if oi % 2 == 0:
                        s = GibbsEntrySet.from_computed_entries(ents, t, **kw)
                    else:
                        s = GibbsEntrySet.from_pd(PhaseDiagram(ents), t, **kw)
                    want = model(ents, opt, t)
                    c.check(close(got(s), want), f"{k2} entries", lambda: f"extra {got(s) - want}\nmissing {want - got(s)}")
                    c.check(not s.calculate_e_above_hulls and not s.minimize_obj_size, f"{k2} flags")
                    c.state((pool, idxs, t, opt))
                    c.outcome(len(want))
            # options about stored data, and independence of sets built from the same entries
            with c.guard(f"{key} T={t} hulls"):
                s1 = GibbsEntrySet.from_computed_entries(ents, t, calculate_e_above_hulls=True)
                d1 = {id(e): e.data["e_above_hull"] for e in s1}
                s2 = GibbsEntrySet.from_computed_entries(ents, 1500, calculate_e_above_hulls=True, include_nist_data=False)
                w1 = model(ents, (True, False, True, True, True), t)
                c.check(close(got(s1), w1), f"{key} T={t} default options", lambda: f"extra {got(s1) - w1}\nmissing {w1 - got(s1)}")
                c.check(s1.calculate_e_above_hulls and all(e.data["e_above_hull"] == d1[id(e)] and abs(s1.get_e_above_hull(e) - d1[id(e)]) < 1e-9 for e in s1), f"{key} T={t} stored hull energies stay")
                c.check(all(abs(s2.get_e_above_hull(e) - e.data["e_above_hull"]) < 1e-9 for e in s2), f"{key} T={t} stored hull energies")
                c.check([dict(e.data) for e in ents] == tags, f"{key} T={t} computed entries untouched")
                s3 = GibbsEntrySet.from_computed_entries(ents, t, minimize_obj_size=True)
                c.check(s3.minimize_obj_size and all(e.data == {} for e in s3) and close(got(s3, True), Counter({(*k[:4], None): v for k, v in model(ents, (True, False, True, True, True), t).items()})),
                        f"{key} T={t} minimized")
                c.check([dict(e.data) for e in ents] == tags, f"{key} T={t} computed entries untouched")
            c.trace()
        c.sample({"case": key})

    items = []
    for pool, names in POOLS.items():
        comp = {nm: Composition(nm.split()[0].rstrip("*")) for nm in names}
        base = [i for i, nm in enumerate(names) if len(comp[nm]) == 1 and "*" not in nm]
        rest = [i for i in range(len(names)) if i not in base]
        for k in range(0, (2 if ctx.quick else 4)):
            for sub in combinations(rest, k):
                items.append((pool, tuple(sorted(base + list(sub))), len(items) % 2))
        if ctx.quick:
            for sub in combinations(rest, 2):
                if len({comp[names[i]].reduced_formula for i in sub}) == 1:  # polymorphs
                    items += [(pool, tuple(sorted(base + list(sub))), r) for r in (0, 1)]
        for r in (0, 1):
            items.append((pool, tuple(range(len(names))), r))
    ctx.pmap(items, one)

    def split(c, item):
        t, drop, order = item
        key = f"split T={t} without {drop} order={order}"
        if not c.case(key):
            return
        names = [n for n in SPLIT if n not in drop]
        ents = make(SPLIT)
        ents = [e for e, n in zip(ents, SPLIT) if n in names]
        ents = ents[::-1] if order else ents
        for opt in OPTS if not ctx.quick else OPTS[:: 5] + [OPTS[-1], OPTS[20]]:
            kw = dict(zip(KW, opt))
            for flags in ((False, False), (True, False), (False, True)):
                k2 = f"{key} {opt} {flags}"
                with c.guard(k2), uni.quiet():
                    s = GibbsEntrySet.from_computed_entries(ents, t, calculate_e_above_hulls=flags[0], minimize_obj_size=flags[1], **kw)
                    want = model(ents, opt, t)
                    if flags[1]:
                        want = Counter({(*k[:4], None): v for k, v in want.items()})
                    c.check(close(got(s, flags[1]), want), f"{k2} entries", lambda: f"extra {got(s, flags[1]) - want}\nmissing {want - got(s, flags[1])}")
                    c.check((s.calculate_e_above_hulls, s.minimize_obj_size) == flags, f"{k2} flags kept")
                    if flags[0]:
                        c.check(all(abs(e.data.get("e_above_hull", 99) - s.get_e_above_hull(e)) < 1e-9 for e in s), f"{k2} hull energies")
                    if flags[1]:
                        c.check(all(e.data == {} for e in s), f"{k2} minimized")
                    c.state((key, opt, flags))
            c.trace()

    ctx.pmap([(t, d, o) for t in ((300, 1200) if ctx.quick else TEMPS) for d in ((), ("Li2*", "MnO"), ("YMnO3", "LiMnO2", "YOCl"), ("Y2O3", "CO2")) for o in (0, 1)], split)
