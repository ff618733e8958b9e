"""P03: reaction energetics for every supercell multiplicity, entry type, adjustment and open-element choice."""
import math
from functools import reduce
from itertools import product

import numpy as np

RULE = ("every reaction of the pool x every per-phase formula multiple (1-3) x every entry kind per phase (Gibbs, interpolated with "
        "adjustments, NIST, FREED where tabulated) x coefficient scale/direction x open elements and chemical potentials; oracle: direct sums per formula unit")

RX = {
    "ox": (["MnO", "O2", "Mn2O3"], [-2, -0.5, 1]),
    "carb": (["Li2CO3", "Al2O3", "LiAlO2", "CO2"], [-1, -1, 2, 1]),
    "met": (["CaCl2", "Na2SO4", "CaSO4", "NaCl"], [-1, -1, 1, 2]),
    "red": (["Fe2O3", "C", "Fe", "CO2"], [-2, -3, 4, 3]),
    "spin": (["MgO", "Al2O3", "MgAl2O4"], [-1, -1, 1]),
    "per": (["BaO2", "BaO", "O2"], [-1, 1, 0.5]),
    "dec": (["H4N2O3", "H2O", "N2O"], [-1, 2, 1]),
}
FPA = {"MnO": -1.97, "O2": 0.0, "Mn2O3": -1.99, "Li2CO3": -2.05, "Al2O3": -3.41, "LiAlO2": -3.05, "CO2": -1.36, "CaCl2": -2.75,
       "Na2SO4": -2.05, "CaSO4": -2.47, "NaCl": -2.13, "Fe2O3": -1.7, "C": 0.0, "Fe": 0.0, "MgO": -3.1, "MgAl2O4": -3.4,
       "BaO2": -2.1, "BaO": -2.8, "H4N2O3": -0.42, "H2O": -0.98, "N2O": 0.28}


def fu(comp):
    """Number of reduced formula units, O2-like molecules counted as the library's documented reduced formula."""
    ints = [int(round(v)) for v in comp.values()]
    g = reduce(math.gcd, ints)
    f = comp.reduced_formula
    if f in ("O2", "N2", "H2", "Cl2", "F2"):
        g //= 2
    return max(g, 1)


def run(ctx):
    from pymatgen.core.periodic_table import Element
    from pymatgen.entries.computed_entries import CompositionEnergyAdjustment, ConstantEnergyAdjustment
    from rxn_network.core import Composition
    from rxn_network.entries.freed import FREEDReferenceEntry
    from rxn_network.entries.gibbs import GibbsComputedEntry
    from rxn_network.entries.interpolated import InterpolatedEntry
    from rxn_network.entries.nist import NISTReferenceEntry
    from rxn_network.reactions.computed import ComputedReaction
    from rxn_network.reactions.open import OpenComputedReaction

    def multiple(f, n):
        return Composition({el: v * n for el, v in Composition(f).items()})

    def make(f, n, kind, i):
        c = multiple(f, n)
        if kind == "gibbs":
            return GibbsComputedEntry(c, FPA[f], 11.0 + i, 700, entry_id=f"g{i}")
        if kind == "gibbs+":
            return GibbsComputedEntry(c, FPA[f], 11.0 + i, 450, entry_id=f"g{i}",
                                      energy_adjustments=[CompositionEnergyAdjustment(0.11, c.num_atoms, 0.02, name="x")])
        if kind == "interp":
            return InterpolatedEntry(c, FPA[f] * c.num_atoms, entry_id=f"i{i}",
                                     energy_adjustments=[ConstantEnergyAdjustment(0.03 * n, 0.07 * n, name="y")])
        if kind == "plain":
            return InterpolatedEntry(c, FPA[f] * c.num_atoms, entry_id=f"i{i}")
        cl = NISTReferenceEntry if kind == "nist" else FREEDReferenceEntry
        if c.reduced_formula not in cl.REFERENCES:
            return None
        return cl(c, 700)

    kinds = ["gibbs", "interp", "nist", "freed", "plain", "gibbs+"]
    scales = (1.0, -2.0) if ctx.quick else (1.0, -2.0, 0.25, -1.0, 7.0)
    mults = (1, 2, 3) if ctx.quick else (1, 2, 3, 5)

    def assignments(n):
        """all-one-kind with every multiplicity; every mix of kinds at multiplicities 1 and a fixed odd pattern."""
        for ms in product(mults, repeat=n):
            for k in kinds:
                yield ms, (k,) * n
        for ks in product(kinds, repeat=n):
            if len(set(ks)) > 1:
                yield tuple((2, 1, 3, 1, 2)[i] for i in range(n)), ks
                if not ctx.quick:
                    yield (1,) * n, ks

    items = []
    for name in RX:
        a = list(assignments(len(RX[name][0])))
        items += [(name, a[i::4]) for i in range(4)]

    def one(c, item):
        name, asg = item
        fs, cs = RX[name]
        els = sorted({str(e) for f in fs for e in Composition(f)})
        opens = [None] + [{e: mu} for e in ("O", "C", "Mn", "Ba") if e in els for mu in (-1.5, 0.0, 0.4)]
        if "C" in els and "O" in els:
            opens.append({"O": -0.7, "C": -0.2})
        for ms, ks in asg:
            case = f"{name} {ms} {ks}"
            if not c.case(case):
                continue
            with c.guard(case):
                ents = [make(f, m, k, i) for i, (f, m, k) in enumerate(zip(fs, ms, ks))]
                if any(e is None for e in ents):
                    continue
                c.state(case)
                per_fu, unc_fu, comps = [], [], []
                for e, f, m in zip(ents, fs, ms):
                    n = fu(e.composition)
                    red = {str(k): v / n for k, v in e.composition.items()}
                    comps.append(red)
                    per_fu.append(e.energy / n)
                    u = e.correction_uncertainty
                    unc_fu.append(0.0 if np.isnan(u) else u / n)
                # reduced coefficients follow from the formula written in RX
                base = [x * sum(Composition(f).values()) / sum(r.values()) for x, f, r in zip(cs, fs, comps)]
                for sc in scales:
                    co = np.array(base) * sc
                    for op in opens if sc == scales[0] or not c.quick else opens[:2]:
                        k = f"{case} x{sc} {op}"
                        if op is None:
                            r = ComputedReaction(ents, co)
                        else:
                            r = OpenComputedReaction(ents, co, {Element(a): b for a, b in op.items()})
                        opn = op or {}
                        closed = [sum(v for a, v in x.items() if a not in opn) for x in comps]
                        g = [e if set(x) <= set(opn) and len(x) == 1 else e - sum(opn[a] * x.get(a, 0) for a in opn)
                             for e, x in zip(per_fu, comps)]
                        e = float(np.dot(g, co))
                        na = float(sum(a * b for a, b in zip(closed, co) if b > 0))
                        u = math.sqrt(sum((a * b) ** 2 for a, b in zip(unc_fu, co)))
                        c.trace()
                        c.check(abs(r.energy - e) < 1e-6 * max(1, abs(e)), f"{k} energy", lambda: f"{r.energy} want {e}")
                        c.check(abs(r.num_atoms - na) < 1e-6 * na, f"{k} atoms", lambda: f"{r.num_atoms} want {na}")
                        c.check(abs(r.energy_per_atom - e / na) < 1e-6, f"{k} energy per atom", lambda: f"{r.energy_per_atom} want {e / na}")
                        c.check(abs(r.energy_uncertainty - u) < 1e-6, f"{k} uncertainty", lambda: f"{r.energy_uncertainty} want {u}")
                        c.check(abs(r.energy_uncertainty_per_atom - u / na) < 1e-6, f"{k} uncertainty per atom")
                        c.check(abs(r.reverse().energy + e) < 1e-6 * max(1, abs(e)), f"{k} reverse energy")
                        c.outcome((op is None, e > 0, round(e, 1)))
            c.sample(case)

    ctx.pmap(items, one)
