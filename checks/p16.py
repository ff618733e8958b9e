"""P16: entry energies over every bounded path of temperature changes, copies and serialisation."""
import json
import math
from itertools import product

import numpy as np
from monty.json import MontyDecoder, MontyEncoder

from vlib import uni
from vlib.thermo import TAB, interp, sisso

RULE = ("every path of the bounded length over {new temperature (tabulated, intermediate, integer, float), copy, json round trip} from every entry of a pool "
        "(Gibbs entries with every combination of corrections and supercells, NIST and FREED entries, interpolated entries); and every tabulated compound at every tabulated "
        "temperature, between neighbouring ones and just outside the range; oracle: the descriptor formula and linear table interpolation, evaluated independently from the raw data files")

def run(ctx):
    from pymatgen.entries.computed_entries import ConstantEnergyAdjustment, TemperatureEnergyAdjustment
    from pymatgen.core.periodic_table import Element
    from rxn_network.core import Composition
    from rxn_network.entries.corrections import CarbonateCorrection, CarbonDioxideAtmosphericCorrection
    from rxn_network.entries.freed import FREEDReferenceEntry
    from rxn_network.entries.gibbs import GibbsComputedEntry
    from rxn_network.entries.nist import NISTReferenceEntry

    dec = MontyDecoder()

    def corr_energy(formula, corrs, t):
        n = Composition(formula).num_atoms
        out = 0.0
        for k in corrs:
            if k == "carb":
                out += 0.830 * Composition(formula)["C"]
            elif k == "co2":
                out += n / 3 * 8.617e-5 * t * math.log(0.0004)
            elif k == "const":
                out += -0.123
            elif k == "temp":
                out += 2e-5 * t * n
        return out

    def adjs(formula, corrs, t):
        n = Composition(formula).num_atoms
        mk = {"carb": lambda: CarbonateCorrection(Composition(formula)["C"]), "co2": lambda: CarbonDioxideAtmosphericCorrection(n, t),
              "const": lambda: ConstantEnergyAdjustment(-0.123), "temp": lambda: TemperatureEnergyAdjustment(2e-5, t, n)}
        return [mk[k]() for k in corrs]

    TEMPS = [300, 400.0, 450, 1000, 1000.4, 1234.5] if ctx.quick else [300, 400.0, 450, 1000, 1000.4, 1234.5, 1999.9, 2000]
    STARTS = []
    for f, fpa, vol in [("Li2O", -2.0, 12.0), ("Li4O2", -2.0, 12.0), ("YMnO3", -3.0, 11.3), ("Fe4O6", -1.7, 9.9), ("O2", 0.0, 14.0), ("Mn", 0.0, 12.0), ("Li0.5MnO2", -2.1, 10.0)]:
        for corrs in ((), ("const",), ("temp",), ("const", "temp")):
            STARTS.append(("gibbs", f, fpa, vol, corrs))
    for f in ("Li2CO3", "Li4C2O6"):
        for corrs in ((), ("carb",), ("carb", "temp")):
            STARTS.append(("gibbs", f, -2.0, 9.5, corrs))
    for f in ("CO2", "C2O4"):
        for corrs in ((), ("co2",), ("co2", "const")):
            STARTS.append(("gibbs", f, -1.3, 13.0, corrs))
            STARTS.append(("nist", f, None, None, corrs))
            STARTS.append(("freed", f, None, None, corrs))
    for f in ("H2O", "H4O2", "Al2O3", "Li2O"):
        for cl in ("nist", "freed"):
            if Composition(f).reduced_formula not in TAB[cl]:
                continue
            STARTS.append((cl, f, None, None, ()))
            STARTS.append((cl, f, None, None, ("const",)))
    STARTS.append(("interp", "YMnO3", -2.9, None, ("const",)))
    CL = {"nist": NISTReferenceEntry, "freed": FREEDReferenceEntry}
    OPS = [*TEMPS, "copy", "json"]
    depth = 3 if ctx.quick else 4

    def build(st, t):
        kind, f, fpa, vol, corrs = st
        if kind == "gibbs":
            return GibbsComputedEntry(Composition(f), fpa, vol, t, energy_adjustments=adjs(f, corrs, t), entry_id="x", data={"k": 1}, parameters={"p": 2})
        if kind == "interp":
            return uni.ient(f, fpa, "x", energy_adjustments=adjs(f, corrs, t))
        return CL[kind](Composition(f), t, energy_adjustments=adjs(f, corrs, t) or None, data={"k": 1})

    def model(st, t):
        kind, f, fpa, vol, corrs = st
        if kind == "gibbs":
            return sisso(f, fpa, vol, t) + corr_energy(f, corrs, t)
        if kind == "interp":
            return fpa * Composition(f).num_atoms + corr_energy(f, corrs, t)
        c = Composition(f)
        return interp(TAB[kind][c.reduced_formula], t) * c.num_atoms / c.reduced_composition.num_atoms + corr_energy(f, corrs, t)

    def ok(st, t):
        ks = [float(k) for k in TAB[st[0]][Composition(st[1]).reduced_formula]]
        return min(ks) <= t <= max(ks)

    def observe(c, key, e, st, t):
        want = model(st, t)
        n = Composition(st[1]).num_atoms
        c.check(abs(e.energy - want) < 1e-6 * max(1, abs(want)), f"{key} energy", lambda: f"{e.energy} vs {want}")
        c.check(abs(e.energy_per_atom - want / n) < 1e-6, f"{key} energy per atom")
        c.check(e.composition == Composition(st[1]), f"{key} composition")
        for els in (["O"], ["Li", "C"], ["O", "Al"]):  # energy with the elements held at fixed chemical potentials
            mus = {Element(x): -0.7 - 0.1 * k for k, x in enumerate(els)}
            g = e.to_grand_entry(mus)
            wg = want - sum(m * Composition(st[1])[x] for x, m in mus.items())
            left = {str(k): v for k, v in Composition(st[1]).items() if k not in mus}
            c.check({str(k): v for k, v in g.composition.items()} == left, f"{key} open {els} composition", lambda: g.composition)
            if left:
                c.check(abs(g.energy - wg) < 1e-6 * max(1, abs(wg)), f"{key} open {els} energy", lambda: f"{g.energy} vs {wg}")
        if st[0] != "interp":
            c.check(e.temperature == t, f"{key} temperature", lambda: e.temperature)
            c.check(f"{t}" in str(e.unique_id) or f"{float(t)}" in str(e.unique_id), f"{key} unique id names the temperature", lambda: e.unique_id)
            c.check(e.data.get("k") == 1, f"{key} data kept")
        if st[0] == "gibbs":
            c.check(e.parameters.get("p") == 2, f"{key} parameters kept")
        c.check(e.is_experimental is (st[0] in CL), f"{key} is_experimental")

    def one(c, item):
        si, t0 = item
        st = STARTS[si]
        key = f"{st} @{t0}"
        if st[0] in CL and not ok(st, t0):
            return
        if not c.case(key):
            return
        with c.guard(key):
            e0 = build(st, t0)
            observe(c, key, e0, st, t0)
            frontier = [(e0, t0, key)]
            for d in range(depth):
                nxt = []
                for e, t, path in frontier:
                    for op in OPS:
                        if d and path.endswith(f">{op}"):
                            continue
                        p2 = f"{path}>{op}"
                        if op == "copy":
                            new, t2 = e.copy(), t
                        elif op == "json":
                            js = json.dumps(e.as_dict(), cls=MontyEncoder)
                            new, t2 = dec.process_decoded(json.loads(js)), t
                        elif st[0] in CL and not ok(st, op):
                            try:
                                e.get_new_temperature(op)
                                c.violation(f"{p2} accepted outside its table")
                            except ValueError:
                                c.step()
                            continue
                        else:
                            new, t2 = e.get_new_temperature(op), (op if st[0] != "interp" else t)
                        c.step()
                        c.check(type(new) is type(e) and new is not e, f"{p2} class")
                        observe(c, p2, new, st, t2)
                        if op in ("copy", "json"):
                            c.check(new == e and hash(new) == hash(e), f"{p2} equal to the original")
                        elif st[0] != "interp":
                            c.check((new == e) == (t2 == t) or float(t2) == float(t), f"{p2} equality tells temperatures apart")
                        nxt.append((new, t2, p2))
                    observe(c, f"{path} untouched", e, st, t)
                    c.trace()
                    c.state((si, t, d))
                frontier = nxt
            c.outcome(st[0])
            c.sample({"start": str(st), "path": frontier[-1][2]})

    ctx.pmap([(i, t) for i in range(len(STARTS)) for t in ((300, 450) if ctx.quick else TEMPS)], one)

    def table(c, item):
        kind, fs = item
        for f in fs:
            key = f"table {kind} {f}"
            if not c.case(key):
                continue
            comp = Composition(f)
            if comp.reduced_formula != f or "D" in comp:
                continue
            tab = TAB[kind][f]
            ks = sorted(float(k) for k in tab)
            with c.guard(key):
                for i, t in enumerate(ks):
                    e = CL[kind](comp, t)
                    c.check(abs(e.energy - tab[[k for k in tab if float(k) == t][0]]) < 1e-9, f"{key} at {t}")
                    if i + 1 < len(ks) and (not ctx.quick or i % 5 == 0):
                        for w in (0.25, 0.5):
                            tt = t + w * (ks[i + 1] - t)
                            e = CL[kind](comp, tt)
                            c.check(abs(e.energy - interp(tab, tt)) < 1e-6, f"{key} at {tt}", lambda: f"{e.energy} vs {interp(tab, tt)}")
                for t in (ks[0] - 1, ks[-1] + 0.5, ks[-1] + 100, ks[0] - 100):
                    try:
                        CL[kind](comp, t)
                        c.violation(f"{key} accepts {t} outside its table")
                    except ValueError:
                        pass
                c.trace()
                c.state(key)

    ctx.pmap([(k, sorted(TAB[k])[w::16]) for k in TAB for w in range(16)], table)

    # every mixture of temperatures in one set, brought to one temperature
    from rxn_network.entries.entry_set import GibbsEntrySet

    MIX = [STARTS[0], next(x for x in STARTS if x[1] == "O2"), next(x for x in STARTS if x[0] == "gibbs" and x[1] == "CO2" and x[4] == ("co2",)),
           next(x for x in STARTS if x[0] == "nist" and x[1] in ("H2O", "Al2O3", "Li2O")), STARTS[-1], next(x for x in STARTS if x[1] == "Li2CO3" and "temp" in x[4])]

    def mixed(c, ts):
        key = f"mixed {ts}"
        if not c.case(key):
            return
        with c.guard(key):
            for order in (1, -1):
                s = GibbsEntrySet([build(st, t) for st, t in zip(MIX, ts)][::order])
                before = sorted((e.composition.formula, round(float(e.energy), 9)) for e in s)
                for t in (300, 300.5, 700, 1000):
                    new = s.get_entries_with_new_temperature(t)
                    got = sorted((e.composition.formula, round(float(e.energy), 6)) for e in new)
                    want = sorted((Composition(st[1]).formula, round(float(model(st, t)), 6)) for st in MIX)
                    c.check(len(got) == len(want) and all(a[0] == b[0] and abs(a[1] - b[1]) < 1e-5 for a, b in zip(got, want)), f"{key} -> {t}", lambda: f"{got} vs {want}")
                    c.check(new.temperature == t, f"{key} -> {t} temperature", lambda: new.temperature)
                    c.check(new is not s and sorted((e.composition.formula, round(float(e.energy), 9)) for e in s) == before, f"{key} -> {t} leaves the set alone")
                    c.step()
                c.trace()
                c.state(key)

    ctx.pmap(list(product((300, 700), repeat=len(MIX))) + [(300, 300.5, 300, 700, 300, 300.5)], mixed)
    if ctx.case("withdrawn"):  # listed as withdrawn by NIST: known, with no energy of formation
        for t in (300, 777, 2000):
            e = NISTReferenceEntry(Composition("NaCO3"), t)
            ctx.check(e.energy == 0 and e.is_deprecated and "deprecated" in e.name and e.composition.reduced_formula == "NaCO3", f"withdrawn NaCO3 at {t} K")
            d = dec.process_decoded(json.loads(json.dumps(e.as_dict(), cls=MontyEncoder)))
            ctx.check(d == e and d.energy == 0, f"withdrawn NaCO3 at {t} K comes back")
        e = NISTReferenceEntry(Composition("Li2O"), 300)
        ctx.check(not e.is_deprecated and e.name == "Li2O", "Li2O is not withdrawn")
        ctx.state("withdrawn")
    if ctx.case("refused"):
        for t in (299.9, 299, 2000.1, 2100, 0, -300):
            for f in ("Li2O", "O2"):
                try:
                    GibbsComputedEntry(Composition(f), -1.0, 10.0, t)
                    ctx.violation(f"Gibbs entry of {f} accepts {t} K")
                except ValueError:
                    pass
            try:
                build(STARTS[0], 300).get_new_temperature(t)
                ctx.violation(f"get_new_temperature accepts {t} K")
            except ValueError:
                pass
        for cl in CL.values():
            try:
                cl(Composition("YMnO3Br"), 300)
                ctx.violation(f"{cl.__name__} accepts an untabulated compound")
            except ValueError:
                pass
        for t in range(300, 2001, 50):  # every temperature step on one compound, directly
            ctx.check(abs(build(STARTS[0], t).energy - model(STARTS[0], t)) < 1e-6, f"Li2O at {t} K")
