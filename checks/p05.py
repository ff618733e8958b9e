"""P05: repeated serialisation cycles of every serialisable class in every enumerated configuration."""
import copy
import json
import math
from itertools import combinations, product

import numpy as np
from monty.json import MontyDecoder, MontyEncoder

from vlib import net, uni

RULE = ("every object of the pools (reactions with every class/data/order variant; entries of every class, correction set and temperature; entry sets, reaction sets, pathway sets and pathways; "
        "cost functions, calculators, enumerators with every pair of non-default options; networks in every build stage; diagrams, hulls, solvers) through every sequence of the bounded length over "
        "{dict round trip, JSON round trip, decoder on the dict}, observed completely after each; dictionaries and originals compared before and after; and printing/parsing of every reaction over a coefficient grid")


def jrt(o):
    return MontyDecoder().process_decoded(json.loads(json.dumps(o.as_dict(), cls=MontyEncoder)))


TRIPS = {
    "dict": lambda o: type(o).from_dict(o.as_dict()),
    "json": jrt,
    "dec": lambda o: MontyDecoder().process_decoded(o.as_dict()),
}


def same(a, b, tol=1e-9):
    if isinstance(a, np.ndarray):
        a = a.tolist()
    if isinstance(b, np.ndarray):
        b = b.tolist()
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        return len(a) == len(b) and sorted(map(uni.crepr, a)) == sorted(map(uni.crepr, b))
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        return a is b or a == b
    if isinstance(a, (int, float, np.number)) and isinstance(b, (int, float, np.number)):
        return a == b or (math.isnan(a) and math.isnan(b)) or abs(a - b) <= tol * max(1, abs(a))
    return a == b


def plain(x):
    """Deep plain-python picture of a (serialised) structure, for before/after comparison."""
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, np.ndarray):
        return plain(x.tolist())
    if isinstance(x, (set, frozenset)):
        return sorted(repr(v) for v in x)
    return repr(x)


# ---------------------------------------------------------------- observers
def o_entry(e):
    out = {"type": type(e).__name__, "comp": dict(e.composition.as_dict()), "energy": float(e.energy), "id": str(e.entry_id), "temp": getattr(e, "temperature", None),
           "adj": [(a.name, float(a.value), float(a.uncertainty), a.description) for a in e.energy_adjustments], "data": dict(e.data), "uid": str(getattr(e, "unique_id", None)),
           "exp": e.is_experimental, "unc": float(e.correction_uncertainty)}
    if type(e).__name__ in ("GibbsComputedEntry", "InterpolatedEntry"):
        out["par"] = dict(e.parameters)
    return out


def o_rxn(r):
    out = {"type": type(r).__name__, "comps": [c.formula for c in r.compositions], "coef": [float(c) for c in r.coefficients], "data": dict(r.data or {}),
           "err": float(r.lowest_num_errors), "bal": bool(r.balanced), "str": str(r), "sys": r.chemical_system}
    if hasattr(r, "entries"):
        out["ents"] = [o_entry(e) for e in r.entries]
        out["energy"] = float(r.energy)
        out["epa"] = float(r.energy_per_atom)
    if hasattr(r, "chempots"):
        out["mu"] = {str(k): float(v) for k, v in r.chempots.items()}
    return out


def o_set(s):
    return {"n": len(s), "ents": sorted((o_entry(e) for e in s), key=lambda d: (d["id"], d["energy"])), "flags": (s.calculate_e_above_hulls, s.minimize_obj_size), "sys": sorted(s.chemsys)}


def o_rset(s):
    return {"rxns": [o_rxn(r) for r in s], "n": len(s), "open": str(s.open_elem) if s.open_elem else None, "mu": s.chempot if s.open_elem else 0,
            "ents": sorted((o_entry(e) for e in s.entries), key=lambda d: (d["id"], d["energy"]))}


def o_path(p):
    out = {"type": type(p).__name__, "rxns": [o_rxn(r) for r in p.reactions], "costs": [float(c) for c in p.costs], "str": str(p)}
    if hasattr(p, "coefficients"):
        out["coef"] = [float(c) for c in p.coefficients]
        out["bal"] = p.balanced
        out["avg"] = float(p.average_cost)
    return out


def o_pset(s):
    return {"n": len(s), "paths": [o_path(p) for p in s.paths]}


def o_net(n):
    d = {"rxns": o_rset(n.rxns), "pre": sorted(str(e.entry_id) for e in n.precursors) if n.precursors else None, "tgt": str(n.target.entry_id) if n.target else None,
         "chem": n.chemsys, "cost": vars_of(n.cost_function)}
    if n.graph is None:
        d["graph"] = None
    else:
        nodes, edges = net.actual(n.graph)
        d["graph"] = (sorted(map(uni.crepr, nodes)), sorted(map(uni.crepr, edges)))
    return d


def vars_of(o):
    return {k: (plain(v) if isinstance(v, (list, tuple, dict, set)) else v if isinstance(v, (int, float, bool, str, type(None))) else repr(v)) for k, v in vars(o).items()}


def run(ctx):
    from pymatgen.core import Element
    from pymatgen.entries.computed_entries import ConstantEnergyAdjustment, TemperatureEnergyAdjustment
    from rxn_network.core import Composition
    from rxn_network.costs.calculators import ChempotDistanceCalculator, PrimaryCompetitionCalculator, SecondaryCompetitionCalculator
    from rxn_network.costs.functions import Softplus, WeightedSum
    from rxn_network.entries.corrections import CarbonateCorrection, CarbonDioxideAtmosphericCorrection
    from rxn_network.entries.entry_set import GibbsEntrySet
    from rxn_network.entries.freed import FREEDReferenceEntry
    from rxn_network.entries.gibbs import GibbsComputedEntry
    from rxn_network.entries.nist import NISTReferenceEntry
    from rxn_network.enumerators.basic import BasicEnumerator, BasicOpenEnumerator
    from rxn_network.enumerators.minimize import MinimizeGibbsEnumerator, MinimizeGrandPotentialEnumerator
    from rxn_network.network.entry import DummyEntry, NetworkEntry, NetworkEntryType
    from rxn_network.network.network import ReactionNetwork
    from rxn_network.pathways.balanced import BalancedPathway
    from rxn_network.pathways.basic import BasicPathway
    from rxn_network.pathways.pathway_set import PathwaySet
    from rxn_network.pathways.solver import PathwaySolver
    from rxn_network.reactions.basic import BasicReaction
    from rxn_network.reactions.computed import ComputedReaction
    from rxn_network.reactions.hull import InterfaceReactionHull
    from rxn_network.reactions.open import OpenComputedReaction
    from rxn_network.reactions.reaction_set import ReactionSet
    from rxn_network.thermo.chempot_diagram import ChemicalPotentialDiagram

    O, Mn = Element("O"), Element("Mn")
    POOL = []  # (label, builder, observer)

    def add(label, build, obs):
        POOL.append((label, build, obs))

    # ---- entries
    def mk_adjs(f, ks, t):
        n = Composition(f).num_atoms
        m = {"const": lambda: ConstantEnergyAdjustment(-0.123, 0.01, "shift", description="d"), "temp": lambda: TemperatureEnergyAdjustment(2e-5, t, n, name="tt"),
             "carb": lambda: CarbonateCorrection(Composition(f)["C"]), "co2": lambda: CarbonDioxideAtmosphericCorrection(n, t)}
        return [m[k]() for k in ks]

    datas = [{}, {"theoretical": False, "x": [1, 2.5, "s", None]}, {"icsd_ids": [1], "oxidation_states": {"Mn": 3.0}, "e_above_hull": 0.0}]
    for f in ("Li2O", "Li4O2", "Mn", "Li2CO3", "Li4C2O6", "C2O4", "Li0.5MnO2"):
        for ks in ((), ("const",), ("temp", "const"), ("carb",), ("co2",), ("co2", "const")):
            if ("carb" in ks and "CO" not in f and "C2O6" not in f) or ("co2" in ks and f != "C2O4"):
                continue
            for t in (300, 850.5):
                for di, dat in enumerate(datas):
                    add(f"gibbs {f} {ks} {t} d{di}", lambda f=f, ks=ks, t=t, dat=dat: GibbsComputedEntry(Composition(f), -1.7, 11.3, t, energy_adjustments=mk_adjs(f, ks, t), entry_id="mp-1",
                                                                                                         parameters={"run_type": "GGA"}, data=copy.deepcopy(dat)), o_entry)
                    add(f"interp {f} {ks} d{di}", lambda f=f, ks=ks, t=t, dat=dat: uni.ient(f, -1.4, "interp-1", energy_adjustments=mk_adjs(f, ks, t), data=copy.deepcopy(dat)), o_entry)
    add("gibbs no id", lambda: GibbsComputedEntry(Composition("Li2O"), -1.7, 11.3, 400), o_entry)
    for cl, fs in ((NISTReferenceEntry, ("CO2", "C2O4", "Li2CO3", "Al2O3")), (FREEDReferenceEntry, ("CO2", "Li2O", "H4O2", "MnO"))):
        for f, t, dat in product(fs, (300, 444.5, 1000), datas):
            for ks in ((), ("const",)) + ((("co2",),) if f in ("CO2", "C2O4") else ()):
                add(f"{cl.__name__} {f} {t} {ks} {len(dat)}", lambda cl=cl, f=f, t=t, dat=dat, ks=ks: cl(Composition(f), t, energy_adjustments=mk_adjs(f, ks, t) or None, data=copy.deepcopy(dat)), o_entry)

    # ---- entry sets
    E = net.entries()
    mixed = [uni.ient("Mn", 0.0, "Mn"), uni.ient("O2", 0.0, "O2"), uni.ient("Mn2O3", -1.95, "a"), uni.gent("Mn4O6", -1.97, eid="b"), uni.gent("MnO", -1.9, eid="m1"), FREEDReferenceEntry(Composition("MnO2"), 300)]
    for k in range(0, len(mixed) - 1):
        for sub in combinations(range(2, len(mixed)), k):
            for fl in product((False, True), repeat=2):
                add(f"entry set {sub} {fl}", lambda sub=sub, fl=fl: GibbsEntrySet([e.copy() for e in mixed[:2]] + [mixed[i].copy() for i in sub], *fl), o_set)

    # ---- reactions
    R = net.reactions(E)
    dats = [None, {"x": 1, "f": 0.25}, {"num_constraints": 2, "l": [1, 2], "n": None, "d": {"a": 1.5}}]
    for i, r in enumerate(R):
        for di, dat in enumerate(dats):
            for mode in ("plain", "rev", "norm", "scaled"):
                def mk(i=i, dat=dat, mode=mode, mu=None):
                    b = net.reactions(E)[i]
                    cf = list(b.coefficients)
                    if mode == "scaled":
                        cf = [c / 3 for c in cf]
                    if mu is None:
                        x = ComputedReaction(list(b.entries), cf, data=copy.deepcopy(dat), lowest_num_errors=(1 if mode == "scaled" else 0))
                    else:
                        x = OpenComputedReaction(list(b.entries), cf, mu, data=copy.deepcopy(dat), lowest_num_errors=(1 if mode == "scaled" else 0))
                    return x.reverse() if mode == "rev" else x.normalize_to(x.compositions[-1], 0.7) if mode == "norm" else x
                add(f"rxn {i} d{di} {mode}", mk, o_rxn)
                for mi, mu in enumerate(({O: 0.0}, {O: -1.25}, {O: -0.5, Mn: -0.25})):
                    if i in (0, 4, 8) or di == 0:
                        add(f"open rxn {i} d{di} {mode} mu{mi}", lambda mk=mk, mu=mu: mk(mu=mu), o_rxn)
                add(f"basic rxn {i} d{di} {mode}", lambda i=i, dat=dat, mode=mode: BasicReaction(net.reactions(E)[i].compositions, [c * (-1 if mode == "rev" else 1) for c in net.reactions(E)[i].coefficients],
                    balanced=(None, True, False)[i % 3], data=copy.deepcopy(dat), lowest_num_errors=(2 if mode == "norm" else 0)), o_rxn)
    add("unbalanced", lambda: BasicReaction.balance([Composition("MnO")], [Composition("Y2O3")]), o_rxn)

    # ---- reaction sets
    idx = range(len(R))
    for k in (0, 1, 2) + (() if ctx.quick else (3,)):
        for sub in combinations(idx, k):
            for oi, (oe, mu) in enumerate(((None, 0.0), (O, -1.1), ("O", 0.0))):
                if k == 0 and oe:
                    continue
                if k >= 2 and (sum(sub) + oi) % 3 and ctx.quick:
                    continue
                add(f"rxn set {sub} {oe} {mu}", lambda sub=sub, oe=oe, mu=mu: ReactionSet.from_rxns(net.reactions(E, sub), entries=list(E.values()) if len(sub) != 1 else None, open_elem=oe, chempot=mu), o_rset)
    add("rxn set all", lambda: ReactionSet.from_rxns(net.reactions(E)), o_rset)
    add("rxn set all open", lambda: ReactionSet.from_rxns(net.reactions(E), open_elem="O", chempot=-0.7), o_rset)

    # ---- pathways
    def paths(kind, sub, mu=None):
        rx = net.reactions(E, sub)
        if mu is not None:
            rx = [OpenComputedReaction.from_computed_rxn(r, mu) for r in rx]
        cs = [0.1 * (i + 1) for i in range(len(rx))]
        return BasicPathway(rx, cs) if kind == "basic" else BalancedPathway(rx, [0.5 + i for i in range(len(rx))] if kind == "bal" else np.array([0.5 + i for i in range(len(rx))]), cs, balanced=kind == "bal")

    subs = [s for k in (1, 2) for s in combinations((0, 1, 2, 4, 5, 9, 10), k)] + [(5, 1, 0), (2, 0, 8)]
    for s in subs:
        for kind in ("basic", "bal", "balnp"):
            for mu in (None, {O: -0.6}):
                add(f"path {kind} {s} {mu}", lambda kind=kind, s=s, mu=mu: paths(kind, s, mu), o_path)
                s2 = subs[(subs.index(s) * 5 + 3) % len(subs)]
                add(f"path set {kind} {s}+{s2} {mu}", lambda kind=kind, s=s, s2=s2, mu=mu: PathwaySet.from_paths([paths(kind, s, mu), paths("bal", s2, mu), paths("basic", s, mu)]), o_pset)
    add("path set empty", lambda: PathwaySet.from_paths([]), o_pset)

    # ---- cost functions and calculators
    def o_cost(c):
        rx = [ComputedReaction(list(r.entries), list(r.coefficients), data={"a": 0.25 * i, "b": -0.1 * i}) for i, r in enumerate(net.reactions(E))]
        return {"type": type(c).__name__, "vars": vars_of(c), "vals": [float(c.evaluate(r)) for r in rx]}

    PS = [["energy_per_atom"], ["energy_per_atom", "a"], ["b", "a", "energy_per_atom"], ["energy"]]
    for temp, ps in product((300, 1000.5, 2000), PS):
        w = [0.5, -0.25, 0.1][: len(ps)]
        add(f"softplus {temp} {ps}", lambda temp=temp, ps=ps, w=w: Softplus(temp, list(ps), list(w)), o_cost)
        add(f"wsum {temp} {ps}", lambda ps=ps, w=w: WeightedSum(list(ps), list(w)), o_cost)
    add("softplus default", Softplus, o_cost)
    mno = [E[k] for k in ("MnO", "O2", "Mn2O3", "MnO2", "Mn3O4")] + [uni.ient("Mn", 0.0, "Mn"), uni.ient("MnO3", -1.0, "MnO3")]

    def o_calc(c):
        return {"name": c.name, "vals": [float(c.calculate(r)) for r in net.reactions(E, (0, 2, 3, 7))]}

    for mu in ("sum", "mean", "max", min, np.median):
        for nm in ("chempot_distance", "cd2"):
            add(f"chempot calc {mu} {nm}", lambda mu=mu, nm=nm: ChempotDistanceCalculator.from_entries(mno, mu, nm, default_min_limit=-50.0), o_calc)

    def o_cpd(d):
        return {"dom": {k: sorted(np.round(v, 6).tolist()) for k, v in d.domains.items()}, "lim": {str(k): v for k, v in (d.limits or {}).items()}, "def": d.default_min_limit}

    for lim in (-40.0, -100.0):
        add(f"cpd {lim}", lambda lim=lim: ChemicalPotentialDiagram(mno, default_min_limit=lim), o_cpd)

    # ---- enumerators
    def o_enum(e):
        return {"type": type(e).__name__, "vars": vars_of(e)}

    B = {"precursors": ["MnO", "O2"], "targets": ["Mn2O3"], "exclusive_precursors": False, "exclusive_targets": True, "filter_duplicates": True, "filter_by_chemsys": "Mn-O", "chunk_size": 17,
         "max_num_jobs": 3, "remove_unbalanced": False, "remove_changed": False, "max_num_constraints": 3, "quiet": True}
    CL = {"basic": (BasicEnumerator, {}, {"n": 3}), "open": (BasicOpenEnumerator, {"open_phases": ["O2"]}, {"n": 1}), "gibbs": (MinimizeGibbsEnumerator, {}, {}),
          "grand": (MinimizeGrandPotentialEnumerator, {"open_elem": O, "mu": -0.75}, {})}
    for nm, (cl, req, extra) in CL.items():
        opts = {**B, **extra}
        if nm == "open":
            opts.pop("filter_duplicates", None) if "filter_duplicates" not in cl.__init__.__code__.co_varnames else None
        opts = {k: v for k, v in opts.items() if k in cl.__init__.__code__.co_varnames}
        for k in (0, 1, 2) if ctx.quick else (0, 1, 2, 3, len(opts)):
            for sub in combinations(sorted(opts), k):
                add(f"enum {nm} {sub}", lambda cl=cl, req=req, opts=opts, sub=sub: cl(**copy.deepcopy(req), **{k: copy.deepcopy(opts[k]) for k in sub}), o_enum)

    # ---- networks, nodes, hulls, solvers
    for sub in ((0, 1), (0, 1, 2, 3, 7), tuple(idx)):
        for stage in ("new", "built", "pre", "pre+tgt", "tgt"):
            def mkn(sub=sub, stage=stage):
                n = ReactionNetwork(ReactionSet.from_rxns(net.reactions(E, sub)), Softplus(700, ["energy_per_atom"], [0.9]))
                if stage != "new":
                    n.build()
                if "pre" in stage:
                    n.set_precursors([E["MnO"], E["O2"]])
                if "tgt" in stage:
                    n.set_target(E["YMnO3"])
                return n
            add(f"network {sub} {stage}", mkn, o_net)
    for k in (1, 2, 3):
        for sub in combinations(("MnO", "O2", "Mn2O3", "Mn2O3b"), k):
            for ty in NetworkEntryType:
                add(f"node {sub} {ty}", lambda sub=sub, ty=ty: NetworkEntry([E[x] for x in sub], ty), lambda n: (n.description.name, sorted(str(e.entry_id) for e in n.entries), n.chemsys, n.dim, str(n)))
    add("node dummy", DummyEntry, lambda n: (n.description.name, len(n.entries), len(n.elements), n.chemsys, n.dim, str(n)))

    def o_hull(h):
        return {"c": (h.c1.formula, h.c2.formula), "rx": [o_rxn(r) for r in h.reactions], "x": [h.get_coordinate(r) for r in h.reactions], "e": [float(h.get_energy_above_hull(r)) for r in h.reactions],
                "st": [str(r) for r in h.stable_reactions]}

    def hull_rxns():
        A, B = E["MnO"], E["O2"]
        mk = lambda a, b, p, c: ComputedReaction([A, B, E[p]], [-a, -b, c])
        return [ComputedReaction([A, A], [-1, 1]), ComputedReaction([B, B], [-1, 1]), mk(2, 0.5, "Mn2O3", 1), mk(1, 0.5, "MnO2", 1), mk(3, 0.5, "Mn3O4", 1)]

    for sub in [s for k in range(1, 4) for s in combinations((2, 3, 4), k)]:
        add(f"hull no endpoints {sub}", lambda sub=sub: InterfaceReactionHull(Composition("MnO"), Composition("O2"), [hull_rxns()[i] for i in sub]), o_hull)
        add(f"hull {sub}", lambda sub=sub: InterfaceReactionHull(Composition("MnO"), Composition("O2"), [hull_rxns()[i] for i in (0, 1, *sub)]), o_hull)
        add(f"c1 {sub}", lambda sub=sub: PrimaryCompetitionCalculator(InterfaceReactionHull(Composition("MnO"), Composition("O2"), [hull_rxns()[i] for i in (0, 1, *sub)]), "nm"),
            lambda c: (c.name, [float(c.calculate(r)) for r in c.irh.reactions[2:]]))
        add(f"c2 {sub}", lambda sub=sub: SecondaryCompetitionCalculator(InterfaceReactionHull(Composition("MnO"), Composition("O2"), [hull_rxns()[i] for i in (0, 1, *sub)]), "nm2"),
            lambda c: (c.name, [float(c.calculate(r)) for r in c.irh.reactions[2:]]))
    for oe, mu, cs, bs in product((None, "O"), (0.0, -0.5), (100, 100000), (None, 2)):
        add(f"solver {oe} {mu} {cs} {bs}", lambda oe=oe, mu=mu, cs=cs, bs=bs: PathwaySolver(PathwaySet.from_paths([paths("basic", (0, 1)), paths("basic", (8,))]), GibbsEntrySet(E.values()), Softplus(400), oe, mu, cs, bs),
            lambda s: (o_pset(s.pathways), str(s.open_elem), s.chempot, s.chunk_size, s.batch_size, o_cost(s.cost_function), [o_rxn(r) for r in s.reactions], list(map(float, s.costs)), o_set(s.entries)))

    depth = 2 if ctx.quick else 4

    def one(c, item):
        label, build, obs = item
        if not c.case(label):
            return
        with c.guard(label), uni.quiet():
            x = build()
            want = obs(x)
            # the dictionary: stable, not consumed, reusable
            d = x.as_dict()
            c.check(same(obs(x), want), f"{label} as_dict changed the object")
            before = plain(d)
            y1 = type(x).from_dict(d)
            c.check(plain(d) == before, f"{label} from_dict changed the dictionary")
            y2 = type(x).from_dict(d)
            c.check(plain(d) == before, f"{label} from_dict changed the dictionary")
            for y in (y1, y2):
                c.check(same(obs(y), want), f"{label} from_dict content", lambda: f"{obs(y)}\n{want}")
            frontier = [(x, label)]
            for _ in range(depth):
                nxt = []
                for o, path in frontier:
                    for k, f in TRIPS.items():
                        y = f(o)
                        c.step()
                        p = f"{path}>{k}"
                        c.check(type(y) is type(x), f"{p} class")
                        got = obs(y)
                        if not c.check(same(got, want), f"{p} content", lambda: f"{got}\n{want}"):
                            continue
                        if type(x).__eq__ is not object.__eq__:
                            c.check(y == x and x == y, f"{p} equal to the original")
                            if type(x).__hash__ is not None and type(x).__name__.endswith("Entry") or type(x).__name__.endswith("Reaction"):
                                c.check(hash(y) == hash(x), f"{p} hash")
                        nxt.append((y, p))
                c.check(same(obs(x), want), f"{label} original changed")
                frontier = nxt[: 3 if ctx.quick else 9]
            c.state(label)
            c.trace()
            c.outcome(type(x).__name__)
            c.sample({"object": label})

    ctx.pmap(POOL, one)

    # ---- enumerators behave the same after a round trip
    from vlib import fakeray

    small = GibbsEntrySet([E[k] for k in ("MnO", "O2", "Mn2O3", "MnO2", "Mn3O4")] + [uni.ient("Mn", 0.0, "Mn")])

    def behave(c, item):
        nm, ks = item
        cl, req, extra = CL[nm]
        key = f"enumerate {nm} {ks}"
        if not c.case(key):
            return
        with c.guard(key), uni.quiet():
            e = cl(**copy.deepcopy(req), **{k: ({**B, **extra})[k] for k in ks}, quiet=True)
            outs = []
            for o in (e, jrt(e), TRIPS["dict"](jrt(e))):
                fakeray.reset(cpus=3)
                outs.append(sorted(repr(net.rk(r)) for r in o.enumerate(small)))
            c.check(outs[0] == outs[1] == outs[2], f"{key} reactions differ after round trip", lambda: f"{[len(o) for o in outs]}")
            c.state(key)
            c.trace()

    opts = ["precursors", "targets", "exclusive_precursors", "exclusive_targets", "filter_by_chemsys", "filter_duplicates"]
    ctx.pmap([(nm, ks) for nm in CL for k in (0, 1, 2) for ks in combinations(opts, k) if all(x in CL[nm][0].__init__.__code__.co_varnames for x in ks)
              and (not ctx.quick or nm in ("basic", "grand") or k < 2)], behave)

    # ---- printing and parsing
    GRID = [1, 2, 0.5, 0.25, 3, 1.5, 0.3333, 12, 99.5, 123.4, 1234, 0.001, 1e-4, 2.5e-5, 9999, 1e4, 20000, 1.25e5, 3e6]
    SHAPES = [(("MnO", "O2"), ("Mn2O3",)), (("Li2CO3", "Mn4O6"), ("LiMnO2", "CO2")), (("Ca(OH)2",), ("CaO", "H2O")), (("Li0.5MnO2", "O2"), ("LiMn2O4",)), (("C", "O2", "H2O"), ("CH2O3",)), (("E2O3".replace("E", "Er"), "Na"), ("ErO", "Na2O2"))]

    def parse(c, item):
        (rs, ps), a = item
        for b in GRID if not ctx.quick else GRID[::2] + [1e4]:
            for z in GRID[:: (5 if ctx.quick else 1)]:
                key = f"print {rs}->{ps} {a} {b} {z}"
                if not c.case(key):
                    continue
                cf = ([-a, -b, -z][: len(rs)] + [z, a, b][: len(ps)])
                with c.guard(key):
                    comps = [Composition(f) for f in rs + ps]
                    r = BasicReaction(comps, cf, balanced=True)
                    want = {}
                    for cm, x in zip(comps, cf):
                        red, k = cm.get_reduced_composition_and_factor()
                        want[red] = x * k
                    for y in (BasicReaction.from_string(str(r)), BasicReaction.from_string(repr(r)), BasicReaction.from_string(str(BasicReaction.from_string(str(r))))):
                        got = {}
                        for cm, x in zip(y.compositions, y.coefficients):
                            red, k = cm.get_reduced_composition_and_factor()
                            got[red] = got.get(red, 0) + x * k
                        ok = set(got) == set(want) and all(abs(got[k] - want[k]) <= 6e-4 * abs(want[k]) for k in want)
                        c.check(ok, f"{key} parsed", lambda: f"{r} -> {y}: {got} {want}")
                    c.trace()
                    c.state(key)

    ctx.pmap([(s, a) for s in SHAPES for a in GRID], parse)
