"""P30: tables of reaction sets vs a per-reaction reference."""
import math
from itertools import combinations, permutations, product

from vlib import enum_model as em
from vlib import exact, uni

RULE = ("every subset (up to 3, thorough 4) of two reaction pools (closed / open, 2-4 phases, carbonates, supercells, polymorphs, uncertain energies, hull and provenance data, extra data) x target "
        "(none, string, composition, supercell) x uncertainty x separability x cost function; every sequence of 2 (thorough 3) calls with different arguments, with the returned table or the cost "
        "function altered in between; oracle: direct evaluation of every reaction")
ASSUMPTIONS = ["all reactions of a set carry the same extra data keys (the columns are taken from the first reaction, as documented in the code)", "a requested target is a product of every reaction when separability is requested"]

GASES = {"CO2", "O2", "H2O", "CO", "N2", "HCl", "H2"}


def run(ctx):
    import numpy as np
    from pymatgen.core import Element
    from pymatgen.entries.computed_entries import ConstantEnergyAdjustment

    from rxn_network.core import Composition
    from rxn_network.costs.functions import Softplus, WeightedSum
    from rxn_network.reactions.computed import ComputedReaction
    from rxn_network.reactions.open import OpenComputedReaction
    from rxn_network.reactions.reaction_set import ReactionSet

    def adj(u):
        return [ConstantEnergyAdjustment(0.05, uncertainty=u, name="test")]

    E = {
        "BaO": uni.gent("Ba2O2", -2.8, eid="BaO", energy_adjustments=adj(0.03), data={"e_above_hull": 0.0, "theoretical": False}),
        "BaOb": uni.gent("BaO", -2.6, eid="BaOb", data={"e_above_hull": 0.2, "theoretical": True}),
        "BaO2": uni.gent("BaO2", -2.2, eid="BaO2", energy_adjustments=adj(0.1), data={"e_above_hull": 0.01, "theoretical": True}),
        "TiO2": uni.gent("TiO2", -3.25, eid="TiO2", energy_adjustments=adj(0.02), data={"e_above_hull": 0.0, "icsd_ids": [1]}),
        "BaCO3": uni.gent("BaCO3", -2.5, eid="BaCO3", data={"e_above_hull": 0.03, "icsd_ids": []}),
        "BaTiO3": uni.gent("Ba2Ti2O6", -3.3, eid="BaTiO3", energy_adjustments=adj(0.04), data={"e_above_hull": None, "theoretical": False}),
        "Ba2TiO4": uni.gent("Ba2TiO4", -3.14, eid="Ba2TiO4", data={"e_above_hull": 0.07, "theoretical": True}),
        "CO2": uni.gent("CO2", -1.37, eid="CO2", data={"e_above_hull": 0.0, "icsd_ids": [3, 4]}),
        "O2": uni.gent("O2", 0.0, eid="O2", data={"e_above_hull": 0.0}),
        "TiC": uni.gent("TiC", -0.9, eid="TiC", data={"e_above_hull": 0.0, "theoretical": False}),
        "NaTiO2": uni.ient("NaTiO2", -2.9, "NaTiO2"), "BaCl2": uni.ient("BaCl2", -2.95, "BaCl2"), "NaCl": uni.ient("NaCl", -2.1, "NaCl"),
        "BaTiO3i": uni.ient("BaTiO3", -3.2, "BaTiO3i"), "BaOi": uni.ient("BaO", -2.8, "BaOi"), "TiO2i": uni.ient("TiO2", -3.2, "TiO2i"),
        "Na2TiO3": uni.ient("Na2TiO3", -2.5, "Na2TiO3"), "O2i": uni.ient("O2", 0.0, "O2i"), "Na2O": uni.ient("Na2O", -1.4, "Na2O"),
    }
    R = {
        "gibbs": [("BaO TiO2", "BaTiO3"), ("BaOb TiO2", "BaTiO3"), ("BaCO3 TiO2", "BaTiO3 CO2"), ("BaO2 TiO2", "BaTiO3 O2"), ("BaO Ba2TiO4 TiO2", "BaTiO3"), ("BaTiO3 BaO", "Ba2TiO4"),
                  ("BaO TiC O2", "BaTiO3 CO2"), ("BaO BaCO3 TiO2", "Ba2TiO4 CO2"), ("BaO2 TiC O2", "BaTiO3 CO2"), ("BaO O2", "BaO2"), ("BaO", "BaO2")],
        "exch": [("BaOi TiO2i", "BaTiO3i"), ("BaCl2 Na2TiO3", "BaTiO3i NaCl"), ("BaOi BaCl2 Na2TiO3 TiO2i", "BaTiO3i NaCl"), ("BaCl2 NaTiO2 O2i", "BaTiO3i NaCl TiO2i"), ("BaOi Na2TiO3", "BaTiO3i Na2O"),
                 ("BaCl2 Na2O TiO2i", "BaTiO3i NaCl")],
    }

    def mk(pool, i, mode, data):
        rs, ps = (s.split() for s in R[pool][i])
        es = [E[x] for x in rs + ps]
        free = {"O"} if mode == "open" and i == 10 else set()  # oxygen only from the reservoir
        ns = exact.nullspace(em.rows([{k: x for k, x in em.comp(e).items() if k not in free} for e in es]), len(es))
        if not ns:
            return None
        v = None
        for a, b in ((1, 0), (1, 1), (2, 1), (1, 2)):  # a positive combination when underdetermined
            for cand in ([ns[0]] if len(ns) == 1 else [[a * x + b * y for x, y in zip(ns[0], ns[1])]]):
                for s in (1, -1):
                    w = [s * x for x in cand]
                    if all(x < 0 for x in w[: len(rs)]) and all(x > 0 for x in w[len(rs):]):
                        v = w
        if v is None:
            return None
        k = (1, 3, 0.5)[i % 3]
        co = [float(x) * k / float(max(abs(y) for y in v)) for x in v]
        if mode == "open":
            return OpenComputedReaction(es, co, {Element("O"): -0.3}, data=data), v
        return ComputedReaction(es, co, data=data), v

    def ref(rxn, target, cf, mode):
        """Reference row from the reaction's entries and coefficients."""
        g = u2 = n = 0.0
        best = {}
        els = set()
        for e in rxn.entries:
            c = em.comp(e)
            els |= set(c)
        for e, k in zip(rxn.entries, rxn.coefficients):
            c = em.comp(e)
            nf = float(sum(c.values()))
            f = e.composition.num_atoms / nf
            u = e.correction_uncertainty
            u = 0.0 if math.isnan(u) else u
            en = e.energy / f
            u2 += (k * u / f) ** 2
            no = float(c.get("O", 0)) if mode == "open" else 0.0
            g += k * (en + 0.3 * no if mode == "open" and set(c) != {"O"} else en)  # the reservoir itself has no grand potential
            if k > 0:
                n += k * (nf - no)
        row = {"energy": g / n}
        row["dE"] = math.sqrt(u2) / n
        row["cost"] = cf(row["energy"])
        rx = [(e, k) for e, k in zip(rxn.entries, rxn.coefficients)]
        rea, pro = [e for e, k in rx if k < 0], [e for e, k in rx if k > 0]
        row["max_num_precursor_elems"] = max(len(em.comp(e)) for e in rea)
        hull = lambda e: (getattr(e, "data", None) or {}).get("e_above_hull") or 0.0  # noqa: E731
        row["max_e_hull_reactants"], row["max_e_hull_products"] = max(map(hull, rea)), max(map(hull, pro))

        def theo(e):
            d = e.data or {}
            if "theoretical" in d:
                return bool(d["theoretical"])
            return not d.get("icsd_ids")

        row["num_theoretical_reactants"], row["num_theoretical_products"] = sum(map(theo, rea)), sum(map(theo, pro))
        if target is not None:
            tc = {str(x) for x in Composition(target).elements}
            row["added_elems"] = "-".join(sorted(els - tc))
            by = [e for e in pro if e.composition.reduced_formula != Composition(target).reduced_formula]
            row["separable"] = all(e.composition.reduced_formula in GASES or set(em.comp(e)) <= els - tc for e in by)
        return row

    CF = {
        "soft": (lambda: Softplus(800), lambda x: math.log1p(273 / 800 * math.exp(x))),
        "sum": (lambda: WeightedSum(["energy_per_atom"], [-2.0]), lambda x: -2 * x),
    }

    def compare(c, key, df, rows, rxns, args, data_keys):
        want = ["rxn", "energy", "max_num_precursor_elems", "cost", *data_keys]
        if args["calculate_uncertainties"]:
            want.append("dE")
        if args["target"] is not None:
            want += ["added_elems"] + (["separable"] if args["calculate_separable"] else [])
        opt = {"max_e_hull_reactants", "max_e_hull_products", "num_theoretical_reactants", "num_theoretical_products"}
        ents = [e for r in rxns for e in r.entries]
        if rxns and all((getattr(e, "data", None) or {}).get("e_above_hull") is not None for e in ents):  # known for every phase
            want += ["max_e_hull_reactants", "max_e_hull_products"]
        if rxns and all({"theoretical", "icsd_ids"} & set(getattr(e, "data", None) or {}) for e in ents):
            want += ["num_theoretical_reactants", "num_theoretical_products"]
        left_out = set()  # known for no phase at all
        if not any((getattr(e, "data", None) or {}).get("e_above_hull") is not None for e in ents):
            left_out |= {"max_e_hull_reactants", "max_e_hull_products"}
        if not any({"theoretical", "icsd_ids"} & set(getattr(e, "data", None) or {}) for e in ents):
            left_out |= {"num_theoretical_reactants", "num_theoretical_products"}
        c.check(set(want) <= set(df.columns) <= (set(want) | opt) - left_out, f"{key}: columns", lambda: f"{list(df.columns)} vs {want}")
        if not c.check(len(df) == len(rows), f"{key}: number of rows", lambda: f"{len(df)} vs {len(rows)}"):
            return
        c.check(all(a <= b + 1e-12 for a, b in zip(df["cost"], list(df["cost"])[1:])), f"{key}: sorted by cost", lambda: list(df["cost"]))
        c.check(list(df.index) == list(range(len(rows))), f"{key}: row labels", lambda: list(df.index))
        left = list(range(len(rows)))
        for _, got in df.iterrows():
            hit = next((i for i in left if uni.rkey_ent(got["rxn"]) == uni.rkey_ent(rxns[i]) and type(got["rxn"]) is type(rxns[i])
                        and all(got["rxn"].data.get(k) == rxns[i].data.get(k) for k in data_keys)), None)
            if not c.check(hit is not None, f"{key}: row is a reaction of the set", lambda: str(got["rxn"])):
                continue
            left.remove(hit)
            for k in sorted({*want, *(opt & set(df.columns))}):
                if k == "rxn":
                    continue
                exp = rxns[hit].data.get(k) if k in data_keys else rows[hit][k]
                v = got[k]
                ok = abs(v - exp) < 1e-6 if isinstance(exp, float) else (v == exp or (exp is None and v is None))
                c.check(ok, f"{key}: {k} of {rxns[hit]}", lambda: f"{v} vs {exp}")

    DATA = [lambda i: None, lambda i: {"num_constraints": 1, "score": 0.5 * i, "tag": f"t{i}"}]

    def one(c, item):
        pool, mode, sub, dk, tg = item
        key = f"{pool} {mode} {sub} data{dk} target {tg}"
        if not c.case(key):
            return
        with c.guard(key):
            rxns = [mk(pool, i, mode, DATA[dk](i))[0] for i in sub]
            rs = ReactionSet.from_rxns(rxns)
            data_keys = [k for k in (rxns[0].data or {}) if k != "num_constraints"]
            for un, sep, cf in product((False, True), (False, True), CF):
                T = {None: None, "str": "BaTiO3", "comp": Composition("BaTiO3"), "super": Composition("Ba4Ti4O12"), "ba2": "Ba2TiO4", "noO": "TiC" if pool == "gibbs" else Composition("NaCl")}[tg]
                if sep and T is not None and any(Composition(T).reduced_formula not in {e.composition.reduced_formula for e in r.product_entries} for r in rxns):
                    continue
                args = {"target": T, "calculate_uncertainties": un, "calculate_separable": sep}
                rows = [ref(r, T, CF[cf][1], mode) for r in rxns]
                df = rs.to_dataframe(CF[cf][0](), **args)
                compare(c, f"{key} {un} {sep} {cf}", df, rows, rxns, args, data_keys)
            for cf in CF:
                got = rs.calculate_costs(CF[cf][0]())
                exp = sorted(CF[cf][1](ref(r, None, CF[cf][1], mode)["energy"]) for r in rxns)
                c.check(len(got) == len(exp) and np.allclose(sorted(got), exp), f"{key} calculate_costs {cf}", lambda: f"{got} vs {exp}")
            c.trace()
            c.state(key)
            c.outcome((len(sub), mode, tg))
            c.sample({"set": key, "reactions": [str(r) for r in rxns]})

    items = []
    for pool, mode in (("gibbs", "closed"), ("gibbs", "open"), ("exch", "closed"), ("exch", "open")):
        valid = [i for i in range(len(R[pool])) if mk(pool, i, mode, None) is not None]
        ctx.notes[f"reactions_{pool}"] = len(valid)
        for k in range(1, 4 if ctx.quick else 5):
            for sub in combinations(valid, k):
                for dk in (0, 1):
                    for tg in (None, "str", "comp", "super", "ba2", "noO"):
                        if ctx.quick and k == 3 and (tg in ("comp", "ba2", "noO") or dk == 0):
                            continue
                        if tg == "ba2" and pool == "exch":
                            continue
                        items.append((pool, mode, sub, dk, tg))
    ctx.pmap(items, one)

    # separability directly
    def sep(c, item):
        pool, i = item
        key = f"separable {pool} {i}"
        if not c.case(key):
            return
        with c.guard(key):
            for mode in ("closed", "open"):
                m = mk(pool, i, mode, None)
                if m is None:
                    continue
                r = m[0]
                for e in r.product_entries:
                    f = e.composition.reduced_formula
                    for t in (f, Composition(f), e.composition):
                        c.check(r.is_separable(t) == ref(r, f, CF["sum"][1], mode)["separable"], f"{key} {mode} target {f}", lambda: f"{r} {r.is_separable(t)}")
                for t in ("MgO", "Ba9TiO11"):
                    try:
                        r.is_separable(t)
                        ok = False
                    except ValueError:
                        ok = True
                    c.check(ok, f"{key} {mode}: absent target refused")
            c.trace()
            c.state(key)

    ctx.pmap([(p, i) for p in R for i in range(len(R[p]))], sep)

    # call sequences
    def seq(c, item):
        pool, sub, order = item
        key = f"calls {pool} {sub} {order}"
        if not c.case(key):
            return
        with c.guard(key):
            rxns = [mk(pool, i, "closed", DATA[1](i))[0] for i in sub]
            rs = ReactionSet.from_rxns(rxns)
            cf = WeightedSum(["energy_per_atom"], [1.0])
            w = 1.0
            for op in order:
                if op == "reweigh":
                    w = -w
                    cf.weights = np.array([w])
                    continue
                T = "BaTiO3" if op in ("target", "both") else None
                args = {"target": T, "calculate_uncertainties": op in ("uncert", "both"), "calculate_separable": op == "both"}
                rows = [ref(r, T, lambda x: w * x, "closed") for r in rxns]  # noqa: B023
                df = rs.to_dataframe(cf, **args)
                compare(c, f"{key} at {op}", df, rows, rxns, args, ["score", "tag"])
                if op == "edit":
                    df["extra"] = 1
                    df.loc[0, "cost"] = 77.0
                    df.drop(index=df.index[-1], inplace=True)
            c.trace()
            c.state(key)

    ops = ["plain", "uncert", "target", "both", "edit", "reweigh"]
    items = []
    for pool, sub in (("gibbs", (0, 2, 3)), ("gibbs", (6, 1)), ("exch", (1, 0))):
        for n in (2, 3) if ctx.quick else (2, 3, 4):
            for order in product(ops, repeat=n):
                if order[-1] == "reweigh" or (ctx.quick and n == 3 and sub != (6, 1)):
                    continue
                items.append((pool, sub, order))
    ctx.pmap(items, seq)
