"""P09: condition-change histories of reactions and reaction sets against rebuilding from entries at the final conditions."""
import numpy as np

from vlib import uni

RULE = ("breadth-first search over sequences of set_new_temperature / compute_at_temperatures / set_chempot / json round trip / "
        "re-wrapping on sets with polymorphs, tabulated gases with corrections, interpolated entries and mixed sizes; oracle: "
        "the same reactions rebuilt from entries constructed directly at the final temperature")


def run(ctx):
    import json

    from monty.json import MontyDecoder, MontyEncoder
    from pymatgen.core.periodic_table import Element
    from rxn_network.core import Composition
    from rxn_network.entries.corrections import CarbonateCorrection, CarbonDioxideAtmosphericCorrection
    from rxn_network.entries.gibbs import GibbsComputedEntry
    from rxn_network.entries.interpolated import InterpolatedEntry
    from rxn_network.entries.nist import NISTReferenceEntry
    from rxn_network.reactions.computed import ComputedReaction
    from rxn_network.reactions.open import OpenComputedReaction
    from rxn_network.reactions.reaction_set import ReactionSet

    def ents(T):
        G = lambda k, f, fpa, v, **kw: GibbsComputedEntry(Composition(f), fpa, v, T, entry_id=k, **kw)  # noqa: E731
        return {
            "MnO": G("MnO", "MnO", -1.97, 11.2), "O2": G("O2", "O2", 0.0, 20.0),
            "Mn2O3a": G("Mn2O3a", "Mn2O3", -1.99, 11.0), "Mn2O3b": G("Mn2O3b", "Mn2O3", -1.96, 9.5),
            "Mn2O3c": G("Mn2O3c", "Mn4O6", -1.90, 13.0),
            "Li2CO3": G("Li2CO3", "Li2CO3", -2.05, 9.8, energy_adjustments=[CarbonateCorrection(1)]),
            "CO2": NISTReferenceEntry(Composition("CO2"), T, energy_adjustments=[CarbonDioxideAtmosphericCorrection(3, T)]),
            "CO2g": G("CO2g", "CO2", -1.3, 14.0, energy_adjustments=[CarbonDioxideAtmosphericCorrection(3, T)]),
            "LiMnO2": G("LiMnO2", "LiMnO2", -2.2, 10.1),
            "X": InterpolatedEntry(Composition("LiMn2O4"), -14.5, entry_id="X"),
        }

    SPEC = [(["MnO", "O2", "Mn2O3a"], [-2, -0.5, 1]), (["MnO", "O2", "Mn2O3b"], [-4, -1, 2]), (["Mn2O3c", "MnO", "O2"], [-1, 2, 0.5]),
            (["Li2CO3", "Mn2O3b", "LiMnO2", "CO2"], [-1, -1, 2, 1]), (["Li2CO3", "Mn2O3c", "LiMnO2", "CO2g"], [-1, -1, 2, 1]),
            (["X", "LiMnO2", "MnO", "O2"], [-1, 1, 1, 0.5])]

    def rx(T, idx, mu=None):
        e = ents(T)
        out = []
        for i in idx:
            ks, co = SPEC[i]
            a = ([e[k] for k in ks], np.array(co, float))
            kw = {"data": {"i": i}}
            out.append(ComputedReaction(*a, **kw) if mu is None else OpenComputedReaction(*a, {Element(mu[0]): mu[1]}, **kw))
        return out

    def key(r):
        return (type(r).__name__, r.data.get("i"),
                tuple((type(x).__name__, x.composition.formula, str(x.entry_id), round(float(c), 8), round(float(x.energy), 7), getattr(x, "temperature", None))
                      for x, c in zip(r.entries, r.coefficients)), round(float(r.energy), 7), round(float(r.energy_per_atom), 7),
                tuple((str(k), v) for k, v in r.chempots.items()) if hasattr(r, "chempots") else None)

    def keys(rs):
        return sorted((key(r) for r in rs), key=uni.crepr)

    WANT = {}

    def want(idx, T, mu):
        k = (idx, T, mu)
        if k not in WANT:
            WANT[k] = keys(rx(T, idx, mu))
        return WANT[k]

    temps = (300, 900, 900.6) if ctx.quick else (300, 900, 900.6, 1250, 2000)
    mus = (None, ("O", -0.6), ("O", 0.0), ("Mn", 0.2))
    idxs = [(0, 1), (0, 1, 2), (3, 4), (1, 3, 5), (0, 1, 2, 3, 4, 5), (2,)]
    depth = 2 if ctx.quick else 3
    dec = MontyDecoder()
    items = [(idx, T, how) for idx in idxs for T in temps[:2] for how in ("closed", "open_kw", "open_rxns", "all_entries")]

    def one(c, item):
        idx, T0, how = item
        if not c.case(item):
            return
        with c.guard(item):
            mu0 = ("O", -0.6) if how.startswith("open") else None
            if how == "closed":
                rs = ReactionSet.from_rxns(rx(T0, idx))
            elif how == "open_kw":
                rs = ReactionSet.from_rxns(rx(T0, idx), open_elem="O", chempot=-0.6)
            elif how == "open_rxns":
                rs = ReactionSet.from_rxns(rx(T0, idx, mu0))
            else:
                rs = ReactionSet.from_rxns(rx(T0, idx), entries=list(ents(T0).values()))
            frontier = [(rs, T0, mu0, f"{item}")]
            for d in range(depth + 1):
                nxt = []
                for s, T, mu, path in frontier:
                    got = keys(s.get_rxns())
                    c.trace()
                    c.state((idx, T, mu, path if d < 2 else ""))
                    c.outcome((T, mu))
                    c.sample(path)
                    c.check(got == want(idx, T, mu), path, lambda: f"got {got}\nwant {want(idx, T, mu)}")
                    c.check(len(s) == len(idx), f"{path} length")
                    if d == depth:
                        continue
                    ops = [(f"T={t}", lambda t=t: s.set_new_temperature(t), t, mu) for t in temps]
                    ops += [(f"Ts={t}", lambda t=t: s.compute_at_temperatures([x for x in temps if x != t] + [t])[t], t, mu) for t in temps[:2]]
                    ops += [(f"Ts={t}", lambda t=t: s.compute_at_temperatures(list(temps))[t], t, mu) for t in temps[1:]] if not d else []
                    ops += [(f"mu={m}", lambda m=m: s.set_chempot(*(m or (None, None))), T, m) for m in mus]
                    ops += [("muO=None", lambda: s.set_chempot("O", None), T, ("O", 0.0))]
                    ops += [("json", lambda: dec.process_decoded(json.loads(json.dumps(s.as_dict(), cls=MontyEncoder))), T, mu),
                            ("rewrap", lambda: ReactionSet.from_rxns(list(s.get_rxns()), open_elem=s.open_elem, chempot=s.chempot), T, mu)]
                    for on, f, T2, mu2 in ops:
                        with c.guard(f"{path}.{on}"):
                            new = f()
                            c.check(keys(s.get_rxns()) == got, f"{path} unchanged by {on}")
                            nxt.append((new, T2, mu2, f"{path}.{on}"))
                # same model state reached through different histories: keep one per (T, mu, last op kind) at depth>0
                seen, keep = set(), []
                for n in nxt:
                    k = (n[1], n[2], n[3].rsplit(".", 1)[-1][:2]) if d and c.quick else n[3]
                    if k in seen:
                        continue
                    seen.add(k)
                    keep.append(n)
                frontier = keep
            # single reactions, with and without a table of entries
            for mu in mus:
                for T in temps:
                    for r0, i in zip(rx(T0, idx, mu), idx):
                        w = key(rx(T, (i,), mu)[0])
                        k0 = key(r0)
                        with c.guard(f"{item} reaction {i} {mu} -> {T}"):
                            c.check(key(r0.get_new_temperature(T)) == w, f"{item} reaction {i} {mu} -> {T}")
                            tab = {e.composition: e for e in (ents(T)[k] for k in SPEC[i][0])}
                            r1 = r0.get_new_temperature(T, tab)
                            c.check(key(r1) == w, f"{item} reaction {i} {mu} -> {T} with table")
                            c.check(all(any(e is x for x in tab.values()) for e in r1.entries), f"{item} reaction {i} {mu} -> {T} uses the entries of the table")
                            c.check(key(r0) == k0, f"{item} reaction {i} unchanged")
                            c.step(2)

    ctx.pmap(items, one)
    for T in (200, 2500):
        if ctx.case(f"out of range {T}"):
            rs = ReactionSet.from_rxns(rx(300, (0, 3)))
            try:
                rs.set_new_temperature(T)
                ctx.violation(f"temperature {T} refused", "no error")
            except ValueError:
                pass
