"""P14: GibbsEntrySet under every short history of mutations and queries, against a plain set model."""
from itertools import product

from vlib import uni

RULE = ("every history of the bounded length over add / discard / remove / update / in-place and binary set operators / clear / copy-then-mutate, "
        "on a pool of entries with polymorphs of three entry classes; all cached views are observed after every step (so they are warm before "
        "the next mutation) and, in a second pass, only at the end after a single warmed view; oracle: a plain python set")


def run(ctx):
    import numpy as np
    from rxn_network.core import Composition
    from rxn_network.entries.entry_set import GibbsEntrySet
    from rxn_network.entries.freed import FREEDReferenceEntry

    P = [uni.ient("Mn", 0.0, "Mn"), uni.ient("O2", 0.0, "O2"), uni.ient("Mn2O3", -1.95, "a"), uni.ient("Mn4O6", -1.97, "b"),
         uni.gent("MnO", -1.9, eid="m1"), uni.gent("Mn2O2", -1.8, vol=13.0, eid="m2"), FREEDReferenceEntry(Composition("MnO2"), 300)]
    n = len(P)
    idx = {id(e): i for i, e in enumerate(P)}

    def who(e):
        for i, p in enumerate(P):
            if e is p or (e == p and type(e) is type(p)):
                return i
        return None

    OPS = {}
    for i in range(n):
        OPS[f"add{i}"] = (lambda s, i=i: s.add(P[i]), lambda m, i=i: m | {i})
        OPS[f"discard{i}"] = (lambda s, i=i: s.discard(P[i]), lambda m, i=i: m - {i})
    OPS["remove3"] = (lambda s: s.remove(P[3]), lambda m: m - {3} if 3 in m else None)
    OPS["update25"] = (lambda s: s.update([P[2], P[5]]), lambda m: m | {2, 5})
    OPS["update_gen"] = (lambda s: s.update(p for p in P[:2]), lambda m: m | {0, 1})
    OPS["ior36"] = (lambda s: s.__ior__({P[3], P[6]}), lambda m: m | {3, 6})
    OPS["isub23"] = (lambda s: s.__isub__({P[2], P[3]}), lambda m: m - {2, 3})
    OPS["iand0124"] = (lambda s: s.__iand__({P[0], P[1], P[2], P[4]}), lambda m: m & {0, 1, 2, 4})
    OPS["clear"] = (lambda s: s.clear(), lambda m: frozenset())

    VIEWS = ("entries_list", "min_entries_by_formula", "chemsys", "temperature", "pd_dict", "hull", "build_indices", "subset")

    def view(c, key, s, m, v):
        if v == "entries_list":
            el = s.entries_list
            c.check(sorted(who(e) for e in el) == sorted(m), f"{key} entries_list", lambda: f"{[who(e) for e in el]} vs {sorted(m)}")
            c.check([e.composition for e in el] == sorted(e.composition for e in el), f"{key} entries_list sorted by composition")
        elif v == "min_entries_by_formula":
            best = {}
            for i in m:
                f = P[i].composition.reduced_formula
                if f not in best or P[i].energy_per_atom < P[best[f]].energy_per_atom:
                    best[f] = i
            got = {f: who(e) for f, e in s.min_entries_by_formula.items()}
            c.check(got == best, f"{key} min_entries_by_formula", lambda: f"{got} vs {best}")
            for f in ("Mn2O3", "Mn4O6", "MnO", "Mn6O6", "O2", "MnO2", "Y2O3"):
                rf = Composition(f).reduced_formula
                try:
                    g = who(s.get_min_entry_by_formula(f))
                except KeyError:
                    g = None
                c.check(g == best.get(rf), f"{key} get_min_entry_by_formula({f})", lambda: f"{g} vs {best.get(rf)}")
        elif v == "chemsys":
            c.check(s.chemsys == {str(x) for i in m for x in P[i].composition.elements}, f"{key} chemsys", lambda: s.chemsys)
        elif v == "temperature":
            c.check(s.temperature == (300 if m & {4, 5, 6} else 0.0), f"{key} temperature", lambda: s.temperature)
        elif v == "subset":
            for cs in (["Mn"], ["O"], ["Mn", "O"]):
                have = {str(x) for i in m for x in P[i].composition.elements}
                try:
                    sub = sorted(who(e) for e in s.get_subset_in_chemsys(cs))
                except ValueError:
                    sub = None
                exp = sorted(i for i in m if {str(x) for x in P[i].composition.elements} <= set(cs)) if set(cs) <= have else None
                c.check(sub == exp, f"{key} subset {cs}", lambda: f"{sub} vs {exp}")
                if sub is not None:
                    sub = sorted(who(e) for e in s.get_subset_in_chemsys("-".join(cs)))
                    c.check(sub == exp, f"{key} subset {'-'.join(cs)}", lambda: f"{sub} vs {exp}")
        elif v in ("pd_dict", "hull"):
            if not {0, 1} <= m:
                return
            pds = s.pd_dict
            c.check({who(e) for pd in pds.values() for e in pd.all_entries} == set(m), f"{key} phase diagrams hold the members")
            if v == "hull":
                def F(i):  # formation energy per atom: elements are at zero
                    return P[i].energy_per_atom
                for i in m:
                    got = s.get_e_above_hull(P[i])
                    x = P[i].composition.get_atomic_fraction("Mn")
                    best = 0.0  # lower hull at x over all pairs
                    pts = [(P[j].composition.get_atomic_fraction("Mn"), F(j)) for j in m]
                    best = min(a[1] if abs(a[0] - x) < 1e-12 else 0 for a in pts)
                    for a in pts:
                        for b in pts:
                            if a[0] < x < b[0]:
                                best = min(best, a[1] + (b[1] - a[1]) * (x - a[0]) / (b[0] - a[0]))
                    c.check(np.isclose(got, F(i) - best, atol=1e-6), f"{key} e_above_hull({i})", lambda: f"{got} vs {F(i) - best}")
        elif v == "build_indices":
            s.build_indices()
            got = sorted(e.data["idx"] for e in s)
            c.check(got == list(range(len(m))), f"{key} indices", lambda: got)
            c.check(all(s.entries_list[e.data["idx"]] is e for e in s), f"{key} index points at the entry")

    def members(c, key, s, m):
        c.check(len(s) == len(m) == len(list(s)), f"{key} size", lambda: f"{len(s)} vs {len(m)}")
        c.check({who(e) for e in s} == set(m), f"{key} iteration")
        c.check(all((P[i] in s) == (i in m) for i in range(n)), f"{key} membership")

    start = {"empty": frozenset(), "some": frozenset({0, 1, 2, 4}), "all": frozenset(range(n))}
    depth = 3

    def one(c, item):
        mode, st, seq = item
        key = f"{mode} {st} {'.'.join(seq)}"
        if not c.case(key):
            return
        with c.guard(key):
            s, m = GibbsEntrySet([P[i] for i in start[st]]), start[st]
            warm = mode if mode != "all views" else None
            for k, o in enumerate(("", *seq)):
                if o:
                    f, g = OPS[o]
                    m2 = g(m)
                    try:
                        f(s)
                        c.check(m2 is not None, f"{key} removing a missing entry is refused")
                    except KeyError:
                        c.check(m2 is None, f"{key} refused")
                    m = m if m2 is None else frozenset(m2)
                    c.step()
                members(c, key, s, m)
                if warm is None:
                    for v in VIEWS:
                        if v != "hull" or k == len(seq):
                            view(c, f"{key}@{k}", s, m, v)
                elif k < len(seq):
                    view(c, f"{key}@{k}", s, m, warm)
            members(c, f"{key} after queries", s, m)
            if warm is not None:
                for v in VIEWS:
                    view(c, f"{key} end", s, m, v)
            c.trace()
            c.state((tuple(sorted(m)), mode))
            c.outcome(len(m))

    items = []
    for st in start:
        for seq in product(OPS, repeat=depth + (not ctx.quick and st == "some")):
            items.append(("all views", st, seq))
        for w in VIEWS:
            for o in product(OPS, repeat=2):
                items.append((w, st, o))
    ctx.sample({"operations": list(OPS), "depth": depth})
    ctx.pmap(items, one)

    # binary operators and copies give new, independent sets; the copy keeps the options
    for a, b in product([frozenset({0, 1, 2}), frozenset({0, 1, 2, 3, 4, 6}), frozenset()], repeat=2):
        key = f"operators {sorted(a)} {sorted(b)}"
        if not ctx.case(key):
            continue
        with ctx.guard(key):
            A, B = GibbsEntrySet([P[i] for i in a]), GibbsEntrySet([P[i] for i in b])
            for v in VIEWS:
                view(ctx, key, A, a, v)
            for name, r, m in (("|", A | B, a | b), ("&", A & B, a & b), ("-", A - B, a - b), ("^", A ^ B, a ^ b), ("copy", A.copy(), a)):
                ctx.check(isinstance(r, GibbsEntrySet), f"{key} {name} type")
                members(ctx, f"{key} {name}", r, m)
                for v in VIEWS:
                    view(ctx, f"{key} {name}", r, m, v)
                r.add(P[5])
                r.discard(P[0])
                members(ctx, f"{key} {name} then mutated", r, (m | {5}) - {0})
                members(ctx, f"{key} left operand after {name}", A, a)
                for v in VIEWS:
                    view(ctx, f"{key} left operand after {name}", A, a, v)
            ctx.check((A <= B) == (a <= b) and (A == B) == (a == b), f"{key} comparison")
            ctx.trace()
    for fl in product((False, True), repeat=2):
        key = f"options {fl}"
        if not ctx.case(key):
            continue
        with ctx.guard(key):
            ents = [e.copy() for e in P[:6]]
            s = GibbsEntrySet(ents, calculate_e_above_hulls=fl[0], minimize_obj_size=fl[1])
            for name, t in (("set", s), ("copy", s.copy()), ("copy of copy", s.copy().copy())):
                ctx.check((t.calculate_e_above_hulls, t.minimize_obj_size) == fl, f"{key} {name} keeps options")
                ctx.check(len(t) == 6, f"{key} {name} members")
                if fl[0]:
                    ctx.check(all(np.isclose(e.data["e_above_hull"], s.get_e_above_hull(e)) for e in t), f"{key} {name} hull data")
            new = s.get_entries_with_new_temperature(600)
            ctx.check(sorted(e.composition.formula for e in new) == sorted(e.composition.formula for e in s), f"{key} new temperature keeps members")
            ctx.check(new.calculate_e_above_hulls == fl[0] and all((e.data.get("e_above_hull") is not None) == fl[0] for e in new),
                      f"{key} new temperature recomputes hull data exactly when asked")
            if fl[0]:
                ctx.check(all(np.isclose(e.data["e_above_hull"], new.get_e_above_hull(e)) for e in new), f"{key} new temperature hull data")
            ctx.check(new.temperature == 600 and s.temperature == 300, f"{key} temperature of the new set")
            for sub_ in (s.get_subset_in_chemsys(s.chemsys), s.filter_by_stability(10.0, include_polymorphs=True), GibbsEntrySet(list(s))):
                for warm in (600, 1200):
                    n2 = sub_.get_entries_with_new_temperature(warm)
                    ctx.check(all(e.data.get("e_above_hull") is None or abs(e.data["e_above_hull"] - n2.get_e_above_hull(e)) < 1e-8 for e in n2), f"{key} no hull data of another temperature")
            jit = s.get_entries_with_jitter()
            elem = {e.composition.formula for e in s if e.is_element}
            have = [e.composition.formula for e in jit]
            ctx.check(sorted(f for f in have if f not in elem) == sorted(e.composition.formula for e in s if not e.is_element), f"{key} jitter keeps compounds")
            ctx.check(elem <= set(have), "get_entries_with_jitter drops the elemental phases", lambda: f"{sorted(have)}")
            ctx.check({(e.entry_id, e.energy) for e in s} == {(e.entry_id, e.energy) for e in ents}, f"{key} originals unchanged")
            ctx.trace()

    # equality of single entries: an equivalence with equal hashes; sets, dictionaries and entry sets keep one of each
    from rxn_network.entries.gibbs import GibbsComputedEntry
    from rxn_network.entries.nist import NISTReferenceEntry
    from pymatgen.entries.computed_entries import ConstantEnergyAdjustment

    pool = []  # (what makes it distinct, entry)
    for f, x, eid in product(("Mn2O3", "Mn4O6"), (-1.95, -1.951), ("a", "b")):
        for noise in (0.0, 1e-14, -3e-14):
            nat = Composition(f).num_atoms
            pool.append((("interp", x * nat, eid), uni.ient(f, x * (1 + noise), eid)))
            if f == "Mn4O6":
                continue
            for t in (300, 450):
                pool.append((("gibbs", t, x, eid), GibbsComputedEntry(Composition(f), x * (1 + noise), 10.0, t, entry_id=eid)))
    for cl, f, t, adj in product((NISTReferenceEntry, FREEDReferenceEntry), ("CO2", "C2O4", "Al2O3", "Al4O6"), (300, 400), (None, -0.2)):
        nat = Composition(f).num_atoms
        pool.append(((cl.__name__, Composition(f).reduced_formula, t, adj),
                     cl(Composition(f), t, energy_adjustments=[ConstantEnergyAdjustment(adj * nat)] if adj else None)))
    pool += [(k, e.copy()) for k, e in pool[::3]]
    for i, (ka, a) in enumerate(pool):
        if not ctx.case(f"equality {i}"):
            continue
        for kb, b in pool:
            key = f"entries {ka} and {kb}"
            with ctx.guard(key):
                ctx.check((a == b) == (ka == kb) and (a != b) == (ka != kb), f"{key} equal exactly when the same")
                if ka == kb:
                    ctx.check(hash(a) == hash(b), f"{key} equal hashes")
                ctx.step()
        ctx.state(("entry", ka))
        ctx.trace()
    for start_ in range(3):
        if ctx.case(f"collapse {start_}"):
            part = pool[start_::3] + pool[::2]
            kinds = {k for k, _ in part}
            es = GibbsEntrySet([])
            for _, e in part:
                es.add(e)
            ctx.check(len(es) == len({e for _, e in part}) == len(kinds) == len({e: 0 for _, e in part}), f"collections keep one of each entry {start_}",
                      lambda: f"{len(es)} {len({e for _, e in part})} {len(kinds)}")
            for _, e in part:
                es.discard(e)
            ctx.check(len(es) == 0, f"every entry can be removed again {start_}", lambda: len(es))
            ctx.trace()
