"""P02: every sequence of copy / reverse / normalise operations on every kind of reaction."""
from fractions import Fraction
from math import gcd, lcm

import numpy as np

from vlib import uni

RULE = ("breadth-first search over sequences of copy, reverse, normalize_to(comp,factor), "
        "normalize_to_element(el,factor), from_computed_rxn applied to real Basic/Computed/OpenComputedReaction "
        "objects; every state is compared with a (class, signed scale, chempots) model; states are deduplicated on "
        "(seed reaction, class, scale, chempots)")

SEEDS = {
    "mno": (["MnO", "O2", "Mn2O3"], [-2, -0.5, 1]),
    "carb": (["Li2CO3", "MnO2", "LiMnO2", "CO2", "O2"], [-1, -2, 2, 1, 0.5]),
    "exch": (["YCl3", "LiMnO2", "YMnO3", "LiCl", "Li2O"], [-1, -1, 1, 3, -1]),
    "exch2": (["YCl3", "Li3MnO4", "YMnO3", "LiCl", "O2"], [-2, -2, 2, 6, 1]),
    "multi": (["Mn6O8", "Mn4O6", "O2"], [-4, 6, -1]),
    "dup": (["Y2O3", "Mn2O3", "YMnO3"], [-0.25, -0.25, 0.5]),
}
EN = {"MnO": -1.9, "O2": 0.0, "Mn2O3": -1.95, "Li2CO3": -2.05, "MnO2": -1.75, "LiMnO2": -2.2, "CO2": -1.4,
      "YCl3": -2.5, "YMnO3": -2.9, "LiCl": -2.1, "Li2O": -2.0, "Li3MnO4": -1.7, "Mn6O8": -1.93, "Mn4O6": -1.96,
      "Y2O3": -3.8}


def read(s):
    out = []
    for side, sg in zip(s.split(" -> "), (-1, 1)):
        for t in side.split(" + "):
            a, _, f = t.rpartition(" ")
            out.append((f, sg * float(a or 1)))
    return sorted(out)


def build(name, cls):
    from pymatgen.core.periodic_table import Element
    from rxn_network.reactions.basic import BasicReaction
    from rxn_network.reactions.computed import ComputedReaction
    from rxn_network.reactions.open import OpenComputedReaction

    fs, cs = SEEDS[name]
    fs, cs = zip(*[(f, c) for f, c in zip(fs, cs) if c != 0])
    ents = [uni.ient(f, EN[f], f"{name}-{f}") for f in fs]
    data = {"tag": 7, "num_constraints": 1}
    if cls == "basic":
        return BasicReaction([e.composition.reduced_composition for e in ents], cs, data=data, lowest_num_errors=0), ents, None
    if cls == "computed":
        return ComputedReaction(ents, np.array(cs, float), data=data), ents, None
    mu = {Element(cls[5:]): -0.8}
    return OpenComputedReaction(ents, np.array(cs, float), mu, data=data), ents, mu


def model(name, cls, ents, mu):
    fs, cs = SEEDS[name]
    cs = np.array([c for c in cs if c != 0], float)
    comps = [{str(k): v for k, v in e.composition.reduced_composition.items()} for e in ents]
    opn = {str(k): v for k, v in (mu or {}).items()}
    en = []
    for e, c in zip(ents, comps):
        g = e.energy / e.composition.num_atoms * sum(c.values())
        if opn and not (len(c) == 1 and next(iter(c)) in opn):
            g -= sum(opn[el] * c.get(el, 0) for el in opn)
        en.append(g)
    nat = np.array([sum(v for k, v in c.items() if k not in opn) for c in comps])
    return cs, comps, np.array(en), nat, opn


def observe(ctx, key, r, cls, m, scale, mu):
    """Compare every observable of r with the model at signed scale."""
    cs0, comps, en, nat, opn = m
    cs = cs0 * scale
    want = {"basic": "BasicReaction", "computed": "ComputedReaction"}.get(cls, "OpenComputedReaction")
    ctx.check(type(r).__name__ == want, f"{key} keeps its class", lambda: type(r).__name__)
    ctx.check(np.allclose(r.coefficients, cs), f"{key} coefficients", lambda: f"{r.coefficients} vs {cs}")
    ctx.check(bool(r.balanced), f"{key} stays balanced")
    rf = sorted(c.reduced_formula for c in r.reactants)
    pf = sorted(c.reduced_formula for c in r.products)
    from rxn_network.core import Composition

    f = [Composition(c).reduced_formula for c in comps]
    ctx.check(rf == sorted(x for x, c in zip(f, cs) if c < 0), f"{key} reactants", f"{rf}")
    ctx.check(pf == sorted(x for x, c in zip(f, cs) if c > 0), f"{key} products", f"{pf}")
    atoms = float(sum(n * c for n, c in zip(nat, cs) if c > 0))
    ctx.check(np.isclose(r.num_atoms, atoms), f"{key} num_atoms", lambda: f"{r.num_atoms} vs {atoms}")
    els = {e for c in comps for e in c} - set(opn)
    ctx.check({str(e) for e in r.elements} == els, f"{key} elements", lambda: f"{r.elements}")
    ctx.check(r.chemical_system == "-".join(sorted(els)), f"{key} chemical_system", lambda: r.chemical_system)
    for el in sorted({e for c in comps for e in c}):
        from pymatgen.core.periodic_table import Element

        amt = sum(c.get(el, 0) * abs(x) for c, x in zip(comps, cs)) / 2
        ctx.check(np.isclose(r.get_el_amount(Element(el)), amt), f"{key} get_el_amount {el}")
    for side, fr, mol, sg in (("reactant", r.reactant_atomic_fractions, r.reactant_molar_fractions, -1),
                              ("product", r.product_atomic_fractions, r.product_molar_fractions, 1)):
        exp = {x: abs(c) * n / atoms for x, c, n in zip(f, cs, nat) if c * sg > 0}
        got = {c.reduced_formula: v for c, v in fr.items()}
        ctx.check(got.keys() == exp.keys() and all(np.isclose(got[k], exp[k]) for k in exp),
                  f"{key} {side}_atomic_fractions", lambda: f"{got} vs {exp}")
        tot = sum(abs(c) for c in cs if c * sg > 0)
        expm = {x: abs(c) / tot for x, c in zip(f, cs) if c * sg > 0}
        gotm = {c.reduced_formula: v for c, v in mol.items()}
        ctx.check(gotm.keys() == expm.keys() and all(np.isclose(gotm[k], expm[k]) for k in expm),
                  f"{key} {side}_molar_fractions", lambda: f"{gotm} vs {expm}")
    for c, x in zip(r.compositions, cs):
        ctx.check(np.isclose(r.get_coeff(c), x), f"{key} get_coeff")
    # printed forms: smallest whole numbers of the reduced formulas; the reaction itself to four digits
    red = [Composition(c).get_reduced_formula_and_factor() for c in comps]
    fr = [Fraction(x * k[1]).limit_denominator(1000) for x, k in zip(cs0, red)]
    g = Fraction(gcd(*[(x * lcm(*[y.denominator for y in fr])).numerator for x in fr]), lcm(*[y.denominator for y in fr]))
    ints = [x / g * (1 if scale > 0 else -1) for x in fr]
    got = read(r.normalized_repr)
    ctx.check(got == sorted((k[0], float(i)) for k, i in zip(red, ints)), f"{key} normalized_repr", lambda: f"{r.normalized_repr} vs {ints}")
    rep, fac = r.normalized_repr_and_factor()
    ctx.check(rep == r.normalized_repr and np.isclose(fac * abs(scale) * float(g), 1), f"{key} normalisation factor", lambda: f"{fac} {scale} {g}")
    got = read(str(r))
    want = sorted((Composition(c).reduced_formula, float(x)) for c, x in zip(comps, cs))
    ctx.check(len(got) == len(want) and all(a[0] == b[0] and np.isclose(a[1], b[1], rtol=1e-3) for a, b in zip(got, want)), f"{key} printed form", lambda: f"{r} vs {want}")
    if cls != "basic":
        e = float(np.dot(en, cs))
        ctx.check(np.isclose(r.energy, e), f"{key} energy", lambda: f"{r.energy} vs {e}")
        ctx.check(np.isclose(r.energy_per_atom, e / atoms), f"{key} energy_per_atom",
                  lambda: f"{r.energy_per_atom} vs {e / atoms}")
        ctx.check([x.entry_id for x in r.reactant_entries] + [x.entry_id for x in r.product_entries]
                  == [x.entry_id for x, c in zip(r.entries, cs) if c < 0] + [x.entry_id for x, c in zip(r.entries, cs) if c > 0],
                  f"{key} reactant/product entries")
        if mu:
            ctx.check({str(k): v for k, v in r.chempots.items()} == opn, f"{key} chempots")
            ctx.check(r.total_chemical_system == "-".join(sorted({e for c in comps for e in c} | set(opn))),
                      f"{key} total_chemical_system")


def run(ctx):
    from pymatgen.core.periodic_table import Element
    from rxn_network.reactions.open import OpenComputedReaction

    depth = 2 if ctx.quick else 4
    kinds = ["basic", "computed", "open:O", "open:Li", "open:Mn"]
    items = [(n, k) for n in SEEDS for k in kinds]

    def one(c, item):
        name, cls = item
        if not c.case(f"{name}/{cls}"):
            return
        r0, ents, mu = build(name, cls)
        m = model(name, cls, ents, mu)
        cs0, comps, en, nat, opn = m
        if opn and all(set(x) <= set(opn) for x in comps):
            return
        frontier = [(r0, 1.0, [])]
        seen = set()
        for d in range(depth + 1):
            nxt = []
            for r, scale, path in frontier:
                key = f"{name}/{cls}: " + ".".join(path or ["start"])
                with c.guard(key):
                    observe(c, key, r, cls, m, scale, mu)
                c.trace()
                k2 = (name, cls, round(scale, 9))
                c.state(k2)
                c.outcome((type(r).__name__, np.sign(scale)))
                c.sample(key)
                if d == depth:
                    continue
                ops = [("copy", lambda r=r: r.copy(), scale), ("reverse", lambda r=r: r.reverse(), -scale)]
                for i in (0, len(cs0) - 1):
                    for fac in (1, 3):
                        new = scale * abs(fac / (cs0[i] * scale))
                        ops.append((f"normalize_to({i},{fac})",
                                    lambda r=r, i=i, fac=fac: r.normalize_to(r.compositions[i], fac), new))
                for el in sorted({e for x in comps for e in x}):
                    amt = sum(x.get(el, 0) * abs(v) for x, v in zip(comps, cs0 * scale)) / 2
                    for fac in (1, 2.5):
                        ops.append((f"normalize_to_element({el},{fac})",
                                    lambda r=r, el=el, fac=fac: r.normalize_to_element(Element(el), fac),
                                    scale * fac / amt))
                if mu:
                    ops.append(("from_computed_rxn",
                                lambda r=r: OpenComputedReaction.from_computed_rxn(r, dict(mu)), scale))
                before = (np.array(r.coefficients).copy(), dict(r.data))
                for on, f, s2 in ops:
                    c.step()
                    with c.guard(f"{key}.{on}"):
                        nr = f()
                        c.check(np.array_equal(before[0], r.coefficients) and before[1] == dict(r.data),
                                f"{key}.{on} leaves its receiver unchanged")
                        if on in ("copy", "reverse", "from_computed_rxn"):
                            c.check(nr.data.get("tag") == (r.data or {}).get("tag"), f"{key}.{on} keeps data")
                            c.check(nr is not r, f"{key}.{on} is a new object")
                        if on == "copy":
                            c.check(nr == r and hash(nr) == hash(r), f"{key}.{on} equal to the original")
                        c.check(nr.lowest_num_errors == 0, f"{key}.{on} error count")
                        kk = (on if d < 1 else "", round(s2, 9), type(nr).__name__)
                        if kk in seen and d > 0:
                            # same model state: still compare observables once, do not expand
                            observe(c, f"{key}.{on}", nr, cls, m, s2, mu)
                            continue
                        seen.add(kk)
                        nxt.append((nr, s2, [*path, on]))
            frontier = nxt

    ctx.pmap(items, one)

    # molecules of the same reduced formula are different phases of a BasicReaction
    from itertools import permutations, product

    from rxn_network.core import Composition
    from rxn_network.reactions.basic import BasicReaction

    for fs, co in ((["NO2", "N2O4"], [-2, 1]), (["CH2", "C2H4", "C3H6"], [-5, 1, 1]), (["NO2", "N2O4", "N2O3", "NO"], [-3, 1, 1, -1])):
        if sum(Composition(f)["N"] * c for f, c in zip(fs, co)) != 0:
            continue
        for order, fac, swap in product(permutations(range(len(fs))), (1, 2.5), (1, -1)):
            key = f"same reduced formula {[fs[i] for i in order]} {fac} {swap}"
            if not ctx.case(key):
                continue
            comps, cs = [Composition(fs[i]) for i in order], [swap * co[i] for i in order]
            with ctx.guard(key):
                for r in (BasicReaction(comps, cs), BasicReaction(comps, cs).reverse().reverse(), BasicReaction(comps, cs).copy()):
                    for x, k in zip(comps, cs):
                        ctx.check(r.get_coeff(x) == k, f"{key}: coefficient of {x.formula}")
                        n = r.normalize_to(x, fac)
                        ctx.check(all(np.isclose(n.get_coeff(y), fac * q / abs(k)) for y, q in zip(comps, cs)), f"{key}: normalised to {x.formula}", lambda: str(n))
                        ctx.check(r.coefficients.tolist() == cs, f"{key}: receiver unchanged")
                        ctx.trace()
            ctx.state(key)

    # a flag given explicitly is part of the reaction
    for flag, cs in product((True, False), ([-2, 1], [-1, 1])):
        if ctx.case(f"flag {flag} {cs}"):
            r = BasicReaction([Composition("NO2"), Composition("N2O4")], cs, balanced=flag)
            for q in (r, r.copy(), r.copy().copy()):
                ctx.check(q.balanced is flag and q.coefficients.tolist() == cs, f"flag {flag} {cs} kept by copy")
            ctx.state(("flag", flag, tuple(cs)))
    # an unbalanced reaction has no fractions
    for name, cls in product(SEEDS, kinds):
        r0, ents, mu = build(name, cls)
        if mu and all(set(x) <= {str(k) for k in mu} for x in model(name, cls, ents, mu)[1]):
            continue
        for i, f in product(range(len(r0.coefficients)), (2, 0.5)):
            key = f"unbalanced {name}/{cls} phase {i} x{f}"
            if not ctx.case(key):
                continue
            with ctx.guard(key):
                cs = np.array(r0.coefficients, float)
                cs[i] *= f
                r = BasicReaction(r0.compositions, cs) if cls == "basic" else OpenComputedReaction(ents, cs, mu) if mu else type(r0)(ents, cs)
                ctx.check(not r.balanced and not r.copy().balanced and not r.reverse().balanced, f"{key} known as unbalanced")
                for a in ("reactant_atomic_fractions", "product_atomic_fractions", "reactant_molar_fractions", "product_molar_fractions"):
                    try:
                        got = getattr(r, a)
                        ctx.violation(f"{key} has {a}", str(got))
                    except ValueError:
                        ctx.step()
                ctx.trace()
            ctx.state(key)
