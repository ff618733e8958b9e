"""Runs one enumerator configuration on the real code and compares it with the reference enumeration."""

from __future__ import annotations

import numpy as np

from vlib import enum_model as em
from vlib import uni


def snap(es):
    """The caller's entries: which objects, with which energies and data."""
    return {id(e): (str(e.entry_id), float(e.energy), uni.crepr(e.data)) for e in es}


def ids_for(formulas, ents):
    """Lowest-energy entry id of each formula, None if a formula has no entry."""
    from rxn_network.core import Composition

    if not formulas:
        return None
    out = set()
    keep = em.min_entries(ents)
    for f in formulas:
        rf = Composition(f).reduced_formula
        m = [i for i in keep if ents[i].composition.reduced_formula == rf]
        out |= set(m) if m else {f"new-{rf}"}
    return frozenset(out)


def with_new(ents, formulas):
    """Entries plus placeholders for requested formulas that have no entry (the library interpolates them)."""
    from rxn_network.core import Composition

    have = {e.composition.reduced_formula for e in ents.values()}
    out = dict(ents)
    for f in formulas or ():
        rf = Composition(f).reduced_formula
        if rf not in have:
            out[f"new-{rf}"] = uni.ient(rf, 0.0, f"new-{rf}")
    return out


def keys(rs, ents):
    """Distinct reactions of a set in model ids, plus the list with repeats."""
    known = {str(e.entry_id): i for i, e in ents.items()}

    def idof(e):
        i = known.get(str(e.entry_id))
        if i is not None and ents[i].composition.reduced_formula == e.composition.reduced_formula:
            return i
        return f"new-{e.composition.reduced_formula}"

    return [(frozenset(idof(e) for e, c in zip(r.entries, r.coefficients) if c < 0),
             frozenset(idof(e) for e, c in zip(r.entries, r.coefficients) if c > 0)) for r in rs]


def sound(c, key, rs, ents, open_el=None, mu=None):
    """Each reaction conserves every element and carries the energies of the given entries."""
    for r in rs:
        tot = {}
        for e, co in zip(r.entries, r.coefficients):
            for k, v in e.composition.reduced_composition.items():
                tot[str(k)] = tot.get(str(k), 0) + v * float(co)
            i = str(e.entry_id)
            if i in ents:
                c.check(np.isclose(e.energy_per_atom, ents[i].energy_per_atom), f"{key} entry energy", lambda: f"{i} {e.energy_per_atom}")
        c.check(all(abs(v) < 1e-6 for v in tot.values()), f"{key} reaction is balanced", lambda: f"{r} {tot}")
        if mu is not None:
            c.check(type(r).__name__ == "OpenComputedReaction" and {str(k): float(v) for k, v in r.chempots.items()} == {open_el: mu},
                    f"{key} open reaction at the given chemical potential", lambda: f"{type(r)} {getattr(r, 'chempots', None)}")


def show(x):
    return f"{'+'.join(sorted(x[0]))}->{'+'.join(sorted(x[1]))}"


def diff(c, key, got, want, allow_missing=None, repeats=False):
    g = set(got)
    for x in sorted(g - want, key=show)[:3]:
        c.violation(f"{key} reports {show(x)} outside the request", f"{len(g - want)} extra, {len(want - g)} missing")
    for x in sorted(want - g, key=show):
        if allow_missing is not None and allow_missing(x):
            continue
        c.violation(f"{key} misses {show(x)}", f"{len(g - want)} extra, {len(want - g)} missing")
        break
    if not repeats:
        c.check(len(got) == len(g), f"{key} repeats a reaction", lambda: [show(x) for x in g if got.count(x) > 1][:3])
    c.step(len(g | want))
