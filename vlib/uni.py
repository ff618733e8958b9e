"""Tiny closed universes of entries and reactions the checks enumerate over."""

from __future__ import annotations

import contextlib
import io

from rxn_network.core import Composition
from rxn_network.entries.entry_set import GibbsEntrySet
from rxn_network.entries.gibbs import GibbsComputedEntry
from rxn_network.entries.interpolated import InterpolatedEntry
from rxn_network.reactions.computed import ComputedReaction


def crepr(x):
    """repr that does not depend on the iteration order of sets and dictionaries."""
    if isinstance(x, (set, frozenset)):
        return "{" + ",".join(sorted(map(crepr, x))) + "}"
    if isinstance(x, dict):
        return "{" + ",".join(sorted(f"{crepr(k)}:{crepr(v)}" for k, v in x.items())) + "}"
    if isinstance(x, (tuple, list)):
        return ("(%s)" if isinstance(x, tuple) else "[%s]") % ",".join(map(crepr, x))
    return repr(x)


def ient(formula, epa, eid=None, **kw):
    """Entry whose energy (eV/atom) is exactly what we say."""
    c = Composition(formula)
    return InterpolatedEntry(c, epa * c.num_atoms, entry_id=eid or f"i-{formula}-{epa}", **kw)


def gent(formula, fpa, vol=12.0, temp=300, eid=None, **kw):
    return GibbsComputedEntry(Composition(formula), fpa, vol, temp, entry_id=eid or f"g-{formula}-{vol}", **kw)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


def rxn(es, coeffs, cls=ComputedReaction, **kw):
    return cls(list(es), list(coeffs), **kw)


def rkey(r, nd=6):
    """Canonical, exact-ish content of a reaction: (formula, coefficient) pairs, scale kept."""
    return tuple(sorted((e.composition.reduced_formula, round(float(c), nd)) for e, c in zip(r.entries, r.coefficients)))


def rkey_ent(r, nd=6):
    return tuple(sorted((ekey(e), round(float(c), nd)) for e, c in zip(r.entries, r.coefficients)))


def ekey(e):
    return (type(e).__name__, e.composition.reduced_formula, round(float(e.energy_per_atom), 6), str(e.entry_id))


def nkey(r, nd=5):
    """Canonical content up to positive scale."""
    m = max(abs(float(c)) for c in r.coefficients)
    return tuple(sorted((e.composition.reduced_formula, round(float(c) / m, nd)) for e, c in zip(r.entries, r.coefficients)))


def set_of(entries):
    return GibbsEntrySet(entries)
