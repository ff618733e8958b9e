"""Exact vertices of chemical potential domains."""

from __future__ import annotations

from fractions import Fraction as F
from itertools import combinations

import numpy as np

from vlib import enum_model as em
from vlib import exact


def fr(x):
    return F(x).limit_denominator(10**6)


def planes(ents, el):
    out = {}
    for i, e in ents.items():
        c = em.comp(e)
        t = sum(c.values())
        out[i] = ([c.get(x, F(0)) / t for x in el], fr(e.energy_per_atom))
    return out


def vertices(pl, el, lims):
    """Exact vertices of {mu: x_i.mu <= E_i, lo<=mu<=hi} as list of (mu, ids of the tight phases)."""
    cons = [(i, a, b) for i, (a, b) in pl.items()]
    for k, (lo, hi) in enumerate(lims):
        unit = [F(0)] * len(el)
        unit[k] = F(1)
        cons.append((None, unit, F(hi)))
        cons.append((None, [-x for x in unit], -F(lo)))
    A = np.array([[float(x) for x in a] for _, a, _ in cons])
    B = np.array([float(b) for _, _, b in cons])
    seen = {}
    n = len(el)
    for s in combinations(range(len(cons)), n):
        m = A[list(s)]
        if abs(np.linalg.det(m)) < 1e-9:  # determinants of these small rational systems are far larger unless zero
            continue
        x = np.linalg.solve(m, B[list(s)])
        if (A @ x - B > 1e-7).any():
            continue
        mu = exact.solve([cons[i][1] for i in s], [cons[i][2] for i in s])
        if mu is None or tuple(mu) in seen:
            continue
        res = [sum(p * q for p, q in zip(a, mu)) - b for _, a, b in cons]
        if any(r > 0 for r in res):
            continue
        seen[tuple(mu)] = frozenset(cons[i][0] for i in range(len(cons)) if res[i] == 0 and cons[i][0] is not None)
    return seen


def full_dim(pts, n):
    if len(pts) < n:
        return False
    p0 = pts[0]
    return exact.rank([[a - b for a, b in zip(p, p0)] for p in pts[1:]]) == n - 1 if len(pts) > 1 else n == 1


def same_points(a, b, tol=1e-6):
    if not len(a) or not len(b):
        return len(a) == len(b)
    d = np.abs(np.asarray(a)[:, None, :] - np.asarray(b)[None, :, :]).max(axis=2)
    return bool((d.min(axis=1) < tol).all() and (d.min(axis=0) < tol).all())


def model(ents, lims=None, lo=-100):
    from pymatgen.core import Element

    el = sorted({x for e in ents.values() for x in em.comp(e)}, key=lambda s: Element(s))
    best = {}
    for i, e in ents.items():
        f = e.composition.reduced_formula
        if f not in best or e.energy_per_atom < ents[best[f]].energy_per_atom:
            best[f] = i
    pl = planes({f: ents[i] for f, i in best.items()}, el)
    L = [(lims or {}).get(x, (lo, 0)) for x in el]
    vs = vertices(pl, el, L)
    dom = {f: [v for v, t in vs.items() if f in t] for f in best}
    return el, best, pl, dom, vs


def farr(pts):
    return np.array([[float(x) for x in v] for v in pts])


def min_dist(pa, pb):
    return float(np.sqrt(((np.asarray(pa)[:, None] - np.asarray(pb)[None]) ** 2).sum(axis=2)).min())


class Ref:
    """Reference distances and offsets of a diagram."""

    def __init__(self, ents, lims=None):
        self.ents = ents
        self.el, self.best, self.pl, self.dom, self.vs = model(ents, lims)
        self.full = {f for f, v in self.dom.items() if full_dim(v, len(self.el))}
        self.degen = {f for f, v in self.dom.items() if v and f not in self.full}
        self.off = set(self.dom) - self.full - self.degen
        self._pts = {}

    def hull(self, f):
        a = self.pl[f][0]
        return max(sum(p * q for p, q in zip(a, v)) for v in self.vs)

    def meta(self, f):
        """The domain of an unstable phase lowered to just below the hull."""
        mod = dict(self.pl)
        nat = self.ents[self.best[f]].composition.num_atoms
        mod[f] = (self.pl[f][0], self.hull(f) - F(1, 10**5) / fr(nat))
        return farr(v for v, t in vertices(mod, self.el, [(-500, 0)] * len(self.el)).items() if f in t)

    def pts(self, f):
        if f not in self._pts:
            self._pts[f] = farr(self.dom[f]) if f in self.full else self.meta(f)
        return self._pts[f]

    def offset(self, e):
        f = e.composition.reduced_formula
        nrm = float(np.linalg.norm([float(x) for x in self.pl[f][0]]))
        return float(fr(e.energy_per_atom) - self.hull(f)) / nrm

    def dist(self, a, b):
        return min_dist(self.pts(a), self.pts(b))
