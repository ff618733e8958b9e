"""Two-reactant reaction sets with chosen mixing ratios and energies, and the exact lower hull of such points."""

from __future__ import annotations

from fractions import Fraction as F
from functools import lru_cache
from math import lcm

import numpy as np

from vlib import uni

C1, C2 = "BaO", "TiO2"
# product composition -> atomic fraction of C2 in the reactants
PROD = {"Ba9Ti2O13": F(1, 4), "Ba3Ti2O7": F(1, 2), "BaTi2O5": F(3, 4), "BaTiO3": F(3, 5), "Ba2TiO4": F(3, 7), "Ba3Ti4O11": F(2, 3), "Ba6Ti2O10": F(1, 3),
        "Ba6TiO8": F(1, 5), "BaTi6O13": F(9, 10), "Ba27Ti2O31": F(1, 10)}
BYX = {v: k for k, v in PROD.items()}


def form(x):
    """Formula of the single product that forms at mixing ratio x."""
    if x in BYX:
        return BYX[x]
    ba, ti = (1 - x) / 2, x / 3
    m = lcm(ba.denominator, ti.denominator)
    ba, ti = int(ba * m), int(ti * m)
    return f"Ba{ba}Ti{ti}O{ba + 2 * ti}"


class Build:
    """Reactions are made once per (x, y, variant); y in units of 0.1 eV/atom."""

    def __init__(self, unit=0.1):
        self.unit = unit
        self.a, self.b = uni.ient(C1, 0.0, "c1"), uni.ient(C2, 0.0, "c2")
        self.cache = {}

    def rxn(self, x, y, var=0, mu=None):
        k = (x, y, var, mu)
        if k not in self.cache:
            from pymatgen.core.periodic_table import Element
            from rxn_network.reactions.computed import ComputedReaction
            from rxn_network.reactions.open import OpenComputedReaction

            def make(r, p):
                if mu is not None:
                    return OpenComputedReaction.balance(r, p, {Element("O"): mu})
                return ComputedReaction.balance(r, p)

            e = float(y) * self.unit
            if x == 0:
                n = 2.0  # atoms of BaO on the reactant side, 1 Ba + 1/2 O2 formed
                self.cache[k] = make([self.a], [uni.ient("Ba", e * n, f"Ba{y}{var}"), uni.ient("O2", 0.0, "O2")])
            elif x == 1:
                self.cache[k] = make([self.b], [uni.ient("TiO", e * 3 / 2, f"TiO{y}{var}"), uni.ient("O2", 0.0, "O2")])
            elif var == 2:  # two products: one carries the energy of both
                ti, ba = (x / 3), (1 - x) / 2  # formula units of TiO2, BaO per atom
                # BaO2 + TiO: ba BaO + ti TiO2 -> needs O balance; use Ba + TiO2' instead: ba Ba + ba/2 O2 + ti Ti... keep simple
                self.cache[k] = make([self.a, self.b], [uni.ient(BYX[x], e, f"{BYX[x]}{y}v{var}")])
                del ti, ba
            else:
                f = form(x)
                es = [uni.ient((uni.Composition(f) * (1 + var)).formula, e, f"{f}{y}v{var}")]
                self.cache[k] = make([self.a, self.b], es)
        return self.cache[k]

    def hull(self, pts, swap=False, cls=None):
        from rxn_network.core import Composition
        from rxn_network.reactions.hull import InterfaceReactionHull

        rx = [self.rxn(*p) for p in pts]
        c = (Composition(C1), Composition(C2))
        return (cls or InterfaceReactionHull)(*(c[::-1] if swap else c), rx), rx


def lower_hull(pts):
    """Exact lower hull (list of (x, y), increasing x, no collinear points) of points plus the pure reactants."""
    best = {F(0): F(0), F(1): F(0)}
    for x, y in pts:
        best[x] = min(y, best.get(x, y))
    h = []
    for p in sorted(best.items()):
        while len(h) > 1 and (h[-1][0] - h[-2][0]) * (p[1] - h[-2][1]) - (h[-1][1] - h[-2][1]) * (p[0] - h[-2][0]) <= 0:
            h.pop()
        h.append(p)
    return h


def height(h, x):
    for (x1, y1), (x2, y2) in zip(h, h[1:]):
        if x1 <= x <= x2:
            return y1 + (y2 - y1) * (x - x1) / (x2 - x1)
    raise ValueError(x)


def altitude(l, m, r):
    if r[0] == l[0]:
        return m[1] - l[1]
    return m[1] - (l[1] + (r[1] - l[1]) * (m[0] - l[0]) / (r[0] - l[0]))


def between(h, x1, x2):
    """Hull points within [x1, x2]: ends on the hull, vertices strictly inside, pure reactants in front where the ends lie below them."""
    out = []
    y1, y2 = height(h, x1), height(h, x2)
    if x1 == 0 and y1 != 0:
        out.append((F(0), F(0)))
    out.append((x1, y1))
    out += [p for p in h if x1 < p[0] < x2]
    if x2 != x1:
        out.append((x2, y2))
    if x2 == 1 and y2 != 0:
        out.append((F(1), F(0)))
    return out


@lru_cache(maxsize=None)
def sequences(pts):
    """(sum of energies over every decomposition sequence, number of sequences) of a tuple of points, straight from the definition."""
    if len(pts) <= 2:
        return F(0), 1
    tot, num = F(0), 0
    for k in range(1, len(pts) - 1):
        el, nl = sequences(pts[: k + 1])
        er, nr = sequences(pts[k:])
        tot += altitude(pts[0], pts[k], pts[-1]) * nl * nr + el * nr + er * nl
        num += nl * nr
    return tot, num


def max_alt(pts):
    n = len(pts)
    return min([F(0)] + [altitude(pts[i], pts[j], pts[k]) for i in range(n) for j in range(i + 1, n) for k in range(j + 1, n)])


def area(pts):
    """Area of the polygon spanned by the points."""
    s = F(0)
    for (x1, y1), (x2, y2) in zip(pts, [*pts[1:], pts[0]]):
        s += x1 * y2 - x2 * y1
    return abs(s) / 2


def close(a, b, tol=1e-7):
    return np.isclose(float(a), float(b), atol=tol, rtol=1e-6)
