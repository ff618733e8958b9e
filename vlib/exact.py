"""Exact rational linear algebra used by the reference models."""

from __future__ import annotations

from fractions import Fraction as F
from itertools import combinations


def frac(x):
    return F(x).limit_denominator(10**6)


def rref(rows):
    rows = [list(r) for r in rows]
    piv, r = [], 0
    ncol = len(rows[0]) if rows else 0
    for c in range(ncol):
        p = next((i for i in range(r, len(rows)) if rows[i][c] != 0), None)
        if p is None:
            continue
        rows[r], rows[p] = rows[p], rows[r]
        d = rows[r][c]
        rows[r] = [x / d for x in rows[r]]
        for i in range(len(rows)):
            if i != r and rows[i][c] != 0:
                f = rows[i][c]
                rows[i] = [a - f * b for a, b in zip(rows[i], rows[r])]
        piv.append(c)
        r += 1
        if r == len(rows):
            break
    return rows[:r], piv


def nullspace(rows, ncol):
    """Basis (list of vectors) of {x : rows @ x = 0}."""
    red, piv = rref(rows) if rows else ([], [])
    free = [c for c in range(ncol) if c not in piv]
    basis = []
    for f in free:
        v = [F(0)] * ncol
        v[f] = F(1)
        for i, p in enumerate(piv):
            v[p] = -red[i][f]
        basis.append(v)
    return basis


def rank(rows):
    return len(rref(rows)[1]) if rows else 0


def solve(a, b):
    """Some exact solution of a @ x = b, or None."""
    n = len(a[0])
    red, piv = rref([list(r) + [bb] for r, bb in zip(a, b)])
    if n in piv:
        return None
    x = [F(0)] * n
    for i, p in enumerate(piv):
        x[p] = red[i][n]
    return x


def comp_rows(comps):
    """Element x composition matrix, exact. comps: dict-like {el: amt} (pymatgen Composition works)."""
    els = sorted({str(e) for c in comps for e in c})
    ds = [{str(e): frac(v) for e, v in c.items()} for c in comps]
    return [[d.get(e, F(0)) for d in ds] for e in els]


def cone_rays(rows, n):
    """Extreme rays of {x >= 0, rows @ x = 0}: minimal-support nonnegative null vectors."""
    rays = []
    for size in range(1, n + 1):
        for sup in combinations(range(n), size):
            if any(set(r[0]) <= set(sup) for r in rays):
                continue
            ns = nullspace([[row[i] for i in sup] for row in rows], size)
            if len(ns) != 1:
                continue
            v = ns[0]
            if all(x > 0 for x in v) or all(x < 0 for x in v):
                rays.append((sup, [abs(x) for x in v]))
    return rays


def feasible_signed(rows, n_react, n_prod):
    """Is there x with every reactant strictly consumed and every product strictly produced?"""
    signed = [[-v if j < n_react else v for j, v in enumerate(r)] for r in rows]
    cov = set()
    for sup, _ in cone_rays(signed, n_react + n_prod):
        cov |= set(sup)
    return len(cov) == n_react + n_prod
