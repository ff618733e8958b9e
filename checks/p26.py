"""P26: competition metrics vs their definitions over every small hull shape."""
import math
from fractions import Fraction as F
from itertools import permutations, product

import numpy as np

from vlib import hulls as hl

RULE = ("every assignment of grid energies to reactions at 3-5 mixing ratios with and without decomposing reactants, in several orders: primary, secondary (all options), "
        "maximum and area competition of every reaction vs direct evaluation over explicitly enumerated decomposition sequences (exact rationals); enumerating vs recursive "
        "evaluation; Catalan numbers up to n=30")


def run(ctx):
    from rxn_network.costs import calculators as cal

    B = hl.Build()
    u = F(1, 10)

    def probe(c, key, pts, deep=True, swap=False):
        irh, rx = B.hull(pts, swap)
        fl = (lambda x: 1 - x) if swap else (lambda x: x)
        P = [(fl(x), e * u) for x, e, *_ in pts]
        h = hl.lower_hull(P)
        if any(e == hl.height(h, x) and (x, e) not in h for x, e in P):
            return  # a reaction exactly on an edge may or may not count as an intermediate
        allp = [*P, (F(0), F(0)), (F(1), F(0))]
        for r, (x, e) in zip(rx, P):
            others = [b for a, b in allp if a != x]
            c1 = irh.get_primary_competition(r)
            c.check(hl.close(c1, e - min(others)), f"{key} primary competition", lambda: f"{r} {c1} {e - min(others)}")
            left, right = tuple(hl.between(h, F(0), x)), tuple(hl.between(h, x, F(1)))
            (le, ln), (re, rn) = hl.sequences(left), hl.sequences(right)
            eh = e - hl.height(h, x)
            mean = -(le / ln + re / rn)
            total = -(le * rn + re * ln)
            for rec in (False, True):
                got = [irh.get_secondary_competition(r, recursive=rec), irh.get_secondary_competition(r, normalize=False, recursive=rec),
                       irh.get_secondary_competition(r, include_e_hull=True, recursive=rec),
                       irh.get_secondary_competition(r, normalize=False, include_e_hull=True, recursive=rec)]
                want = [mean, total, mean + eh, total + eh]
                for g, w, n in zip(got, want, ("", " unnormalized", " with e_hull", " unnormalized with e_hull")):
                    c.check(hl.close(g, w), f"{key} secondary competition{n}{' recursive' if rec else ''}", lambda: f"{r} got {g} want {float(w)}")
            c.check(mean >= 0, f"{key} model")
            mx = irh.get_secondary_competition_max_energy(r)
            c.check(hl.close(mx, -(hl.max_alt(left) + hl.max_alt(right))), f"{key} largest competing energy", lambda: f"{r} {mx}")
            ok = all(len(s) <= 2 or hl.area(s) > 0 for s in (left, right))
            if ok and len(left) > 1 and len(right) > 1:
                ar = irh.get_secondary_competition_area(r)
                c.check(hl.close(ar, hl.area(left) + hl.area(right), 1e-6), f"{key} area", lambda: f"{r} {ar} {float(hl.area(left) + hl.area(right))}")
                c.check(hl.close(cal.SecondaryCompetitionAreaCalculator(irh).calculate(r), ar, 1e-6), f"{key} area calculator")
            C = [(cal.PrimaryCompetitionCalculator, e - min(others)), (cal.SecondaryCompetitionCalculator, mean),
                 (cal.SecondaryCompetitionWithEhullCalculator, mean + eh), (cal.SecondaryCompetitionMaxCalculator, -(hl.max_alt(left) + hl.max_alt(right)))]
            for k, w in C:
                c.check(hl.close(k(irh).calculate(r), w), f"{key} {k.__name__}", lambda: f"{r} {k(irh).calculate(r)} {float(w)}")
        if deep:
            for x1, x2 in ((F(0), F(1)), (F(0), F(1, 2)), (F(1, 5), F(4, 5)), (F(1, 2), F(1)), (F(3, 8), F(1)), (F(0), F(7, 8))):
                s = tuple(hl.between(h, x1, x2))
                e, n = hl.sequences(s)
                a = irh.get_decomposition_energy(float(x1), float(x2))
                b, m = irh.get_decomposition_energy_and_num_paths_recursive(float(x1), float(x2))
                c.check(hl.close(a, e), f"{key} decomposition energy", lambda: f"{x1, x2} {a} {float(e)} {s}")
                c.check(hl.close(b, e) and m == n, f"{key} recursive decomposition energy", lambda: f"{x1, x2} {b} {float(e)} paths {m} {n}")
                k = len(s) - 2
                c.check(n == math.comb(2 * k, k) // (k + 1) and irh.count(k) == n, f"{key} number of sequences", lambda: f"{k} {irh.count(k)}")
        c.trace()
        c.state((tuple(P), swap))
        c.outcome((len(h), len(P)))

    def nums(c, _):
        irh, _ = B.hull([(F(1, 2), -1)])
        for n in range(31):
            key = f"count {n}"
            if c.case(key):
                with c.guard(key):
                    c.check(irh.count(n) == math.comb(2 * n, n) // (n + 1), key, lambda: irh.count(n))
                c.state(key)

    X3 = [F(1, 4), F(1, 2), F(3, 4)]
    X5 = [F(1, 3), F(3, 7), F(1, 2), F(3, 5), F(2, 3)]
    X9 = sorted(hl.BYX)
    E0 = (None, -1, 1)
    grid = (None, 1, -1, -2, -3, -5) if ctx.quick else (None, 2, 1, -1, -2, -3, -4, -5, -7)

    def three(c, ends):
        for n, ys in enumerate(product(grid, repeat=3)):
            pts = [(x, y) for x, y in zip(X3, ys) if y is not None]
            pts = [(F(0), ends[0])] * (ends[0] is not None) + pts + [(F(1), ends[1])] * (ends[1] is not None)
            if not any(y for _, y in pts) or all(x in (0, 1) for x in {p[0] for p in pts}) and len({p[0] for p in pts}) < 2:
                continue
            key = f"{ends} {ys}"
            if c.case(key):
                with c.guard(key):
                    o = n % 3
                    probe(c, key, pts if o == 0 else pts[::-1] if o == 1 else pts[1:] + pts[:1], swap=n % 5 == 0)
        c.sample(f"ends {ends}")

    def five(c, it):
        ends, first = it
        g = (-1, -4, -7) if c.quick else (-1, -2, -4, -7, None)
        for n, ys in enumerate(product(g, repeat=4)):
            pts = [(x, y) for x, y in zip(X5, (first, *ys)) if y is not None]
            pts = [(F(0), ends[0])] * (ends[0] is not None) + pts + [(F(1), ends[1])] * (ends[1] is not None)
            key = f"five {ends} {first, *ys}"
            if c.case(key):
                with c.guard(key):
                    probe(c, key, pts[:: 1 if n % 2 else -1], swap=n % 7 == 0, deep=n % 4 == 0)

    def convex(c, it):
        """all ten ratios on a strictly convex curve: deep sequences"""
        skip, ends = it
        pts = [(x, F(-100) * x * (1 - x) - F(2)) for x in X9 if x != skip]
        pts = [(F(0), ends[0])] * (ends[0] is not None) + pts + [(F(1), ends[1])] * (ends[1] is not None)
        for o in range(3):
            key = f"convex {skip} {ends} {o}"
            if c.case(key):
                with c.guard(key):
                    probe(c, key, pts[::-1] if o == 1 else pts[::2] + pts[1::2] if o == 2 else pts, swap=o == 2)

    def same(c, it):
        """two or three reactions at one mixing ratio and possibly one elsewhere: the others at its ratio are no competitors"""
        x, swap = it
        g = (-4, -3, -1, 1)
        for ys in [*product(g, repeat=2), *product(g[:3], repeat=3)]:
            for rest in [(), *[((z, y),) for z in X3 if z != x for y in (-2, 1)], tuple((z, -2) for z in X3 if z != x)]:
                pts = [(x, y, v) for v, y in enumerate(ys)]
                if (x == 0 and not rest) or len(set(ys)) < len(ys) or all(y > 0 for _, y, *_ in [*pts, *rest]):
                    continue
                key = f"same {x} {ys} {rest} {swap}"
                if c.case(key):
                    with c.guard(key):
                        probe(c, key, [*rest, *pts], swap=swap, deep=False)

    XF = [F(1, 2), F(101, 200), F(2, 3), F(3, 4)]

    def fine(c, it):
        """mixing ratios half a percent apart and energies of a fraction of a meV/atom"""
        first, ends = it
        g = (F(-3), F(-1, 200), F(-1, 500), None) if c.quick else (F(-3), F(-1), F(-1, 150), F(-1, 200), F(-1, 500), F(1, 100), None)
        for n, ys in enumerate(product(g, repeat=3)):
            pts = [(x, y) for x, y in zip(XF, (first, *ys)) if y is not None]
            pts = [(F(0), ends[0])] * (ends[0] is not None) + pts + [(F(1), ends[1])] * (ends[1] is not None)
            key = f"fine {ends} {first} {ys}"
            if pts and c.case(key):
                with c.guard(key):
                    probe(c, key, pts[:: 1 if n % 2 else -1], swap=n % 3 == 0, deep=False)

    def orders(c, pts):
        for perm in permutations(range(len(pts))):
            key = f"order {pts} {perm}"
            if c.case(key):
                with c.guard(key):
                    probe(c, key, [pts[i] for i in perm])

    def job(c, it):
        it[0](c, it[1])

    o4 = [[(F(1, 4), -3), (F(1, 2), -5), (F(3, 4), -4), (F(0), -1)], [(F(1, 4), -3), (F(1, 2), -1), (F(1, 2), -2, 1), (F(1), -2)]]
    items = [(nums, 0)] + [(three, e) for e in product(E0, E0)] + [(five, (e, f)) for e in ((None, None), (-1, None), (None, -2), (-1, -1)) for f in (-1, -4, -7)]
    items += [(convex, (s, e)) for s in (None, *X9[:: 3 if ctx.quick else 1]) for e in ((None, None), (-1, -1))] + [(orders, p) for p in o4] + [(same, (x, w)) for x in (F(0), *X3) for w in (False, True)]
    items += [(fine, (f, e)) for f in (F(-3), F(-1, 200), F(-1, 500)) for e in ((None, None), (F(-1, 200), None), (F(-3), F(-1, 300)))]
    ctx.pmap(items, job)
    assert np
