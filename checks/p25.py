"""P25: interface reaction hulls vs the exact rational lower hull, over every small set of points and their orders."""
from fractions import Fraction as F
from itertools import combinations, permutations, product

import numpy as np

from vlib import hulls as hl

RULE = ("every assignment of energies from a grid (or absence) to reactions at 3-5 mixing ratios, decompositions of either reactant and further polymorph reactions at "
        "equal mixing ratio, in several orders and with swapped reactants; reference: exact rational lower hull (points exactly on an edge may count as stable or not)")


def run(ctx):
    B = hl.Build()
    u = F(1, 10)

    def probe(c, key, pts, swap=False, deep=False):
        irh, rx = B.hull(pts, swap)
        y = {}
        fl = (lambda x: 1 - x) if swap else (lambda x: x)
        P = [(fl(x), e * u) for x, e, *_ in pts]
        h = hl.lower_hull(P)
        vert = set(h)
        rs = list(irh.reactions)
        c.check(len(rs) == len(rx) + 2 and all(r in rs for r in rx), f"{key} holds the reactions and the two endpoints", lambda: [str(r) for r in rs])
        cs = np.array(irh.coords)
        want = sorted((float(a), float(b)) for a, b in [*P, (F(0), F(0)), (F(1), F(0))])
        c.check(np.allclose(sorted(map(tuple, np.round(cs, 9))), np.round(want, 9)), f"{key} coordinates", lambda: f"{cs.tolist()} {want}")
        c.check(all(a <= b for a, b in zip(cs[:, 0], cs[1:, 0])), f"{key} coordinates in order of mixing ratio")
        stable, unstable = list(irh.stable_reactions), list(irh.unstable_reactions)
        c.check(len(stable) + len(unstable) == len(rs) and all((r in stable) != (r in unstable) for r in rs), f"{key} stable and unstable partition the reactions")
        c.check(sorted(irh.hull_vertices.tolist()) == [i for i, r in enumerate(rs) if r in stable], f"{key} vertex indices")
        st = set()
        for i, r in enumerate(rs):
            x, e = (F(float(cs[i, 0])).limit_denominator(1000), F(float(cs[i, 1])).limit_denominator(10**6))
            if r in rx:
                j = rx.index(r)
                c.check((x, e) == P[j], f"{key} coordinate of reaction", lambda: f"{r} {x, e} {P[j]}")
                c.check(hl.close(irh.get_coordinate(r), P[j][0], 1e-9), f"{key} get_coordinate", lambda: f"{r} {irh.get_coordinate(r)}")
            gap = e - hl.height(h, x)
            got = irh.get_energy_above_hull(r)
            c.check(hl.close(got, gap), f"{key} energy above hull", lambda: f"{r} got {got} want {gap}")
            if r in stable:
                st.add((x, e))
                c.check(gap == 0, f"{key} stable reaction is on the hull", lambda: f"{r} {x, e} hull {h}")
        c.check(vert <= st, f"{key} every vertex is stable", lambda: f"missing {vert - st} stable {st}")
        for q in range(0, 25):
            x = F(q, 24)
            c.check(hl.close(irh.get_hull_energy(float(x)), hl.height(h, x)), f"{key} hull energy", lambda: f"{x}: {irh.get_hull_energy(float(x))} want {hl.height(h, x)}")
        for q in range(1, 24, 4):
            x = F(q, 24)
            m = irh.get_reactions_by_coordinate(float(x))
            wt = {id(r): w for r, w in m.items()}
            c.check(np.isclose(sum(wt.values()), 1) and all(w > 0 for w in wt.values()) and np.isclose(sum(w * irh.get_coordinate(r) for r, w in m.items()), float(x)),
                    f"{key} mixture at a ratio", lambda: f"{x}: {m}")
        if deep:
            xs = [F(0), F(1, 7), F(1, 4), F(1, 2), F(5, 8), F(1)]
            on = [(x, e) for x, e in P if e == hl.height(h, x) and (x, e) not in vert]  # collinear: left out of range queries
            for x1, x2 in combinations(xs, 2):
                if on:
                    continue
                ref = hl.between(h, x1, x2)
                got = [tuple(p) for p in irh.get_coords_in_range(float(x1), float(x2))]
                c.check(len(got) == len(ref) and np.allclose(got, [(float(a), float(b)) for a, b in ref], atol=1e-9), f"{key} points in range", lambda: f"{x1, x2} {got} {ref}")
                got2 = irh.get_coords_in_range(float(x2), float(x1))
                c.check(np.allclose(got2, got), f"{key} range is symmetric")
                c.check(hl.close(irh.get_max_decomposition_energy(float(x1), float(x2)), hl.max_alt(ref)), f"{key} largest height",
                        lambda: f"{x1, x2} {irh.get_max_decomposition_energy(float(x1), float(x2))} {hl.max_alt(ref)} {ref}")
                a = hl.area(ref)
                if len(ref) == 2 or a > 0:
                    got = irh.get_decomposition_area(float(x1), float(x2))
                    c.check(hl.close(got, a, 1e-6), f"{key} area", lambda: f"{x1, x2} {got} {float(a)} {ref}")
        c.trace()
        c.state((tuple(P), swap))
        c.outcome((len(h), len(P)))
        return y

    X3 = [F(1, 4), F(1, 2), F(3, 4)]
    X5 = [F(1, 3), F(3, 7), F(1, 2), F(3, 5), F(2, 3)]
    E0 = (None, -1, 1) if ctx.quick else (None, -1, 1, -3)
    grid = (None, 1, 0, -1, -2, -3, -4) if ctx.quick else (None, 2, 1, 0, -1, -2, -3, -4, -5, -6)

    def three(c, ends):
        for n, ys in enumerate(product(grid, repeat=3)):
            pts = [(x, y) for x, y in zip(X3, ys) if y is not None]
            pts = [(F(0), ends[0])] * (ends[0] is not None) + pts + [(F(1), ends[1])] * (ends[1] is not None)
            if not any(y for _, y in pts) or all(x in (0, 1) for x in {p[0] for p in pts}) and len({p[0] for p in pts}) < 2:
                continue  # flat: no hull
            key = f"{ends} {ys}"
            if not c.case(key):
                continue
            with c.guard(key):
                o = n % 4
                probe(c, key, pts if o == 0 else pts[::-1] if o == 1 else pts[1:] + pts[:1] if o == 2 else pts[::2] + pts[1::2], swap=n % 5 == 0, deep=n % 3 == 0 or not c.quick)
        c.sample(f"ends {ends}")

    def five(c, first):
        g = (-2, -3, -5, None) if c.quick else (1, -1, -2, -3, -5, None)
        for n, ys in enumerate(product(g, repeat=4)):
            ys = (first, *ys)
            pts = [(x, y) for x, y in zip(X5, ys) if y is not None]
            if len(pts) < 3:
                continue
            key = f"five {ys}"
            if not c.case(key):
                continue
            with c.guard(key):
                o = n % 3
                probe(c, key, pts if o == 0 else pts[::-1] if o == 1 else pts[::2] + pts[1::2], swap=n % 7 == 0, deep=n % 4 == 0)

    def orders(c, pts):
        for perm in permutations(range(len(pts))):
            key = f"order {pts} {perm}"
            if not c.case(key):
                continue
            with c.guard(key):
                probe(c, key, [pts[i] for i in perm], deep=True)

    def big(c, n):
        """many reactions: several polymorph reactions at each of ten mixing ratios"""
        xs = sorted(hl.BYX)
        pts = [(x, -int(16 * 6 * x * (1 - x)) + (v * 3 + i * n) % (5 + n) - 1 - v, v % 2, None) for v in range(3) for i, x in enumerate(xs)]
        pts += [(F(0), -1, 0, None), (F(0), 2, 1, None), (F(1), -1 - n % 3, 0, None), (F(1), 3, 1, None)]
        pts = list({(p[0], p[1]): p for p in pts}.values())
        for rot in range(0, len(pts), 9 if c.quick else 1):
            key = f"big {n} {rot}"
            if not c.case(key):
                continue
            with c.guard(key):
                probe(c, key, pts[rot:] + pts[:rot], swap=rot % 2 == 1, deep=True)

    def poly(c, x):
        for ya, yb, yc in product((-3, -1, 0, 2), (-2, 1), (-4, -1, 1)):
            if ya == yb:
                continue
            for perm in permutations(range(4)):
                pts = [(x, ya), (x, yb, 1), (F(1, 2) if x != F(1, 2) else F(3, 5), yc), (F(1, 4) if x != F(1, 4) else F(1, 3), -1)]
                if c.quick and sum(i * p for i, p in enumerate(perm)) % 3:
                    continue
                key = f"poly {x} {ya, yb, yc} {perm}"
                if not c.case(key):
                    continue
                with c.guard(key):
                    probe(c, key, [pts[i] for i in perm], deep=perm[0] == 0)

    def near(c, x0):
        """reactions and ratios very close to one another or to a pure reactant"""
        for d in (F(1, 1000), F(1, 400), F(1, 90)):
            for ys in product((-2, -1, 1), repeat=3):
                pts = [(q, y) for q, y in zip((x0 - d, x0, x0 + d), ys) if 0 <= q <= 1] + [(F(2, 3) if x0 != F(2, 3) else F(1, 3), -3)]
                key = f"near {x0} {d} {ys}"
                if not c.case(key):
                    continue
                with c.guard(key):
                    probe(c, key, pts, swap=sum(ys) % 2 == 0, deep=ys[0] == -1)
                    irh, _ = B.hull(pts)
                    h = hl.lower_hull([(q, e * u) for q, e in pts])
                    for v, _ in [*h, *[(q, 0) for q, _ in pts]]:
                        for s in (F(1, 5000), F(1, 900), F(1, 300), F(1, 60)):
                            for x in (v - s, v + s):
                                if 0 < x < 1:
                                    m = irh.get_reactions_by_coordinate(float(x))
                                    c.check(np.isclose(sum(m.values()), 1) and abs(sum(w * irh.get_coordinate(r) for r, w in m.items()) - float(x)) < 1e-6, f"{key} mixture near {v}", lambda: f"{x}: {m}")
                                    c.check(abs(irh.get_hull_energy(float(x)) - float(hl.height(h, x))) < 1e-6, f"{key} hull energy near {v}", lambda: f"{x}: {irh.get_hull_energy(float(x))}")

    def job(c, it):
        it[0](c, it[1])

    o4 = [[(F(1, 4), -2), (F(1, 2), -3), (F(3, 4), -1), (F(0), -1)], [(F(1, 4), -2), (F(1, 2), -5), (F(3, 4), -4), (F(1), -1)],
          [(F(3, 5), -4), (F(1, 2), 1), (F(1, 3), -2), (F(1), -3), (F(0), -2)]]
    ctx.pmap([(three, e) for e in product(E0, E0)] + [(five, f) for f in (-2, -3, -5, None)] + [(orders, p) for p in o4]
             + [(poly, x) for x in (F(1, 4), F(1, 2), F(3, 4), F(0), F(1))] + [(near, x) for x in (F(0), F(1, 2), F(3, 5), F(1, 4), F(1))] + [(big, n) for n in range(1, 5 if ctx.quick else 12)], job)
