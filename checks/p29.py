"""P29: Pareto fronts vs pairwise dominance on every small table."""
from itertools import combinations_with_replacement, permutations, product

import numpy as np

RULE = ("every table with up to 5 rows (1-2 columns, values {-1,0,1}) and 4 rows (3 columns, values {0,1}; thorough 5 rows over {-1,0,1} up to row order plus all row orders of 4) x minimise/maximise x "
        "mask/index results; data frames with extra columns, other row labels, metric orders and fractional values; tables with missing (NaN) values; oracle: pairwise dominance")
ASSUMPTIONS = ["whether rows lacking a metric are themselves in the front is left open (they must not displace complete rows)", "with maximize, the first metric (the reaction energy) is still minimised, as in the code and its default metrics"]


def front(rows):
    out = []
    for i, a in enumerate(rows):
        if not any(all(x <= y for x, y in zip(b, a)) and any(x < y for x, y in zip(b, a)) for b in rows):
            out.append(i)
    return out


def run(ctx):
    import pandas as pd

    from rxn_network.costs.pareto import get_pareto_front, is_pareto_efficient

    def raw(c, item):
        nrow, ncol, vals, first = item
        cells = list(product(vals, repeat=ncol))
        key = f"raw {nrow}x{ncol} {vals} starting {cells[first]}"
        if not c.case(key):
            return
        with c.guard(key):
            it = product(cells, repeat=nrow - 1)
            if ncol == 3 and len(vals) > 2 and nrow > 4:
                it = combinations_with_replacement(cells, nrow - 1)
            for tail in it:
                rows = (cells[first], *tail)
                exp = front(rows)
                arr = np.array(rows, dtype=float)
                keep = arr.copy()
                m = is_pareto_efficient(arr)
                c.check(list(np.where(m)[0]) == exp, f"raw mask {nrow}x{ncol}", lambda: f"{rows}: {m} vs {exp}")
                idx = is_pareto_efficient(arr, return_mask=False)
                c.check(sorted(int(i) for i in idx) == exp, f"raw indices {nrow}x{ncol}", lambda: f"{rows}: {idx} vs {exp}")
                if not np.array_equal(arr, keep):
                    c.violation(f"raw input changed {nrow}x{ncol}", rows)
                c.state(rows)
            c.outcome(len(exp))
            c.trace()

    items = [(n, k, (-1, 0, 1), f) for k in (1, 2) for n in (1, 2, 3, 4, 5) if not (ctx.quick and k == 2 and n == 5) for f in range(3**k)]
    items += [(n, 3, (0, 1), f) for n in (2, 3, 4, 5) for f in range(8)]
    items += [(3, 3, (-1, 0, 1), f) for f in range(27)]
    items += [(n, 2, (0, 1e-9, 1), f) for n in (2, 3) for f in range(9)] + [(n, 3, (0, 1e-9), f) for n in (2, 3) for f in range(8)]  # near ties are no ties
    if not ctx.quick:
        items += [(n, 3, (-1, 0, 1), f) for n in (4, 5) for f in range(27)] + [(n, 2, (-1, 0, 1), f) for n in (6,) for f in range(9)]
    ctx.pmap(sorted(items, key=lambda i: -i[0] * i[1]), raw)

    NAMES = ("energy", "primary_competition", "secondary_competition")

    def table(c, item):
        ncol, nrow, first = item
        vals = (-0.25, 0.0, 0.5)
        cells = list(product(vals, repeat=ncol)) if ncol < 3 else list(product((-0.25, 0.5), repeat=3))
        key = f"table {nrow}x{ncol} starting {cells[first]}"
        if not c.case(key):
            return
        with c.guard(key):
            for tail in product(cells, repeat=nrow - 1):
                rows = (cells[first], *tail)
                for labels in (list(range(nrow)), [f"r{7 - i}" for i in range(nrow)]):
                    df = pd.DataFrame({"rxn": [f"R{i}" for i in range(nrow)], **{NAMES[k]: [r[k] for r in rows] for k in range(ncol)}, "cost": [0.1 * i for i in range(nrow)]}, index=labels)
                    ref = df.copy(deep=True)
                    for mx in (False, True):
                        sgn = [(a, *(-b if mx else b for b in rest)) for a, *rest in rows]
                        exp = front(sgn)
                        got = get_pareto_front(df, metrics=NAMES[:ncol], maximize=mx) if ncol < 3 else get_pareto_front(df, maximize=mx)
                        c.check(list(got["rxn"]) == [f"R{i}" for i in exp] and got.equals(ref.iloc[exp]), f"table front {ncol} max={mx}", lambda: f"{rows}: {list(got['rxn'])} vs {exp}")
                        if not df.equals(ref):
                            c.violation(f"table changed {ncol} max={mx}", rows)
                    if ncol == 2:
                        exp = front([r[::-1] for r in rows])
                        got = get_pareto_front(df, metrics=list(NAMES[:2][::-1]))
                        c.check(list(got["rxn"]) == [f"R{i}" for i in exp], "table metric order")
                        exp = front([r[1:] for r in rows])
                        got = get_pareto_front(df, metrics=(NAMES[1],))
                        c.check(list(got["rxn"]) == [f"R{i}" for i in exp], "table subset of metrics", lambda: f"{rows}: {list(got['rxn'])} vs {exp}")
                c.state(rows)
            c.trace()

    items = [(2, n, f) for n in (1, 2, 3) for f in range(9)] + [(1, n, f) for n in (1, 2, 3, 4) for f in range(3)] + [(3, n, f) for n in (1, 2, 3) for f in range(8)]
    if not ctx.quick:
        items += [(3, 4, f) for f in range(8)] + [(2, 4, f) for f in range(9)]
    ctx.pmap(sorted(items, key=lambda i: -i[0] * i[1]), table)

    # rows with a missing metric (e.g. an uncertainty that is not known) dominate nothing
    def missing(c, item):
        ncol, nrow, first = item
        nan = float("nan")
        cells = list(product((0.0, 1.0, nan), repeat=ncol))
        key = f"missing {nrow}x{ncol} starting {cells[first]}"
        if not c.case(key):
            return
        with c.guard(key):
            for tail in product(cells, repeat=nrow - 1):
                rows = (cells[first], *tail)
                full = [i for i, r in enumerate(rows) if not any(x != x for x in r)]
                df = pd.DataFrame({NAMES[k]: [r[k] for r in rows] for k in range(ncol)})
                for mx in (False, True):
                    exp = [full[j] for j in front([(rows[i][0], *(-x if mx else x for x in rows[i][1:])) for i in full])]
                    got = [i for i in get_pareto_front(df, metrics=NAMES[:ncol], maximize=mx).index if i in full]
                    c.check(got == exp, f"rows with missing metrics {ncol} max={mx}", lambda: f"{rows}: {got} vs {exp}")
                c.state(rows)
            c.trace()

    ctx.pmap([(k, n, f) for k, n in ((1, 3), (2, 1), (2, 2), (2, 3), (3, 2)) for f in range(3**k)], missing)

    if ctx.case("larger tables"):
        with ctx.guard("larger tables"):
            base = [(0, 5, 1), (1, 4, 1), (2, 3, 3), (2, 3, 3), (3, 3, 0), (5, 0, 2)]
            for p in permutations(range(6)):
                rows = [base[i] for i in p]
                m = is_pareto_efficient(np.array(rows, float))
                ctx.check(list(np.where(m)[0]) == front(rows), "row order", lambda: f"{rows} {m}")
                ctx.state(("perm", p))
            ctx.check(len(get_pareto_front(pd.DataFrame({n: [] for n in NAMES}))) == 0, "empty table")
