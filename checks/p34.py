"""P34: plots and filtered tables vs the data they are given."""
import json
from collections import Counter, defaultdict
from itertools import combinations, combinations_with_replacement, permutations, product

import numpy as np

from vlib import uni

RULE = ("scatter: every table of 1-2 rows (x, y in {-1,0,1}), every multiset of 3 rows (2-D {0,1,2}^2, 3-D {0,1}^3), thorough also 4 rows, x Pareto front shown or not x row labels (default, repeated, text) x "
        "colouring (none, flag, text, number), and every 2-call sequence of a 3-D and a 2-D plot; precursors: every subset of the formulas (as reduced, scaled or permuted formulas) x every subset of 6 reactions; "
        "pathway plots: every table of 2 phases x 3-4 temperatures with amounts {0,1/2,1} (and 3-phase tables), smoothed or not, heating, holding and cooling; network plots: the networks of every subset of up to "
        "3 reactions. Oracle: pairwise dominance, a rank-of-three median, formation-energy sums and the exact hull minimum over phase pairs and triples")
ASSUMPTIONS = ["pretty_df_layout needs jinja2, which is not installed here", "plotted metrics are finite", "every row of phase amounts has some material", "marker size, fonts and layout are presentation, not checked"]


def front(rows):
    return [i for i, a in enumerate(rows) if not any(all(x <= y for x, y in zip(b, a)) and any(x < y for x, y in zip(b, a)) for b in rows)]


def run(ctx):
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    import pandas as pd
    from pymatgen.analysis.chempot_diagram import plotly_layouts
    from pymatgen.core import Lattice, Structure
    from pymatgen.entries.computed_entries import ComputedStructureEntry

    from rxn_network.core import Composition
    from rxn_network.costs.functions import Softplus
    from rxn_network.entries.entry_set import GibbsEntrySet
    from rxn_network.network.network import ReactionNetwork
    from rxn_network.network.visualize import plot_network
    from rxn_network.pathways.plotting import PathwayPlotter
    from rxn_network.reactions.computed import ComputedReaction
    from rxn_network.reactions.plotting import filter_df_by_precursors, plot_reaction_scatter
    from rxn_network.reactions.reaction_set import ReactionSet

    E = {f: uni.ient(f, e) for f, e in (("BaO", -2.8), ("TiO2", -3.2), ("BaTiO3", -3.3), ("Ba2TiO4", -3.1), ("BaCl2", -2.9), ("Na2TiO3", -2.5), ("NaCl", -2.1), ("Na2O", -1.4), ("O2", 0.0), ("BaO2", -2.2))}
    bal = lambda r, p: ComputedReaction.balance([E[x] for x in r.split()], [E[x] for x in p.split()])
    RX = [bal("BaO TiO2", "BaTiO3"), bal("BaCl2 Na2TiO3", "BaTiO3 NaCl"), bal("BaO Na2TiO3", "BaTiO3 Na2O"), bal("BaTiO3 BaO", "Ba2TiO4"), bal("BaO2", "BaO O2"), bal("Ba2TiO4 TiO2", "BaTiO3")]

    # ---------------- scatter plots
    LABELS = {"range": lambda n: list(range(n)), "repeated": lambda n: [i // 2 for i in range(n)], "all same": lambda n: [7] * n, "text": lambda n: [f"r{n - i}" for i in range(n)]}
    COLORS = {None: None, "has_added_elems": None, "added_elems": None, "dE": None}

    def table(rows, labels, cols):
        d = {"rxn": [RX[i % len(RX)] for i in range(len(rows))]}
        for j, cn in enumerate(cols):
            d[cn] = [float(r[j]) / 4 for r in rows]
        d["added_elems"] = ["" if i % 2 == 0 else "Cl-Na" for i in range(len(rows))]
        d["dE"] = [0.01 * (i + 1) for i in range(len(rows))]
        return pd.DataFrame(d, index=labels)

    def pts(tr, n):
        arrs = [tr.x, tr.y] + ([tr.z] if n == 3 else [])
        if tr.x is None:
            return []
        hov = list(tr.hovertext) if tr.hovertext is not None else [None] * len(tr.x)
        return list(zip(*[[float(v) for v in a] for a in arrs], [str(h) for h in hov]))

    def look(c, key, df, cols, pareto, color):
        keep = df.copy()
        args = dict(zip("xyz", cols))
        with uni.quiet():
            fig = plot_reaction_scatter(df, color=color, plot_pareto=pareto, **args)
        n = len(cols)
        rows = [tuple(float(v) for v in r) for r in df[list(cols)].to_numpy()]
        names = [str(r) for r in df["rxn"]]
        full = [(*r, nm) for r, nm in zip(rows, names)]
        fr = set(front(rows)) if pareto else set()
        tr = list(fig.data)
        pf = [t for t in tr if t.name == "Pareto front"]
        rest = [t for t in tr if t.name != "Pareto front"]
        if not c.check(len(pf) == (1 if pareto else 0), f"{key}: Pareto front shown exactly when requested", lambda: [t.name for t in tr]):
            return
        if pareto:
            c.check(Counter(pts(pf[0], n)) == Counter(full[i] for i in fr), f"{key}: front", lambda: f"{full}: {pts(pf[0], n)}")
        got = Counter(p for t in rest for p in pts(t, n))
        c.check(got == Counter(f for i, f in enumerate(full) if i not in fr), f"{key}: other rows", lambda: f"{full} front {sorted(fr)}: {got}")
        if color == "dE":
            want = defaultdict(list)
            for f, v in zip(full, df["dE"]):
                want[f].append(float(v))
            for t in rest:
                cs = t.marker.color
                for p, v in zip(pts(t, n), cs if cs is not None and not isinstance(cs, str) else []):
                    c.check(any(abs(v - w) < 1e-12 for w in want[p]), f"{key}: coloured by its own value", lambda: (p, v))
        elif color:
            want = defaultdict(set)
            for f, v in zip(full, df["added_elems"]):
                want[f].add(str(v != "") if color == "has_added_elems" else str(v))
            cols_of = defaultdict(set)
            for t in rest:
                for p in pts(t, n):
                    c.check(str(t.name) in want[p], f"{key}: in its own colour group", lambda: (p, t.name))
                    cols_of[str(t.name)].add(str(t.marker.color))
            c.check(all(len(v) == 1 for v in cols_of.values()) and len({next(iter(v)) for v in cols_of.values()}) == len(cols_of), f"{key}: groups have distinct colours", lambda: dict(cols_of))
        ht = [t.hovertemplate or "" for t in tr if t.x is not None and len(t.x)]
        c.check(all(all(f"%{{{a}" in h for a in args) and all(cn in h for cn in cols) for h in ht), f"{key}: hover text names each metric", lambda: ht)
        c.check(df.equals(keep) and list(df.columns) == list(keep.columns) and list(df.index) == list(keep.index), f"{key}: table unchanged")

    def scatter(c, item):
        rows, cols = item
        key = f"scatter {cols} {rows}"
        if not c.case(key):
            return
        with c.guard(key):
            before = json.dumps(plotly_layouts, sort_keys=True)
            small = len(rows) < 3
            for lab in LABELS if small or not ctx.quick else ("range", "repeated"):
                df = table(rows, LABELS[lab](len(rows)), cols)
                for pareto in (True, False) if small else (True,):
                    for color in (COLORS if (small and lab == "range") or (lab == "repeated" and len(set(rows)) == 3) else (None,)):
                        look(c, f"scatter {len(cols)}d {len(rows)} rows labels {lab} pareto {pareto} color {color}", df, cols, pareto, color)
            c.check(json.dumps(plotly_layouts, sort_keys=True) == before, f"scatter {len(cols)}d leaves the shared layouts alone", lambda: f"{before}\n{plotly_layouts}")
            c.trace()
            c.state(key)

    C2, C3 = ("secondary_competition", "energy"), ("primary_competition", "secondary_competition", "energy")
    C2b = ("energy", "chempot_distance")
    items = [((a,), C2) for a in product((-1, 0, 1), repeat=2)]
    items += [(t, C2) for t in combinations_with_replacement(list(product((-1, 0, 1), repeat=2)), 2)]
    items += [((a, b), C2b) for a in product((0, 1), repeat=2) for b in product((0, 1), repeat=2)]
    sq = list(product((0, 1, 2), repeat=2))
    cube = list(product((0, 1), repeat=3))
    tri = list(combinations_with_replacement(sq, 3))
    items += [(t, C2) for t in (tri if not ctx.quick else tri[::2])]
    items += [(t, C3) for k in (1, 2, 3) for t in list(combinations_with_replacement(cube, k))[:: 2 if ctx.quick and k == 3 else 1]]
    if not ctx.quick:
        items += [(t[::-1], C2) for t in tri]
        items += [(t, C2) for t in combinations_with_replacement(sq, 4)]
        items += [(t, C3) for t in combinations_with_replacement(cube, 4)]
    ctx.pmap(items, scatter)

    # ---------------- filtering by precursors
    def pre(c, forms):
        key = f"precursors {forms}"
        if not c.case(key):
            return
        with c.guard(key):
            av = {Composition(f).reduced_formula for f in forms}
            for k in range(len(RX) + 1):
                for sub in combinations(range(len(RX)), k):
                    for lab in ("range", "all same"):
                        df = pd.DataFrame({"rxn": [RX[i] for i in sub], "energy": [RX[i].energy_per_atom for i in sub], "tag": list(sub)}, index=LABELS[lab](k))
                        keep = df.copy()
                        got = filter_df_by_precursors(df, list(forms))
                        want = [i for i in sub if {r.reduced_formula for r in RX[i].reactants} <= av]
                        c.check(list(got["tag"]) == want and [str(r) for r in got["rxn"]] == [str(RX[i]) for i in want] and list(got.columns) == list(keep.columns) and
                                list(got.index) == [keep.index[sub.index(i)] for i in want] and list(got["energy"]) == [RX[i].energy_per_atom for i in want], f"{key}: rows kept", lambda: f"{sub}: {list(got['tag'])} vs {want}")
                        c.check(df.equals(keep) and list(df.columns) == list(keep.columns), f"{key}: table unchanged")
                        if k == 2:
                            got.loc[:, "energy"] = 0.0
                            c.check(df.equals(keep), f"{key}: the selection is a new table")
            c.trace()
            c.state(key)

    names = ["BaO", "TiO2", "BaCl2", "Na2TiO3", "Ba2TiO4", "BaO2"]
    alt = {"BaO": "OBa", "TiO2": "Ti2O4", "BaCl2": "Cl2Ba", "Na2TiO3": "TiO3Na2", "Ba2TiO4": "Ba4Ti2O8", "BaO2": "O4Ba2"}
    fs = [t for k in range(len(names) + 1) for t in combinations(names, k)]
    fs = [t if len(t) < 2 or len(t) > 3 else t[::-1] for t in fs] + [tuple(alt[x] for x in t) for t in fs if t]
    ctx.pmap(fs if not ctx.quick else [f for i, f in enumerate(fs) if len(f) in (0, 1, 2, 6) or i % 3 == 0], pre)
    # ---------------- pathway plots
    PH = ["Li", "O2", "Mn", "Y", "Mn2O3", "MnO", "Li2O", "LiMnO2", "YMnO3", "Y2O3", "MnO2"]

    def ents():
        out = []
        for i, f in enumerate(PH):
            comp = Composition(f)
            sp = [el for el, n in comp.items() for _ in range(int(n))]
            n = len(sp)
            vol = (9.0 + 0.37 * i) * n
            st = Structure(Lattice.cubic(vol ** (1 / 3)), sp, [[(k * 0.13) % 1, (k * 0.29) % 1, k / n] for k in range(n)])
            epa = sum((-2.0 - 0.3 * (el.Z % 7)) * x for el, x in comp.items()) / n - (0 if len(comp) == 1 else 1.1 + 0.17 * (i % 5))
            out.append(ComputedStructureEntry(st, epa * n, entry_id=f"mp-{i}", parameters={}, data={}))
        return out

    ENT = ents()
    _cache = {}

    def gset(t):
        if t not in _cache:
            best = {}
            for e in GibbsEntrySet.from_computed_entries(ENT, t):
                f = e.composition.reduced_formula
                if f not in best or e.energy_per_atom < best[f].energy_per_atom:
                    best[f] = e
            _cache[t] = {f: (dict(e.composition.get_el_amt_dict()), float(e.energy)) for f, e in best.items()}
        return _cache[t]

    def hull(t, amt):
        """Lowest energy of any phase mixture with this composition (per its atoms): every phase subset of the size of the space, solved exactly."""
        els = sorted(amt)
        g = [(v, e) for v, e in gset(t).values() if set(v) <= set(els)]
        b = np.array([amt[e] for e in els])
        best = None
        for k in range(1, len(els) + 1):
            for sub in combinations(g, k):
                a = np.array([[v.get(e, 0.0) for v, _ in sub] for e in els])
                x, res, rank, _ = np.linalg.lstsq(a, b, rcond=None)
                if rank < k or np.abs(a @ x - b).max() > 1e-9 or x.min() < -1e-9:
                    continue
                tot = float(sum(xi * e for xi, (_, e) in zip(x, sub)))
                if best is None or tot < best:
                    best = tot
        return best / sum(amt.values())

    def med3(col):
        ext = [col[0], *col, col[-1]]  # reflected edges
        return [sorted(ext[i:i + 3])[1] for i in range(len(col))]

    def path(c, item):
        forms, cols, temps, cascade = item
        key = f"pathway {forms} {temps} {cols}"
        if not c.case(key):
            return
        with c.guard(key):
            amounts = {f: list(cl) for f, cl in zip(forms, cols)}
            keep = json.dumps(amounts)
            sig = f"pathway {forms} {temps}"
            for smooth in (True, False):
                want = {f: (med3(cl) if smooth else list(cl)) for f, cl in amounts.items()}
                if any(all(want[f][i] == 0 for f in forms) for i in range(len(temps))):
                    continue
                pl = PathwayPlotter(amounts, list(temps), **({} if smooth else {"apply_smoothing": False}))
                c.check(list(pl.df.columns) == list(forms) and list(pl.df.index) == list(temps) and all([float(v) for v in pl.df[f]] == want[f] for f in forms), f"{sig} smooth={smooth}: amounts", lambda: f"{amounts}: {pl.df} vs {want}")
                els = sorted({e for f in forms for e in Composition(f).get_el_amt_dict()})
                el_rows = [{e: sum(Composition(f).get_el_amt_dict().get(e, 0) * want[f][i] for f in forms) for e in els} for i in range(len(temps))]
                na = pl.num_atoms_df
                c.check(sorted(na.columns) == els and sorted(map(str, pl.elems)) == els and list(na.index) == list(temps) and all(abs(float(na[e].iloc[i]) - el_rows[i][e]) < 1e-9 for i in range(len(temps)) for e in els),
                        f"{sig} smooth={smooth}: element amounts", lambda: f"{amounts}: {na} vs {el_rows}")
                comps = pl.compositions
                c.check(list(comps.index) == list(temps) and all(abs(comps.iloc[i][e] - el_rows[i][e] / sum(el_rows[i].values())) < 1e-9 for i in range(len(temps)) for e in els), f"{sig} smooth={smooth}: compositions")
                c.check(list(pl.formulas) == list(forms) and json.dumps(amounts) == keep, f"{sig}: inputs")
                back = PathwayPlotter.from_dict(pl.as_dict())
                c.check(back.df.equals(pl.df), f"{sig} smooth={smooth}: reload")
                if not cascade:
                    continue
                plt.close("all")
                ax = pl.plot_pathway()
                lines = {ln.get_label(): ([float(v) for v in ln.get_xdata()], [float(v) for v in ln.get_ydata()]) for ln in ax.get_lines()}
                c.check(lines == {f: ([float(t) for t in temps], want[f]) for f in forms}, f"{sig} smooth={smooth}: pathway lines", lambda: lines)
                plt.close("all")
                with uni.quiet():
                    ax = pl.plot_energy_cascade(list(ENT))
                ln = ax.get_lines()[0]
                exp = []
                for i, t in enumerate(temps):
                    tot = sum(want[f][i] * gset(t)[Composition(f).reduced_formula][1] / sum(gset(t)[Composition(f).reduced_formula][0].values()) * Composition(f).num_atoms for f in forms)
                    nat = sum(el_rows[i].values())
                    exp.append(tot / nat - hull(t, {e: x for e, x in el_rows[i].items() if x > 0}))
                got = [float(v) for v in ln.get_ydata()]
                c.check([float(v) for v in ln.get_xdata()] == [float(t) for t in temps], f"{sig} smooth={smooth}: cascade temperatures", lambda: ln.get_xdata())
                c.check(len(got) == len(exp) and all(abs(a - b) < 1e-4 and a > -1e-6 for a, b in zip(got, exp)), f"{sig} smooth={smooth}: cascade", lambda: f"{amounts}: {got} vs {exp}")
                plt.close("all")
            c.trace()
            c.state(key)

    vals = (0.0, 0.5, 1.0)
    items = []
    up, hold, rev, cool = (400, 700, 1100), (400, 700, 700), (500, 900, 500), (1000, 800, 600)
    two = list(product(product(vals, repeat=3), repeat=2))
    for i, cols in enumerate(two):
        for j, (forms, ts) in enumerate(product((("Mn2O3", "LiMnO2"), ("Y4O6", "Mn2O3")), (up, hold, rev, cool))):
            items.append((forms, cols, ts, (i + 2 * j) % (12 if ctx.quick else 2) == 0))
    three = [((1.0, 0.5, 0.0, 0.0), (0.5, 0.5, 0.25, 0.0), (0.0, 0.2, 1.0, 2.0)), ((0.1, 0.9, 0.2, 0.8), (0.3, 0.0, 0.3, 0.0), (0.0, 0.0, 0.0, 1.0)), ((1.0, 0.0, 0.0, 1.0), (1.0, 0.0, 1.0, 0.0), (0.5, 0.5, 0.5, 0.5))]
    for cols in three:
        for p in permutations(range(3)):
            cc = tuple(cols[k] for k in p)
            for forms in (("Y2O3", "Mn2O3", "YMnO3"), ("Li2O", "Mn2O3", "Li2Mn2O4"), ("MnO2", "Mn", "O2")):
                for ts in ((400, 600, 800, 1000), (400, 900, 900, 400)):
                    items.append((forms, cc, ts, not ctx.quick or p[0] == 0))
    items += [(("Mn2O3", "MnO2", "Mn"), ((1.0,), (0.5,), (0.0,)), (600,), True), (("YMnO3",), ((1.0, 0.5),), (800, 500.0), True)]
    ctx.pmap(items, path)

    # ---------------- network plots
    def net(c, sub):
        key = f"network {sub}"
        if not c.case(key):
            return
        with c.guard(key), uni.quiet():
            n = ReactionNetwork(ReactionSet.from_rxns([RX[i] for i in sub] if sub[0] != "wide" else WIDE[: sub[1]]), Softplus())
            n.build()
            if sub[0] != "wide" and sub[0] % 2 == 0:
                n.set_precursors(sorted(RX[sub[0]].reactant_entries, key=str))
            g = n.graph
            before = (g.num_nodes(), [str(x) for x in g.nodes()], [(a, b) for a, b in g.edge_list()])
            plt.close("all")
            for cmap in (None, "viridis"):
                fig = plot_network(g, **({"vertex_cmap_name": cmap} if cmap else {}))
                fig = fig or plt.gcf()
                pcs = [k for ax in fig.axes for k in ax.collections if len(k.get_offsets()) == g.num_nodes()]
                if c.check(len(pcs) == 1, f"{key} {cmap}: every node drawn once", lambda: [len(k.get_offsets()) for ax in fig.axes for k in ax.collections]):
                    cs = [tuple(np.round(v, 6)) for v in pcs[0].get_facecolors()]
                    if len(cs) == 1:
                        cs = cs * g.num_nodes()
                    sy = [x.chemsys for x in g.nodes()]
                    c.check(len(cs) == len(sy) and all((cs[i] == cs[j]) == (sy[i] == sy[j]) for i in range(len(sy)) for j in range(i)), f"{key} {cmap}: one colour per chemical system", lambda: list(zip(sy, cs)))
                plt.close("all")
            c.check((g.num_nodes(), [str(x) for x in g.nodes()], [(a, b) for a, b in g.edge_list()]) == before, f"{key}: network unchanged")
            c.trace()
            c.state(key)

    METALS = "Li Na K Rb Cs Be Mg Ca Sr Ba Ti Zr Hf V Nb Ta Cr Mo W Mn Fe Co Ni Cu Zn Al Ga In Sn Pb Bi Y La Ce".split()
    WIDE = []
    for a, b in zip(METALS[::2], METALS[1::2]):  # exchange of anions: four chemical systems per reaction
        es = [uni.ient(f, -1.0) for f in (f"{a}O", f"{b}S", f"{a}S", f"{b}O")]
        WIDE.append(ComputedReaction(es, np.array([-1.0, -1.0, 1.0, 1.0])))
    wides = [("wide", k) for k in (range(1, len(WIDE) + 1) if not ctx.quick else (2, 3, 4, 6, 8, 10, 12, len(WIDE)))]
    ctx.pmap(wides + [t for k in (1, 2, 3) for t in combinations(range(len(RX)), k)][:: 2 if ctx.quick else 1], net)
