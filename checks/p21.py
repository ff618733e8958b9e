"""P21: k shortest loopless paths on every small weighted digraph, and on reaction networks, vs brute force."""
from itertools import combinations, product

import numpy as np

from vlib import net, uni

RULE = ("every directed graph on 4 nodes (edge absent / weights from a set / parallel edges / free edge) and on 5 nodes (edge subsets under several weight assignments), "
        "every k in {1,2,3,5,50}; and networks from reaction subsets; oracle: brute-force enumeration of loopless paths with the cheapest parallel edge")


def run(ctx):
    from rxn_network.costs.base import CostFunction
    from rxn_network.costs.functions import Softplus
    from rxn_network.network.base import Graph
    from rxn_network.network.network import ReactionNetwork, yens_ksp
    from rxn_network.reactions.computed import ComputedReaction
    from rxn_network.reactions.reaction_set import ReactionSet

    class ByData(CostFunction):
        def evaluate(self, rxn):
            return rxn.data["w"]

    cf = ByData()
    a, b = uni.ient("MnO", -1.9, "a"), uni.ient("MnO2", -1.7, "b")

    def edge(w):
        if w == 0:
            return "loopback_edge"
        return ComputedReaction([a, b], np.array([-1.0, 1.0]), data={"w": float(w)})

    EDGE = {w: edge(w) for w in (0, 1, 2, 3, 4, 5, 7, 11, 2.5, 1.5)}
    ks = (1, 2, 3, 5, 50)

    def check_graph(c, key, n, el, kset):
        """el: list of (u, v, w) possibly parallel"""
        g = Graph()
        g.add_nodes_from([f"n{i}" for i in range(n)])
        g.add_edges_from([(u, v, EDGE[w]) for u, v, w in el])
        best = {}
        for u, v, w in el:
            best[u, v] = min(w, best.get((u, v), 1e9))
        ref = net.simple_paths(best, 0, n - 1)
        for k in kset:
            with c.guard(f"{key} k={k}"):
                got = [list(map(int, p)) for p in yens_ksp(g, cf, k, 0, n - 1)]
                c.trace()
                costs = [sum(best.get(x, 1e6) for x in zip(p, p[1:])) for p in got]
                ok = (len({tuple(p) for p in got}) == len(got) and all(len(set(p)) == len(p) for p in got)
                      and all(p[0] == 0 and p[-1] == n - 1 for p in got)
                      and np.allclose(costs, [x[0] for x in ref[:k]] if len(costs) == len(ref[:k]) else [1e9] * len(costs)))
                c.check(ok and len(got) == min(k, len(ref)), f"{key} k={k}", lambda: f"edges {el}\ngot {got} costs {costs}\nwant {ref[:k]}")
        c.check(g.num_edges() == len(el) and sorted((u, v) for u, v in g.edge_list()) == sorted((u, v) for u, v, _ in el), f"{key} graph unchanged")
        c.state((n, tuple(el)))
        c.outcome(len(ref))

    # 4 nodes: edges that can matter, plus edges back into the start
    e4 = [(0, 1), (0, 2), (0, 3), (1, 2), (2, 1), (1, 3), (2, 3)]
    back = [(1, 0), (2, 0), (3, 1)]
    opts = [(), (1,), (2,), (0,), (1, 2)] if ctx.quick else [(), (1,), (2,), (0,), (1, 2), (2, 2), (5,)]
    items = [("4", o) for o in product(range(len(opts)), repeat=2)]
    e5 = [(u, v) for u in range(4) for v in range(1, 5) if u != v]
    wsets = [[1] * 13, [1, 2, 3, 1, 5, 1, 2, 4, 1, 3, 1, 2, 1], [3, 1, 7, 11, 1, 1, 2, 1, 1, 5, 4, 0, 2]]
    if not ctx.quick:
        wsets += [[2, 1, 0, 11, 3, 0, 2, 1, 7, 5, 4, 0, 2], [5, 4, 3, 2, 1, 5, 4, 3, 2, 1, 5, 4, 3]]
    items += [("5", (i, hi)) for i in range(len(wsets)) for hi in range(16)]
    n = len(net.RXN)
    subs = [s for k in (2, 3, 5) for s in combinations(range(n), k)][:: 3 if ctx.quick else 1] + [tuple(range(n))]
    items += [("net", s) for s in subs]

    def one(c, item):
        kind, arg = item
        if kind == "4":
            for rest in product(range(len(opts)), repeat=5):
                sel = (*arg, *rest)
                key = f"4 {sel}"
                if not c.case(key):
                    continue
                el = [(u, v, w) for (u, v), o in zip(e4, sel) for w in opts[o]]
                if sum(sel) % 3 == 0:
                    el += [(u, v, 1) for u, v in back]
                check_graph(c, key, 4, el, ks if not c.quick else (2, 3, 50) if sum(sel) % 2 else (1, 5))
            c.sample(f"4 nodes {arg}")
        elif kind == "5":
            i, hi = arg
            for lo in range(512):
                m = hi * 512 + lo
                key = f"5 w{i} {m:013b}"
                if not c.case(key):
                    continue
                el = [(u, v, wsets[i][j]) for j, (u, v) in enumerate(e5) if m >> j & 1]
                check_graph(c, key, 5, el, (3, 50) if c.quick else ks)
        else:
            e = net.entries()
            rx = net.reactions(e, arg)
            used = sorted({str(x.entry_id) for r in rx for x in r.entries})
            byid = e
            cfn = Softplus(700)
            pres = [p for k in (1, 2, 3) for p in combinations(used, k)]
            if c.quick:
                pres = pres[:: max(1, len(pres) // 8)]
            for j, p in enumerate(pres):
                key = f"net {arg} {p}"
                if not c.case(key):
                    continue
                with c.guard(key):
                    rn = ReactionNetwork(ReactionSet.from_rxns(rx), cost_function=cfn)
                    rn.build()
                    rn.set_precursors([byid[x] for x in p])
                    tg = [used[j % len(used)], used[(3 * j + 1) % len(used)]]
                    k = ks[j % len(ks)]
                    ps = list(rn.find_pathways([byid[t] for t in tg], k=k))
                    want_cost = []
                    known = {}
                    for t in tg:
                        nodes, edges = net.model(rx, p, t)
                        best, lab = {}, {}
                        for u, v, l in edges:
                            w = 0.0 if isinstance(l, str) else next(cfn.evaluate(r) for r in rx if net.rk(r) == l)
                            if w < best.get((u, v), 1e9):
                                best[u, v], lab[u, v] = w, l
                        ref = net.simple_paths(best, ("Precursors", frozenset(p)), ("Target", frozenset([t])))
                        want_cost += [round(x[0], 6) for x in ref[:k]]
                        for cost, path in ref:
                            known[tuple(lab[x] for x in zip(path, path[1:]) if not isinstance(lab[x], str))] = cost
                    got = [round(float(sum(x.costs)), 6) for x in ps]
                    c.trace()
                    c.state(key)
                    c.outcome(("net", len(got)))
                    c.check(len(got) == len(want_cost) and np.allclose(got, want_cost, atol=2e-6), f"{key} -> {tg} k={k} costs", lambda: f"got {got} want {want_cost}")
                    for x in ps:
                        seq = tuple(net.rk(r) for r in x.reactions)
                        c.check(seq in known and abs(known[seq] - sum(x.costs)) < 1e-6, f"{key} -> {tg} pathway is a path", lambda: f"{x}")
                        c.check(len(x.costs) == len(x.reactions) and np.allclose(x.costs, [cfn.evaluate(r) for r in x.reactions]), f"{key} step costs")
                        c.check(np.isclose(x.total_cost, sum(x.costs)), f"{key} total cost")
            c.sample(f"net {arg}")

    ctx.pmap(items, one)
