"""Reaction pool and reference graph model for the network checks."""

from __future__ import annotations

import numpy as np

from vlib import uni

ENT = [("MnO", "MnO", -1.9), ("O2", "O2", 0.0), ("Mn2O3", "Mn2O3", -1.95), ("Mn2O3b", "Mn4O6", -1.90), ("Y2O3", "Y2O3", -3.8),
       ("YMnO3", "YMnO3", -2.95), ("YMn2O5", "YMn2O5", -2.75), ("MnO2", "MnO2", -1.76), ("Y2Mn2O7", "Y2Mn2O7", -2.8), ("Mn3O4", "Mn3O4", -1.94)]
RXN = [
    (["MnO", "O2", "Mn2O3"], [-2, -0.5, 1]),  # 0
    (["Y2O3", "Mn2O3", "YMnO3"], [-1, -1, 2]),  # 1
    (["Mn2O3", "O2", "MnO2"], [-1, -0.5, 2]),  # 2
    (["MnO2", "MnO", "Mn2O3"], [-1, -1, 1]),  # 3 (same product node as 0)
    (["YMnO3", "MnO", "O2", "YMn2O5"], [-1, -1, -0.5, 1]),  # 4
    (["Y2O3", "Mn2O3b", "YMnO3"], [-1, -1, 2]),  # 5 polymorph
    (["Y2O3", "MnO2", "O2", "Y2Mn2O7"], [-1, -2, 0.0001, 1]),  # 6 placeholder, replaced below
    (["Mn2O3", "MnO", "MnO2"], [-1, 1, 1]),  # 7 product node {MnO, MnO2} equals reactant node of 3
    (["Y2O3", "MnO", "O2", "YMnO3"], [-1, -2, -0.5, 2]),  # 8
    (["MnO", "MnO2", "Mn3O4", "Mn2O3"], [-2, -2, 1, 0.5]),  # 9 parallel with 10 (same nodes, other coefficients)
    (["MnO", "MnO2", "Mn3O4", "Mn2O3"], [-5, -3, 2, 1]),  # 10
    (["YMn2O5", "Mn2O3", "MnO2", "YMnO3"], [-1, 0.0001, 1, 1]),  # 11 placeholder
]
RXN[6] = (["Y2O3", "MnO2", "Y2Mn2O7"], [-1, -2, 1])
RXN[11] = (["YMn2O5", "YMnO3", "MnO2"], [-1, 1, 1])
RXN[9] = (["MnO", "MnO2", "Mn3O4", "Mn2O3"], [-3, -2, 1, 1])
RXN[10] = (["MnO", "MnO2", "Mn3O4", "Mn2O3"], [-5, -3, 2, 1])

EXTRA = [
    (["MnO", "O2", "Mn2O3b"], [-2, -0.5, 1]),  # 12: forms the other polymorph
    (["Y2O3", "MnO", "MnO2", "O2", "YMn2O5"], [-1, -2, -2, -0.5, 2]),  # 13: four reactants
]


def entries():
    return {k: uni.ient(f, x, k) for k, f, x in ENT}


def reactions(e, idx=None):
    from rxn_network.reactions.computed import ComputedReaction

    pool = RXN + EXTRA
    return [ComputedReaction([e[k] for k in pool[i][0]], np.array(pool[i][1], float), data={"i": i}) for i in (idx if idx is not None else range(len(RXN)))]


def rk(r):
    return tuple(sorted((str(x.entry_id), round(float(c), 7)) for x, c in zip(r.entries, r.coefficients)))


def model(rxns, pre=None, tgt=None):
    """(nodes, edges): nodes {(kind, frozenset ids)}, edges sorted list (src, dst, label)."""
    nodes, edges = set(), []
    for r in rxns:
        a = ("Reactants", frozenset(str(e.entry_id) for e, c in zip(r.entries, r.coefficients) if c < 0))
        b = ("Products", frozenset(str(e.entry_id) for e, c in zip(r.entries, r.coefficients) if c > 0))
        nodes |= {a, b}
        edges.append((a, b, rk(r)))
    rs = [n for n in nodes if n[0] == "Reactants"]
    ps = [n for n in nodes if n[0] == "Products"]
    pre = frozenset(pre or ())
    for p in ps:
        for r in rs:
            if p[1] == r[1] or (pre and not r[1] <= pre and r[1] <= (p[1] | pre)):
                edges.append((p, r, "loopback_edge"))
    if pre:
        pn = ("Precursors", pre)
        nodes.add(pn)
        edges += [(pn, r, "precursor_edge") for r in rs if r[1] <= pre]
    if tgt:
        tn = ("Target", frozenset([tgt]))
        nodes.add(tn)
        edges += [(p, tn, "target_edge") for p in ps if tgt in p[1]]
    return nodes, sorted(edges, key=uni.crepr)


def node_key(n):
    return (n.description.name, frozenset(str(e.entry_id) for e in n.entries))


def actual(g):
    data = {i: node_key(g.get_node_data(i)) for i in g.node_indices()}
    edges = [(data[s], data[t], e if isinstance(e, str) else rk(e)) for s, t, e in g.weighted_edge_list()]
    return list(data.values()), sorted(edges, key=uni.crepr)


def compare(c, key, g, rxns, pre, tgt):
    nodes, edges = actual(g)
    mn, me = model(rxns, pre, tgt)
    c.check(len(nodes) == len(set(nodes)), f"{key} no duplicate node")
    c.check(set(nodes) == mn, f"{key} nodes", lambda: f"extra {set(nodes) - mn} missing {mn - set(nodes)}")
    c.check(edges == me, f"{key} edges", lambda: f"extra {[x for x in edges if x not in me]} missing {[x for x in me if x not in edges]} n={len(edges)},{len(me)}")


def simple_paths(edges, src, dst):
    """All loopless node paths src->dst with their cheapest cost; edges: {(u, v): weight}."""
    adj = {}
    for (u, v), w in edges.items():
        adj.setdefault(u, []).append((v, w))
    out = []

    def go(path, cost):
        u = path[-1]
        if u == dst:
            out.append((cost, tuple(path)))
            return
        for v, w in adj.get(u, ()):
            if v not in path:
                go([*path, v], cost + w)

    go([src], 0.0)
    return sorted(out, key=lambda x: x[0])
