"""P19: network graph vs a reference graph model for every small reaction set, precursor set and target."""
from itertools import combinations, permutations

from vlib import net, uni

RULE = ("every reaction subset up to the bound from a pool with shared nodes, polymorphs, parallel reactions and loops, in two orders, "
        "closed and open, with edge costs; then every precursor set (<=3 phases) and every target, given as entries or formulas; oracle: node and edge multisets of a reference model")


def run(ctx):
    from rxn_network.network.entry import DummyEntry, NetworkEntry, NetworkEntryType
    from rxn_network.costs.functions import Softplus, WeightedSum
    from rxn_network.network.network import ReactionNetwork
    from rxn_network.reactions.reaction_set import ReactionSet

    n = len(net.RXN)
    sizes = (1, 2, 3) if ctx.quick else (1, 2, 3, 4)
    subs = [s for k in sizes for s in combinations(range(n), k)] + [tuple(range(n))]
    subs += [(13,), (0, 13), (13, 4, 12), (3, 8, 13)]  # with a reaction of four reactants
    e = net.entries()

    def build(rx, **kw):
        rn = ReactionNetwork(ReactionSet.from_rxns(rx, **kw.pop("set_kw", {})), **kw)
        rn.build()
        return rn

    def one(c, s):
        if not c.case(s):
            return
        with c.guard(s):
            rx = net.reactions(e, s)
            for order in (rx, rx[::-1]):
                rn = build(order)
                net.compare(c, f"{s} built", rn.graph, rx, None, None)
                c.trace()
            used = sorted({str(x.entry_id) for r in rx for x in r.entries})
            byid = {str(x.entry_id): x for x in rn.entries}
            c.check(set(byid) == set(used) and len(byid) == len(rn.entries), f"{s} entries are those of the reactions")
            els = sorted({str(el) for k in used for el in e[k].composition})
            c.check(rn.chemsys == "-".join(els), f"{s} chemsys")
            pres = [p for k in (1, 2, 3) for p in combinations(used, k)]
            if c.quick and len(pres) > 12:
                pres = pres[::max(1, len(pres) // 12)]
            if len(s) == n or 13 in s:
                pres = [p for k in (1, 2, 3, 4) for p in combinations(used, k)]
            for j, p in enumerate(pres):
                rn = build(rx)
                rn.set_precursors([byid[x] for x in p])
                key = f"{s} precursors {p}"
                net.compare(c, key, rn.graph, rx, p, None)
                c.check({str(x.entry_id) for x in rn.precursors} == set(p), f"{key} reported")
                t = used[j % len(used)]
                rn.set_target(byid[t])
                net.compare(c, f"{key} target {t}", rn.graph, rx, p, t)
                c.check(str(rn.target.entry_id) == t, f"{key} target reported")
                c.trace(2)
                c.state((s, p, t))
                c.outcome((rn.graph.num_nodes(), rn.graph.num_edges()))
            for t in used:
                rn = build(rx)
                rn.set_target(byid[t])
                net.compare(c, f"{s} target {t}", rn.graph, rx, None, t)
                # by formula: the lowest-energy polymorph in the network
                f = byid[t].composition.reduced_formula
                best = min((x for x in byid.values() if x.composition.reduced_formula == f), key=lambda x: x.energy_per_atom)
                rn2 = build(rx)
                rn2.set_target(f)
                rn2.set_precursors([f])
                c.check(rn2.target == best and rn2.precursors == {best}, f"{s} by formula {f}")
                net.compare(c, f"{s} by formula {f}", rn2.graph, rx, (str(best.entry_id),), str(best.entry_id))
            for bad in (uni.ient("FeO", -1.3, "foreign"), uni.ient("MnO", -1.0, "foreign2")):
                for f in (lambda r, b=bad: r.set_precursors([b]), lambda r, b=bad: r.set_target(b)):
                    rn = build(rx)
                    try:
                        f(rn)
                        c.violation(f"{s} foreign phase {bad.entry_id} accepted", "no error")
                    except ValueError:
                        net.compare(c, f"{s} after refused phase", rn.graph, rx, None, None)
            c.sample(f"{s}: {rn}")

    ctx.pmap(subs, one)
    if ctx.case("nodes"):  # nodes are equal exactly when they hold the same phases in the same role
        with ctx.guard("nodes"):
            ph = [uni.ient("MnO", -1.9, "a"), uni.ient("MnO", -1.5, "b"), uni.ient("O2", 0.0, "c"), uni.ient("Li2O", -2.0, "d"), uni.ient("LiMnO2", -2.2, "e"), uni.ient("YMn2O5", -2.5, "f")]
            nodes = []
            for k in (1, 2, 3, 4):
                for sub in combinations(range(len(ph)), k):
                    for ty in NetworkEntryType:
                        for order in (sub, sub[::-1]):
                            nodes.append((sub, ty, NetworkEntry([ph[i] for i in order], ty)))
            for s1, t1, n1 in nodes:
                els = {str(x) for i in s1 for x in ph[i].composition}
                ctx.check(n1.dim == len(els) and {str(x) for x in n1.elements} == els and set(n1.chemsys.split("-")) == els and n1.description == t1 and n1.entries == {ph[i] for i in s1}, f"node {s1} {t1.name}", lambda: (n1.dim, n1.chemsys))
                for s2, t2, n2 in nodes[:: 3 if ctx.quick else 1]:
                    same = s1 == s2 and t1 == t2
                    ctx.check((n1 == n2) == same and (not same or hash(n1) == hash(n2)), f"nodes {s1} {t1.name} and {s2} {t2.name} equal exactly when alike")
            d = DummyEntry()
            ctx.check(all(d != n and n != d for _, _, n in nodes) and d == d, "the dummy node is no other node")
            ctx.trace()
    if ctx.case("unbuilt"):
        rn = ReactionNetwork(ReactionSet.from_rxns(net.reactions(e, (0, 1))))
        for f in (lambda: rn.set_precursors(["MnO"]), lambda: rn.set_target("MnO")):
            try:
                f()
                ctx.violation("unbuilt network refuses precursors/target", "no error")
            except ValueError:
                pass
