"""P20: histories of set_precursors / set_target / find_pathways / round trip against a fresh network."""
import json
from itertools import product

from vlib import net

RULE = ("breadth-first search over sequences of set_precursors, set_target, find_pathways and serialisation; after every step the graph "
        "equals the reference graph of the current precursors and target, and pathways found equal those of a fresh network")


def run(ctx):
    from monty.json import MontyDecoder, MontyEncoder
    from rxn_network.network.network import ReactionNetwork
    from rxn_network.reactions.reaction_set import ReactionSet

    e = net.entries()
    dec = MontyDecoder()
    sets = {"all": tuple(range(len(net.RXN))), "small": (0, 1, 3, 7, 4), "loop": (2, 3, 7, 0, 9, 10), "poly": (0, 12, 1, 5, 2, 8), "four": (13, 0, 3, 8)}
    pres = {"all": [("Y2O3", "Mn2O3"), ("MnO", "O2"), ("Y2O3", "MnO", "O2"), ("YMnO3", "MnO2")],
            "small": [("Y2O3", "Mn2O3"), ("MnO", "O2"), ("Y2O3", "MnO", "O2")],
            "loop": [("Mn2O3", "O2"), ("MnO", "MnO2"), ("MnO", "O2")],
            "poly": [("Y2O3", "MnO", "O2"), ("Y2O3", "Mn2O3b"), ("Y2O3", "Mn2O3")],
            "four": [("Y2O3", "MnO", "MnO2", "O2"), ("Y2O3", "MnO", "O2")]}
    tgts = {"all": ["YMn2O5", "MnO2", "YMnO3"], "small": ["YMnO3", "YMn2O5"], "loop": ["MnO2", "Mn3O4"], "poly": ["Mn2O3", "Mn2O3b", "YMnO3"], "four": ["YMn2O5", "YMnO3"]}
    depth = 3 if ctx.quick else 4

    def fresh(name):
        rn = ReactionNetwork(ReactionSet.from_rxns(net.reactions(e, sets[name])))
        rn.build()
        return rn

    def ask(x):  # the other polymorph can only be asked for by its entry
        return e[x] if x.endswith("b") else e[x].composition.reduced_formula

    def paths(ps):
        return sorted((round(sum(p.costs), 7), len(p.reactions)) for p in ps)

    CACHE = {}

    def fresh_paths(name, pre, t):
        k = (name, pre, t)
        if k not in CACHE:
            rn = fresh(name)
            rn.set_precursors([ask(x) for x in pre])
            CACHE[k] = paths(rn.find_pathways([ask(t)], k=6))
        return CACHE[k]

    def ops(name):
        out = [("pre", p) for p in pres[name]] + [("tgt", t) for t in tgts[name]] + [("find", t) for t in tgts[name][:2]] + [("json", None), ("pre_rev", pres[name][0])]
        return out

    items = [(name, o1) for name in sets for o1 in range(len(ops(name)))]

    def one(c, item):
        name, first = item
        al = ops(name)
        rx = net.reactions(e, sets[name])
        for rest in product(range(len(al)), repeat=depth - 1):
            hist = (first, *rest)
            label = f"{name}:" + ";".join(f"{al[i][0]}={al[i][1]}" for i in hist)
            # a history whose adjacent steps are the same read-only/idempotent step adds nothing beyond the shorter one
            if not c.case(label):
                continue
            with c.guard(label):
                rn = fresh(name)
                pre = t = None
                for n, i in enumerate(hist):
                    op, arg = al[i]
                    c.step()
                    if op in ("pre", "pre_rev"):
                        rn.set_precursors([ask(x) for x in (arg if op == "pre" else arg[::-1])])
                        pre = arg
                    elif op == "tgt":
                        rn.set_target(ask(arg))
                        t = arg
                    elif op == "find":
                        if pre is None:
                            break
                        got = paths(rn.find_pathways([ask(arg)], k=6))
                        t = arg
                        c.check(got == fresh_paths(name, pre, arg), f"{label} step {n} pathways", lambda: f"{got} vs {fresh_paths(name, pre, arg)}")
                        c.outcome(("find", len(got)))
                    else:
                        rn = dec.process_decoded(json.loads(json.dumps(rn.as_dict(), cls=MontyEncoder)))
                        c.check(rn.precursors is None or isinstance(rn.precursors, set), f"{label} step {n} precursors restored as a set", lambda: f"{rn.precursors}")
                    net.compare(c, f"{label} step {n}", rn.graph, rx, pre, t)
                    c.check({str(x.entry_id) for x in rn.precursors or ()} == set(pre or ()), f"{label} step {n} precursors")
                    c.check((str(rn.target.entry_id) if rn.target else None) == t, f"{label} step {n} target")
                    c.state((name, pre, t, al[i][0]))
                c.trace()
                c.outcome((pre is None, t is None))
        c.sample(f"{name} first={al[first]}")

    ctx.pmap(items, one)
