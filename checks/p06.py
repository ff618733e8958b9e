"""P06: ReactionSet as a faithful container over every short history of operations."""
import json
from itertools import product

import numpy as np
from monty.json import MontyDecoder, MontyEncoder

from vlib import uni

RULE = ("breadth-first search over histories of from_rxns / add_rxns / add_rxn_set / set_chempot / json round trip / "
        "direct construction, on a pool of reactions of sizes 2-4 with polymorphs, shared entries and per-reaction "
        "data; every state is compared (content, data, order within a size, class, chempot, length, costs) with a list model")


def pool():
    from rxn_network.reactions.computed import ComputedReaction

    e = {k: uni.ient(f, x, k) for k, f, x in [
        ("MnO", "MnO", -1.9), ("O2", "O2", 0.0), ("Mn2O3", "Mn2O3", -1.95), ("Mn2O3b", "Mn2O3", -1.90),
        ("Y2O3", "Y2O3", -3.8), ("YMnO3", "YMnO3", -2.95), ("YMn2O5", "YMn2O5", -2.6), ("Y", "Y", 0.0)]}
    def R(es, cs, tag):
        return ComputedReaction([e[x] for x in es], np.array(cs, float), data={"tag": tag, "cost": tag * 0.5})
    rx = [
        R(["MnO", "O2", "Mn2O3"], [-2, -0.5, 1], 1),
        R(["O2", "MnO", "Mn2O3b"], [-1, -4, 2], 2),
        R(["Y2O3", "Mn2O3", "YMnO3"], [-1, -1, 2], 3),
        R(["Mn2O3", "Mn2O3b"], [-1, 1], 4),
        R(["Y2O3", "MnO", "O2", "YMn2O5"], [-1, -4, -1.5, 2], 5),
        R(["Mn2O3", "Y2O3", "YMnO3"], [1, 1, -2], 6),
        R(["Y2O3", "MnO", "O2", "YMnO3"], [-1e-5, -2e-5, -0.5e-5, 2e-5], 7),  # a very small amount
    ]
    return list(e.values()), rx


def content(r):
    return (tuple((uni.ekey(e), round(float(c), 9)) for e, c in zip(r.entries, r.coefficients)), r.data.get("tag"),
            r.data.get("cost"))


def run(ctx):
    from pymatgen.core.periodic_table import Element
    from rxn_network.costs.functions import Softplus, WeightedSum
    from rxn_network.reactions.open import OpenComputedReaction
    from rxn_network.reactions.reaction_set import ReactionSet

    ents, rx = pool()
    dec = MontyDecoder()

    def sized(items):
        """model: list of (content, size) -> per size lists, order kept"""
        out = {}
        for c in items:
            out.setdefault(len(c[0]), []).append(c)
        return out

    def observe(c, key, rs, model, mu):
        got = list(rs.get_rxns())
        c.check(len(rs) == len(model) == len(got), f"{key} length", lambda: f"{len(rs)} {len(got)} vs {len(model)}")
        c.check(len(list(iter(rs))) == len(model), f"{key} iteration")
        g, m = sized([content(r) for r in got]), sized(model)
        c.check(g == m, f"{key} content", lambda: f"{g}\nvs\n{m}")
        for r in got:
            if mu is None:
                c.check(type(r).__name__ == "ComputedReaction", f"{key} class", type(r).__name__)
            else:
                c.check(type(r).__name__ == "OpenComputedReaction"
                        and {str(k): v for k, v in r.chempots.items()} == {mu[0]: mu[1]}, f"{key} open class", f"{r!r}")
        if got:
            cfs = [Softplus(300)]
            if all("cost" in r.data for r in got):
                cfs.append(WeightedSum(["energy_per_atom", "cost"], [1.0, 2.0]))
            for cf in cfs:
                cc = rs.calculate_costs(cf)
                c.check(len(cc) == len(got) and all(np.isclose(a, cf.evaluate(r)) for a, r in zip(cc, got)),
                        f"{key} calculate_costs follows iteration order")
        again = [content(r) for r in rs.get_rxns()]
        c.check(again == [content(r) for r in got], f"{key} repeatable")

    init = [(), (0,), (0, 1), (0, 3, 4), (2, 5, 2), (4, 0, 3, 1, 2, 5), (6, 4, 0)]
    depth = 2 if ctx.quick else 3

    def start(idx, how):
        rs = [rx[i] for i in idx]
        model = [content(r) for r in rs]
        if how == "from_rxns":
            return ReactionSet.from_rxns(rs), model, None
        if how == "entries":
            return ReactionSet.from_rxns(rs, entries=ents), model, None
        if how == "open":
            return ReactionSet.from_rxns(rs, entries=ents, open_elem="O", chempot=-0.7), model, ("O", -0.7)
        if how == "open_rxns":
            o = [OpenComputedReaction.from_computed_rxn(r, {Element("O"): -1.1}) for r in rs]
            return ReactionSet.from_rxns(o, entries=ents), model, (("O", -1.1) if o else None)
        if how == "open_other":  # an explicit open element and potential replace those of the reactions
            o = [OpenComputedReaction.from_computed_rxn(r, {Element("O"): -1.1}) for r in rs]
            return ReactionSet.from_rxns(o, entries=ents, open_elem="Mn", chempot=-0.2), model, ("Mn", -0.2)
        if how == "direct":
            es = sorted(ents, key=lambda e: e.composition)
            ind, co = {}, {}
            for r in rs:
                ind.setdefault(len(r.entries), []).append([es.index(e) for e in r.entries])
                co.setdefault(len(r.entries), []).append(list(r.coefficients))
            return (ReactionSet(es, {k: np.array(v) for k, v in ind.items()}, {k: np.array(v) for k, v in co.items()}),
                    [(c[0], None, None) for c in model], None)
        if how == "generator":
            return ReactionSet.from_rxns(tuple(rs), entries=set(ents)), model, None
        raise AssertionError

    items = list(product(range(len(init)), ["from_rxns", "entries", "open", "open_rxns", "open_other", "direct", "generator"]))

    def one(c, item):
        ii, how = item
        if how in ("open_rxns",) and not init[ii]:
            return
        if not c.case(f"{how}{init[ii]}"):
            return
        with c.guard(f"{how}{init[ii]}"):
            s0 = start(init[ii], how)
            frontier = [(*s0, f"{how}{init[ii]}")]
            for d in range(depth + 1):
                nxt = []
                for rs, model, mu, path in frontier:
                    observe(c, path, rs, model, mu)
                    c.trace()
                    c.state((tuple(sorted(map(repr, model))), mu))
                    c.outcome((len(model), mu is not None))
                    c.sample(path)
                    if d == depth:
                        continue
                    ops = []
                    full = how != "from_rxns"
                    if full and how != "direct":
                        for add in ((1,), (4, 2), (3,)):
                            ops.append((f"add_rxns{add}", lambda add=add: rs.add_rxns([rx[i] for i in add]),
                                        model + [content(rx[i]) for i in add], mu))
                        ops.append(("add_rxn_set(self)", lambda: rs.add_rxn_set(rs), model + model, mu))
                        other = ReactionSet.from_rxns([rx[5], rx[0]], entries=ents)
                        ops.append(("add_rxn_set(other)", lambda: rs.add_rxn_set(other),
                                    model + [content(rx[5]), content(rx[0])], mu))
                        oother = ReactionSet.from_rxns([rx[0]], entries=ents, open_elem="Mn", chempot=-0.4)
                        ops.append(("add_rxn_set(open other)", lambda: rs.add_rxn_set(oother), model + [content(rx[0])], mu))
                    ops.append(("set_chempot(O,-0.5)", lambda: rs.set_chempot("O", -0.5), model, ("O", -0.5)))
                    ops.append(("set_chempot(Mn,0.3)", lambda: rs.set_chempot(Element("Mn"), 0.3), model, ("Mn", 0.3)))
                    ops.append(("set_chempot(O,None)", lambda: rs.set_chempot("O", None), model, ("O", 0)))
                    ops.append(("set_chempot(None)", lambda: rs.set_chempot(None, None), model, None))
                    ops.append(("json", lambda: dec.process_decoded(json.loads(json.dumps(rs.as_dict(), cls=MontyEncoder))),
                                model, mu))
                    for on, f, m2, mu2 in ops:
                        with c.guard(f"{path}.{on}"):
                            new = f()
                            c.step()
                            c.check(isinstance(new, ReactionSet), f"{path}.{on} returns a ReactionSet")
                            observe(c, f"{path} unchanged by {on}", rs, model, mu)
                            nxt.append((new, m2, mu2, f"{path}.{on}"))
                frontier = nxt

    ctx.pmap(items, one)
    # sets over different entries cannot be silently merged
    if ctx.case("mismatch"):
        a = ReactionSet.from_rxns([rx[0]], entries=ents[:4])
        b = ReactionSet.from_rxns([rx[2]], entries=ents)
        for x, y in ((a, b), (b, a)):
            try:
                x.add_rxn_set(y)
                ctx.violation("add_rxn_set over different entries is refused", "no error")
            except ValueError:
                pass
    # a query result is itself a faithful, extendable set
    if ctx.case("subset then add"):
        with ctx.guard("subset then add"):
            full = ReactionSet.from_rxns(rx, entries=ents)
            sub = full.get_rxns_by_reactants(["MnO", "O2"], return_set=True)
            observe(ctx, "subset", sub, [content(rx[0]), content(rx[1])], None)
            new = sub.add_rxn_set(full)
            observe(ctx, "subset+full", new, [content(rx[0]), content(rx[1])] + [content(r) for r in rx], None)
    # extending a set over its own entries is never refused, whatever the polymorphs' ids (hash order) are
    from rxn_network.reactions.computed import ComputedReaction

    def poly(c, n):
        if not c.case(f"polymorph ids {n}"):
            return
        with c.guard(f"polymorph ids {n}"):
            e = [uni.ient("Mn2O3", -1.9 + 0.001 * n, f"a{n}"), uni.ient("Mn4O6", -1.8 + 0.001 * n, f"b{n}"),
                 uni.ient("O2", 0, "o"), uni.ient("MnO", -1.9, "m"), uni.ient("Mn2O3", -1.7, f"c{n}")]
            rr = [ComputedReaction([e[0], e[4]], np.array([-1.0, 1.0])), ComputedReaction([e[1], e[3], e[2]], np.array([-1.0, 4.0, 1.0]))]
            for order in ((0, 1, 2, 3, 4), (4, 3, 2, 1, 0), (1, 4, 0, 2, 3)):
                base = ReactionSet.from_rxns(rr[:1], entries=[e[i] for i in order])
                new = base.add_rxns(rr).add_rxn_set(base)
                observe(c, f"polymorphs {n} {order}", new, [content(rr[0]), content(rr[0]), content(rr[1]), content(rr[0])], None)
                c.trace()

    ctx.pmap(range(100 if ctx.quick else 600), poly)
