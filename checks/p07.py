"""P07: duplicate filtering, for every small multiset of reactions, CPU count and completion order."""
from itertools import combinations_with_replacement, permutations, product

import numpy as np

from vlib import fakeray, uni
from vlib.core import explore

RULE = ("every multiset (bounded size) and every choice of <=2 ensured reactions from a pool holding positive "
        "multiples, permuted phase orders, reversed reactions, polymorph variants and same-phase non-multiples; "
        "serial, and parallel under 1-4+ CPUs with every bounded-deviation task completion order; oracle: equivalence "
        "classes of (entries, coefficients up to a positive factor)")


def pool():
    from rxn_network.reactions.computed import ComputedReaction

    e = {k: uni.ient(f, x, k) for k, f, x in [
        ("MnO", "MnO", -1.9), ("O2", "O2", 0.0), ("Mn2O3", "Mn2O3", -1.95), ("Mn2O3b", "Mn2O3", -1.90),
        ("Y2O3", "Y2O3", -3.8), ("YMnO3", "YMnO3", -2.95), ("Mn3O4", "Mn3O4", -1.93), ("MnO2", "MnO2", -1.75)]}
    R = lambda es, cs: ComputedReaction([e[x] for x in es], np.array(cs, float), data={"t": 1})  # noqa: E731
    rx = {
        "a": R(["MnO", "O2", "Mn2O3"], [-2, -0.5, 1]),
        "a2": R(["MnO", "O2", "Mn2O3"], [-4, -1, 2]),
        "a3p": R(["O2", "Mn2O3", "MnO"], [-1.5, 3, -6]),
        "ar": R(["MnO", "O2", "Mn2O3"], [2, 0.5, -1]),
        "ab": R(["MnO", "O2", "Mn2O3b"], [-2, -0.5, 1]),
        "b": R(["Y2O3", "Mn2O3", "YMnO3"], [-1, -1, 2]),
        "b05": R(["Mn2O3", "YMnO3", "Y2O3"], [-0.5, 1, -0.5]),
        "br2": R(["YMnO3", "Mn2O3", "Y2O3"], [-4, 2, 2]),
        "p": R(["Mn2O3", "Mn2O3b"], [-1, 1]),
        "pr": R(["Mn2O3b", "Mn2O3"], [-1, 1]),
        "p2": R(["Mn2O3b", "Mn2O3"], [2, -2]),
        "q": R(["MnO", "MnO2", "Mn2O3", "Mn3O4"], [-2, -3, 1, 1]),
        "q2": R(["MnO", "MnO2", "Mn2O3", "Mn3O4"], [-3, -2, 1, 1]),
        "q3": R(["Mn3O4", "Mn2O3", "MnO2", "MnO"], [2, 2, -4, -6]),
        # same phases, almost but not a multiple of q2 (two degrees of freedom)
        "qn": R(["MnO", "MnO2", "Mn2O3", "Mn3O4"], [-3.004, -2.002, 1, 1.002]),
        "qm": R(["Mn3O4", "Mn2O3", "MnO2", "MnO"], [2.0006, 2, -4.0006, -6.0012]),
    }
    return list(e.values()), rx


def cls_key(r):
    v = sorted((str(x.entry_id), float(c)) for x, c in zip(r.entries, r.coefficients))
    m = max(abs(c) for _, c in v)
    return tuple((k, round(c / m, 8)) for k, c in v)


def exact_key(r):
    return tuple((str(x.entry_id), round(float(c), 9)) for x, c in zip(r.entries, r.coefficients))


def judge(ctx, key, rxns, ensure, out):
    got = [exact_key(r) for r in out]
    src = [exact_key(r) for r in rxns]
    ctx.check(all(g in src for g in got), f"{key} only original reactions", lambda: f"{got} from {src}")
    classes = {}
    for r in rxns:
        classes.setdefault(cls_key(r), []).append(exact_key(r))
    ens = [exact_key(r) for r in ensure]
    for e in ens:
        ctx.check(e in got, f"{key} keeps ensured reaction", lambda: f"{e} not in {got}")
    gc = {}
    for r in out:
        gc.setdefault(cls_key(r), []).append(exact_key(r))
    ctx.check(set(gc) == set(classes), f"{key} every distinct reaction survives",
              lambda: f"missing {set(classes) - set(gc)} extra {set(gc) - set(classes)}")
    for k, v in gc.items():
        e_here = {e for e in ens if e in classes.get(k, [])}
        want = max(1, len(e_here))
        ctx.check(len(v) == want, f"{key} one reaction per class", lambda: f"{v} ensured={e_here}")
    ctx.outcome((len(rxns), len(got)))


def run(ctx):
    from rxn_network.reactions.reaction_set import ReactionSet

    ents, rx = pool()
    names = list(rx)
    small = ["a", "a2", "a3p", "ar", "ab", "b", "b05", "q", "q2", "q3"]
    size = 3 if ctx.quick else 4
    sets = [s for k in range(1, size + 1) for s in combinations_with_replacement(names, k)]
    sets = [s for s in sets]
    jobs = [("serial", s) for s in sets]
    order_sets = [("q3", "q", "q2"), ("a2", "a3p", "a"), ("b", "br2", "b05", "a3p", "ar", "a"), ("p2", "pr", "p", "q3", "a3p"),
                  tuple(reversed(names)), tuple(names), tuple(names) * 2, ("a",) * 4, ("p", "pr", "p2", "p"),
                  ("a2", "ar", "a", "ar", "b", "br2", "b05", "br2", "q", "q3", "q2", "p", "p2", "pr")]
    jobs += [("perm", p) for s in (("a", "a2", "a3p", "ar"), ("b", "b05", "br2"), ("q", "q2", "q3"), ("q2", "qn", "q3", "qm"), ("p", "pr", "p2"),
                                   ("a2", "b", "a", "b05")) for p in permutations(s)]
    jobs += [("par", s) for s in order_sets]

    def one(c, job):
        how, s = job
        if not c.case(f"{how}:{s}"):
            return
        rxns = [rx[n] for n in s]
        with c.guard(f"{how} {s}"):
            rs = ReactionSet.from_rxns(rxns, entries=ents)
            if how in ("serial", "perm"):
                ens_opts = [()] + [(n,) for n in dict.fromkeys(s)]
                if len(dict.fromkeys(s)) > 1 and (how == "perm" or len(s) <= 2):
                    d = list(dict.fromkeys(s))
                    ens_opts += [(d[i], d[j]) for i in range(len(d)) for j in range(len(d)) if i != j]
                for ens in ens_opts:
                    c.state((s, ens))
                    c.trace()
                    out = rs.filter_duplicates(ensure_rxns=[rx[n] for n in ens] or None, parallelize=False)
                    judge(c, f"serial {s} ensure={ens}", rxns, [rx[n] for n in ens], list(out))
                    c.check([exact_key(r) for r in rs.get_rxns()].__len__() == len(s), f"{s} input set unchanged")
                out = rs.filter_duplicates(parallelize=False).filter_duplicates(parallelize=False)
                judge(c, f"serial twice {s}", rxns, [], list(out))
                return
            ref = sorted(exact_key(r) for r in rs.filter_duplicates(parallelize=False))
            for ens in ((), (s[0],), (s[-1], s[0])):
                for cpus in (1, 2, 3, 4, 5, 9):
                    def go(ch, cpus=cpus, ens=ens):
                        fakeray.reset(ch, cpus)
                        return list(rs.filter_duplicates(ensure_rxns=[rx[n] for n in ens] or None))
                    for choices, out in explore(go, 2 if c.quick else 3, ctx=c, max_runs=400):
                        c.trace()
                        c.state((s, ens, cpus, tuple(choices)))
                        k = f"parallel {s} ensure={ens} cpus={cpus}"
                        judge(c, k, rxns, [rx[n] for n in ens], out)
                        if not ens:
                            c.check(sorted(exact_key(r) for r in out) == ref, f"{k} same result as serial",
                                    lambda: f"schedule {choices}")
            fakeray.reset(None, 3, initialized=False)
            out = list(rs.filter_duplicates())
            judge(c, f"parallel {s} ray not yet started", rxns, [], out)
            out = list(ReactionSet.from_rxns(rxns, entries=ents, filter_duplicates=True))
            judge(c, f"from_rxns(filter_duplicates) {s}", rxns, [], out)
        c.sample(f"{how}:{s}")

    ctx.pmap(jobs, one)
    if ctx.case("missing ensure"):
        rs = ReactionSet.from_rxns([rx["a"], rx["b"]], entries=ents)
        try:
            rs.filter_duplicates(ensure_rxns=[rx["b05"]], parallelize=False)
            ctx.violation("ensuring a reaction that is not in the set is refused")
        except ValueError:
            pass
