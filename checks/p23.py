"""P23: pathway solving under every chunking, batch size, CPU count and (deviation-bounded) completion order."""
from collections import Counter
from itertools import product

import numpy as np

from vlib import enum_model as em
from vlib import fakeray, uni
from vlib import solve_model as sm
from vlib.core import Chooser, explore

RULE = ("controlled scheduler: every chunk size x batch size x CPU count x Ray already running or not, for several solver problems (up to 5-step pathways, with and "
        "without intermediate reactions, closed and open), and for the configurations with several tasks every completion order with at most the bounded number of "
        "deviations from FIFO and from LIFO; each execution's multiset of pathways (reactions, multiplicities, costs) is compared with the exact model and the single-chunk execution")
ASSUMPTIONS = ["Ray is replaced by an in-process scheduler that isolates tasks by pickling (vlib/fakeray.py)"]

PROBLEMS = {  # reactions, net, size, intermediates, open
    "tiny": ((0, 1), 0, 2, None, None),
    "one": ((0,), 0, 3, None, None),
    "none": ((2, 9), 1, 2, None, None),
    "four": ((0, 1, 2, 3, 8, 9, 10), 0, 4, None, None),
    "five": ((0, 1, 2, 4, 9, 11, 8), 6, 5, None, None),
    "six": ((0, 1, 2, 4, 9, 11, 8, 13), 2, 4, None, None),
    "inter": ((0, 9), 0, 3, "b", None),
    "open": ((0, 1, 9, 10), 0, 3, "b", ("O", -0.4)),
}


def run(ctx):
    from pymatgen.core.periodic_table import Element
    from rxn_network.costs.functions import Softplus
    from rxn_network.entries.entry_set import GibbsEntrySet
    from rxn_network.pathways.basic import BasicPathway
    from rxn_network.pathways.pathway_set import PathwaySet
    from rxn_network.pathways.solver import PathwaySolver
    from rxn_network.reactions.computed import ComputedReaction
    from rxn_network.reactions.open import OpenComputedReaction

    cf = Softplus(900)
    ents = em.entries("YMnO")
    es = GibbsEntrySet(ents.values())
    es.build_indices()

    def mk(p, open_=None):
        e, co = [ents[i] for i in p[0]], np.array(p[1], float)
        return OpenComputedReaction(e, co, chempots={Element(open_[0]): open_[1]}) if open_ else ComputedReaction(e, co)

    def content(out):
        c = Counter()
        for p in out:
            ms = sorted((sm.key(sm.rvec(r)), round(float(m) * max(abs(float(t)) for t in r.coefficients), 5), round(float(x), 6))
                        for r, m, x in zip(p.reactions, p.coefficients, p.costs))
            c[tuple(ms)] += 1
        return c

    def execute(name, ch=None, cpus=2.0, lifo=False, init=True, **kw):
        sub, n, k, inter, open_ = PROBLEMS[name]
        rx = [mk(sm.POOL[i], open_) for i in sub]
        fakeray.reset(ch, cpus=cpus, lifo=lifo, initialized=init)
        if open_:
            kw.update(open_elem=Element(open_[0]), chempot=open_[1])
        ps = PathwaySolver(PathwaySet.from_paths([BasicPathway(rx, [cf.evaluate(r) for r in rx])]), es, cf, **kw)
        return content(ps.solve(mk(sm.NETS[n], open_), max_num_combos=k, find_intermediate_rxns=bool(inter), filter_interdependent=False))

    base = {}

    def baseline(name):
        if name not in base:
            base[name] = execute(name, cpus=2.0, chunk_size=10**5)
        return base[name]

    def model_ok(c, name):
        sub, n, k, inter, open_ = PROBLEMS[name]
        net, vs = sm.vec(*sm.NETS[n]), [sm.vec(*sm.POOL[i]) for i in sub]
        if inter:
            vs = vs + sm.intermediates(ents, vs, net, *(open_ or (None, None)))
        want, dep = sm.solutions(sm.candidates(vs, net), net, k)
        b = baseline(name)
        got = {frozenset(x[0] for x in p) for p in b}
        t = frozenset([sm.key(net)])
        c.check(got - dep - {t} <= set(want) and set(want) - {t} <= got, f"{name} baseline is the exact solution", lambda: f"{len(got)} {len(want)}")
        c.check(max(b.values(), default=1) == 1, f"{name} baseline has no duplicates")
        c.notes["pathways"] = c.notes.get("pathways", 0) + len(got)

    def diff(a, b):
        return f"extra {list((a - b).items())[:2]} missing {list((b - a).items())[:2]}"

    for name in PROBLEMS:  # compiles the kernel and fills the baselines before forking
        if ctx.only is None or name in ctx.only:
            key = f"baseline {name}"
            ctx.case(key)
            with ctx.guard(key):
                model_ok(ctx, name)

    def one(c, it):
        if it[0] == "config":
            _, name, chunk, batch, cpus, init = it
            key = f"{name} chunk={chunk} batch={batch} cpus={cpus} running={init}"
            if not c.case(key):
                return
            with c.guard(key):
                got = execute(name, cpus=cpus, init=init, chunk_size=chunk, batch_size=batch)
                b = baseline(name)
                c.check(got == b, f"{key} same pathways", lambda: diff(got, b))
                c.trace()
                c.state(key)
                c.step(fakeray.STATE.tasks)
                c.outcome((name, fakeray.STATE.tasks))
        else:
            _, name, chunk, batch, lifo = it
            key = f"{name} chunk={chunk} batch={batch} orders lifo={lifo}"
            if not c.case(key):
                return
            with c.guard(key):
                b = baseline(name)
                n = 0
                bound, cap = (1, 60) if c.quick else (2, 900)
                for choices, got in explore(lambda ch: execute(name, ch, cpus=3.0, lifo=lifo, chunk_size=chunk, batch_size=batch), bound, cap, c):
                    c.check(got == b, f"{key} same pathways in every order", lambda: f"{choices}: {diff(got, b)}")
                    c.trace()
                    n += 1
                c.notes["schedules"] = c.notes.get("schedules", 0) + n
                c.outcome((name, "orders"))
                c.sample({"config": key, "orders": n})

    items = []
    for name in PROBLEMS:
        chunks = (1, 2, 3, 7, 20, 64) if ctx.quick else (*range(1, 13), 16, 20, 35, 36, 64, 100, 1000)
        for i, (chunk, batch) in enumerate(product(chunks, (None, 1, 2, 5))):
            for j, cpus in enumerate((1.0, 2.0, 3.0, 5.0)):
                if ctx.quick and (i + j) % 2 and not (chunk in (3, 20) and batch is None):
                    continue
                if chunk == 1 and name in ("inter", "open", "five", "six") and ctx.quick and (batch not in (None, 2) or cpus > 2):
                    continue
                items.append(("config", name, chunk, batch, cpus, (i + j) % 3 > 0))
        for chunk in ((9,) if ctx.quick else (5, 9, 25)):
            for batch, lifo in product((2, 100) if ctx.quick else (1, 2, 3, 100), (False, True)):
                items.append(("orders", name, chunk * (6 if name in ("five", "six", "inter", "open") else 1), batch, lifo))
    items.sort(key=lambda x: x[0] != "orders")
    ctx.pmap(items, one)
