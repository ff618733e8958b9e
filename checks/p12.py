"""P12: parallel enumeration under every chunking, CPU count and (deviation-bounded) completion order."""
from collections import Counter
from itertools import product

from vlib import enum_drive as ed
from vlib import enum_model as em
from vlib import fakeray
from vlib.core import Chooser, explore

RULE = ("controlled scheduler: every chunk size x job cap x CPU count for the four enumerators on two small systems, and for the configurations "
        "with several tasks every completion order with at most the bounded number of deviations from FIFO and from LIFO; each execution's "
        "multiset of reactions (phases, coefficients, energies) is compared with the single-chunk execution and with the exact model; "
        "run_enumerators over every enumerator sequence up to the bound is compared with the union")
ASSUMPTIONS = ["Ray is replaced by an in-process scheduler that isolates tasks by pickling (vlib/fakeray.py)"]

SYS = {"YMnO": ("Y", "Mn", "O2", "Y2O3", "MnO", "Mn2O3", "Mn2O3b", "YMnO3"), "LiCO": ("Li", "C", "O2", "Li2O", "CO2", "Li2CO3", "CO")}
PREC = {"YMnO": (["Y2O3", "MnO"], ["YMnO3"]), "LiCO": (["Li2O", "CO2"], ["Li2CO3"])}


def run(ctx):
    from pymatgen.core.periodic_table import Element
    from rxn_network.entries.entry_set import GibbsEntrySet
    from rxn_network.enumerators.basic import BasicEnumerator, BasicOpenEnumerator
    from rxn_network.enumerators.minimize import MinimizeGibbsEnumerator, MinimizeGrandPotentialEnumerator
    from rxn_network.enumerators.utils import run_enumerators

    MAKE = {
        "basic": lambda **k: BasicEnumerator(quiet=True, **k),
        "open": lambda **k: BasicOpenEnumerator(["O2"], quiet=True, **k),
        "gibbs": lambda **k: MinimizeGibbsEnumerator(quiet=True, **k),
        "grand": lambda **k: MinimizeGrandPotentialEnumerator(Element("O"), -0.6, quiet=True, **k),
    }
    ents = {s: em.entries(s, SYS[s]) for s in SYS}

    def content(rs):
        return Counter((tuple(sorted((str(e.entry_id), round(float(x), 7)) for e, x in zip(r.entries, r.coefficients))),
                        round(float(r.energy_per_atom), 7), type(r).__name__) for r in rs)

    def execute(s, kind, kw, ch=None, cpus=2.0, lifo=False, init=True):
        fakeray.reset(ch, cpus=cpus, lifo=lifo, initialized=init)
        return MAKE[kind](**kw).enumerate(GibbsEntrySet(ents[s].values()))

    base = {}

    def baseline(s, kind, pt):
        if (s, kind, pt) not in base:
            kw = dict(chunk_size=10**6, max_num_jobs=10**6)
            if pt:
                kw.update(precursors=PREC[s][0], targets=PREC[s][1])
            base[s, kind, pt] = content(execute(s, kind, kw, cpus=1.0))
        return base[s, kind, pt]

    def want(s, kind, pt):
        e = ents[s]
        pi, ti = (ed.ids_for(PREC[s][0], e), ed.ids_for(PREC[s][1], e)) if pt else (None, None)
        if kind in ("basic", "open"):
            oi = ("O2",) if kind == "open" else ()
            return em.request(em.all_reactions(e, 2, oi), e, pi, ti, open_ids=oi)
        oi = ("O2",) if kind == "grand" else ()
        m = em.request(em.hull_reactions(e, *(("O", -0.6) if oi else (None, None))), e, pi, ti, open_ids=oi)
        return {x for x in m if not oi or set(oi) & (x[0] | x[1])}

    def one(c, item):
        mode, s, kind, pt, chunk, cap, cpus, lifo = item
        key = f"{mode} {s} {kind} pt={pt} chunk={chunk} cap={cap} cpus={cpus} lifo={lifo}"
        if not c.case(key):
            return
        with c.guard(key):
            b = baseline(s, kind, pt)
            kw = dict(chunk_size=chunk, max_num_jobs=cap)
            if pt:
                kw.update(precursors=PREC[s][0], targets=PREC[s][1])
            if mode == "config":
                rs = list(execute(s, kind, kw, cpus=cpus, lifo=lifo, init=cpus != 3.0))
                if cpus == 3.0:
                    c.check(fakeray.STATE.inits == 1, f"{key} starts ray exactly once", fakeray.STATE.inits)
                got = content(rs)
                c.check(got == b, f"{key} same reactions", lambda: f"extra {list((got - b).items())[:2]} missing {list((b - got).items())[:2]}")
                w = want(s, kind, pt)
                g = set(ed.keys(rs, ents[s]))
                c.check(w <= g, f"{key} no reaction lost", lambda: [ed.show(x) for x in w - g][:3])
                c.trace()
                c.state((key, fakeray.STATE.tasks))
                c.outcome((kind, fakeray.STATE.tasks))
                return
            n = 0
            for choices, got in explore(lambda ch: content(execute(s, kind, kw, ch, cpus, lifo)), 2 if ctx.quick else 3,
                                        400 if ctx.quick else 5000, c):
                c.step(len(choices))
                c.state((key, tuple(choices)))
                c.check(got == b, f"{key} same reactions in any completion order",
                        lambda: f"{choices}: extra {list((got - b).items())[:2]} missing {list((b - got).items())[:2]}")
                c.trace()
                n += 1
            c.notes["schedules"] = c.notes.get("schedules", 0) + n
            c.outcome((kind, "orders"))
            c.sample({"config": key, "orders": n})

    items = []
    for s, kind in product(SYS, MAKE):
        chunks = (1, 2, 3, 5, 7, 11, 25, 1000) if ctx.quick else (*range(1, 13), 16, 25, 40, 1000)
        for pt, chunk in product((False, True), chunks):
            caps = (1, 3, 10**6) if chunk in (1, 5) or not ctx.quick else (2,)
            for cap in caps:
                for cpus in ((1.0, 4.0) if ctx.quick and chunk != 2 else (1.0, 2.0, 3.0, 5.0)):
                    if chunk == 1 and cap == 10**6 and ctx.quick and (pt or cpus > 1):
                        continue
                    items.append(("config", s, kind, pt, chunk, cap, cpus, chunk % 2 == 1))
        big = {"basic": 40, "open": 90, "gibbs": 7, "grand": 6}[kind]
        for pt, lifo in product((False, True), (False, True)):
            items.append(("orders", s, kind, pt, big, 10**6, 2.0, lifo))
            if kind in ("gibbs", "grand"):
                items.append(("orders", s, kind, pt, 10**6, 10**6, 4.0, lifo))
    items.sort(key=lambda x: x[0] != "orders")
    ctx.pmap(items, one)

    def union(c, seq):
        key = f"run_enumerators {seq}"
        if not c.case(key):
            return
        with c.guard(key):
            s = "YMnO"
            fakeray.reset(cpus=2.0)
            es = GibbsEntrySet(ents[s].values())
            rs = run_enumerators([MAKE[k](filter_duplicates=d) for k, d in seq], es)
            if not seq:
                c.check(rs is None, f"{key} nothing to run", rs)
                return
            got = content(rs)

            def norm(k):
                items = sorted(k[0])
                m = max(abs(x) for _, x in items)
                return tuple((i, round(x / m, 5)) for i, x in items)

            w = set()
            for k, _ in seq:
                w |= {norm(x) for x in baseline(s, k, False)}
            g = Counter(norm(x) for x in got.elements())
            c.check(set(g) == w, f"{key} is the union", lambda: f"missing {list(w - set(g))[:2]} extra {list(set(g) - w)[:2]}")
            c.check(max(g.values(), default=1) == 1, f"{key} no duplicates", lambda: [k for k, v in g.items() if v > 1][:2])
            c.trace()
            c.state(key)
            c.outcome(("union", len(w)))

    kinds = [("basic", False), ("open", True), ("gibbs", False), ("gibbs", True)]
    seqs = [()] + [p for n in range(1, (3 if ctx.quick else 4)) for p in product(kinds, repeat=n)]
    ctx.pmap(seqs, union)
