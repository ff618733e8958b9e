"""P31: workflow jobs and flows vs direct library calls, over their option spaces."""
from collections import Counter
from itertools import product

import numpy as np

from vlib import fakeray, net, uni
from vlib.core import explore

RULE = ("every combination of the enumerated options of ReactionEnumerationMaker, NetworkMaker, PathwaySolverMaker and CalculateCompetitionMaker (chunk sizes, CPU counts, memory "
        "limits, completion orders up to 1-2 deviations), job run on the real code, result compared with direct library calls and, for competition, with the defining hulls; "
        "every option combination of NetworkFlowMaker: job graph (who consumes which output of whom, every maker option, every enumerator) vs a reference wiring; a subset of "
        "flows run end to end through jobflow in memory and compared stage by stage")
ASSUMPTIONS = ("precursor pairs consisting of one phase and the open element are not scored by an interface hull model (one closed phase only)",)

EXTRA = [("Li", "Li", 0.0), ("Cl2", "Cl2", 0.0), ("LiCl", "LiCl", -2.1), ("YOCl", "YOCl", -3.3), ("LiMnO2", "LiMnO2", -2.2), ("Li2O", "Li2O", -2.05), ("YCl3", "YCl3", -2.55)]


def nk(r):
    m = max(abs(float(c)) for c in r.coefficients)
    return tuple(sorted((str(e.entry_id), round(float(c) / m, 6)) for e, c in zip(r.entries, r.coefficients)))


def mu_of(r):
    return tuple(sorted((str(k), round(float(v), 6)) for k, v in getattr(r, "chempots", {}).items())) if hasattr(r, "chempots") else None


def content(rs):
    """Reactions up to scale, with energies and chemical potentials."""
    return Counter((nk(r), round(float(r.energy_per_atom), 6), mu_of(r)) for r in rs)


def exact_content(rs):
    return Counter((net.rk(r), round(float(r.energy_per_atom), 6), mu_of(r)) for r in rs)


def graph(g):
    data = {i: net.node_key(g.get_node_data(i)) for i in g.node_indices()}
    lab = {}
    for a, b, e in g.weighted_edge_list():
        lab.setdefault((data[a], data[b]), []).append(e if isinstance(e, str) else (nk(e), round(float(e.energy_per_atom), 6), mu_of(e)))
    return Counter(data.values()), {k: sorted(v, key=uni.crepr) for k, v in lab.items()}


def paths_of(ps):
    return Counter((tuple((nk(r), mu_of(r)) for r in p.reactions), tuple(round(float(x), 6) for x in p.costs)) for p in ps or ())


def balanced_of(ps):
    c = Counter()
    for p in ps:
        ms = sorted((nk(r), mu_of(r), round(float(m) * max(abs(float(t)) for t in r.coefficients), 5), round(float(x), 6)) for r, m, x in zip(p.reactions, p.coefficients, p.costs))
        c[tuple(ms)] += 1
    return c


def run(ctx):
    import rxn_network.jobs.core as jc
    from jobflow import JobStore, run_locally
    from jobflow.core.reference import OutputReference
    from maggma.stores import MemoryStore
    from pymatgen.core.periodic_table import Element
    from rxn_network.costs.calculators import ChempotDistanceCalculator, PrimaryCompetitionCalculator, SecondaryCompetitionCalculator
    from rxn_network.costs.functions import Softplus
    from rxn_network.entries.entry_set import GibbsEntrySet
    from rxn_network.enumerators.basic import BasicEnumerator, BasicOpenEnumerator
    from rxn_network.enumerators.minimize import MinimizeGibbsEnumerator, MinimizeGrandPotentialEnumerator
    from rxn_network.enumerators.utils import get_computed_rxn
    from rxn_network.flows.core import NetworkFlowMaker
    from rxn_network.network.network import ReactionNetwork
    from rxn_network.pathways.solver import PathwaySolver
    from rxn_network.reactions.basic import BasicReaction
    from rxn_network.reactions.computed import ComputedReaction
    from rxn_network.reactions.hull import InterfaceReactionHull
    from rxn_network.reactions.reaction_set import ReactionSet
    from rxn_network.core import Composition

    O = Element("O")
    E = net.entries()
    els = [uni.ient("Mn", 0.0, "Mn"), uni.ient("Y", 0.0, "Y")]
    ES = GibbsEntrySet([*E.values(), *els])
    ES.build_indices()
    small = GibbsEntrySet([E[k] for k in ("MnO", "O2", "Mn2O3", "Y2O3", "YMnO3", "YMn2O5")] + els)
    small.build_indices()
    wide = GibbsEntrySet([*E.values(), *els, *(uni.ient(f, x, i) for i, f, x in EXTRA)])
    wide.build_indices()

    def make(maker, *a, **k):
        """The job body, without jobflow's bookkeeping."""
        f = type(maker).make
        return f.original(maker, *a, **k)

    def dedupe(rxns):
        seen = {}
        for r in rxns:
            seen.setdefault((nk(r), mu_of(r)), r)
        return list(seen.values())

    # ------------------------------------------------------------ enumeration job
    def enums(tg):
        return {"b": lambda: BasicEnumerator(targets=tg, n=2), "o": lambda: BasicOpenEnumerator(open_phases=["O2"], targets=tg[:1] if tg else None),
                "m": lambda: MinimizeGibbsEnumerator(targets=tg), "g": lambda: MinimizeGrandPotentialEnumerator(open_elem=O, mu=-0.3, targets=tg),
                "p": lambda: BasicEnumerator(precursors=["Mn2O3", "Y2O3"], exclusive_precursors=True)}

    def enumeration(c, it):
        sel, tg = it
        key = f"enumerate {'+'.join(sel)} {tg}"
        if not c.case(key):
            return
        with c.guard(key):
            fakeray.reset()
            es = [enums(tg)[s]() for s in sel]
            want = []
            for e in es:
                want += list(e.enumerate(small))
            fakeray.reset()
            before = [e.as_dict() for e in es]
            doc = make(jc.ReactionEnumerationMaker(name="x"), es, small)
            got = content(doc.rxns)
            closed = not any(hasattr(r, "chempots") for r in want) or all(hasattr(r, "chempots") for r in want)
            if closed:
                c.check(set(got) == set(content(want)), f"{key} reactions", lambda: f"missing {list(set(content(want)) - set(got))[:4]} extra {list(set(got) - set(content(want)))[:4]}")
            else:
                c.check({k[0] for k in got} == {nk(r) for r in want}, f"{key} reactions")
            c.check(max(Counter(k[0] for k in got.elements()).values(), default=1) == 1, f"{key} no duplicates")
            alltg = {t for e in es for t in e.targets}
            have = {str(x) for e in small for x in e.composition.elements}
            extra = have - {str(x) for t in alltg for x in Composition(t).elements}
            c.check(doc.task_label == "x" and sorted(doc.targets) == sorted(alltg) and {str(x) for x in doc.elements} == have and set(doc.chemsys.split("-")) == have, f"{key} metadata",
                    lambda: f"{doc.task_label} {doc.targets} {doc.elements} {doc.chemsys}")
            if alltg:
                c.check({str(x) for x in doc.added_elements} == extra and set((doc.added_chemsys or "").split("-")) - {""} == extra, f"{key} added elements", lambda: f"{doc.added_elements} {extra}")
            c.check([e.as_dict() if hasattr(e, "as_dict") else e for e in doc.enumerators] == before, f"{key} enumerators recorded")
            c.state(key)
            c.trace()
            c.outcome(("enum", len(got)))

    # ------------------------------------------------------------ network job
    CFS = {"s300": lambda: Softplus(300), "s1500": lambda: Softplus(1500), "w": lambda: Softplus(600, ["energy_per_atom"], [0.3])}
    base = net.reactions(E)
    mult = net.reactions(E, [1])[0]
    mult = type(mult)(list(mult.entries), [float(x) * 3 for x in mult.coefficients])
    RSETS = {"one": [base], "split": [base[:5], base[5:]], "dup": [base, base[2:6]], "mult": [base[:8], [mult], base[8:]], "few": [base[:3]]}

    def expected_network(rxns, cf, pre, tgt, k, open_, mu):
        rs = ReactionSet.from_rxns(dedupe(rxns), open_elem=open_, chempot=mu)
        rn = ReactionNetwork(rs, cost_function=cf)
        rn.build()
        if pre:
            rn.set_precursors(pre)
        if tgt:
            rn.set_target(tgt[0])
        return rn, rn.find_pathways(tgt, k=k) if tgt and k else None

    def cmp_network(c, key, doc, rn, paths, pre, tgt, k, cf):
        c.check(graph(doc.network.graph) == graph(rn.graph), f"{key} graph", lambda: f"{graph(doc.network.graph)[0] - graph(rn.graph)[0]} {graph(rn.graph)[0] - graph(doc.network.graph)[0]}")
        c.check(content(doc.network.rxns) == content(rn.rxns), f"{key} reactions of the network")
        f = lambda s: sorted(str(x) for x in s) if s else s
        c.check(f(doc.precursors) == f(pre) and f(doc.targets) == f(tgt) and doc.k == k, f"{key} recorded options", lambda: f"{doc.precursors} {doc.targets} {doc.k}")
        if paths is None:
            c.check(doc.paths is None, f"{key} no paths")
        else:
            a, b = paths_of(doc.paths), paths_of(paths)
            costs = lambda x: sorted(round(sum(q[1]), 5) for q in x.elements())
            c.check(costs(a) == costs(b), f"{key} path costs", lambda: f"{costs(a)} {costs(b)}")
            if len(set(costs(b))) == sum(b.values()):
                c.check(a == b, f"{key} paths", lambda: f"{a - b} {b - a}")
            c.check(type(doc.network.cost_function).__name__ == type(cf).__name__ and doc.network.cost_function.as_dict() == cf.as_dict(), f"{key} cost function")

    def network(c, it):
        rsn, cfn, open_, mu = it
        rsets = [ReactionSet.from_rxns(r) for r in RSETS[rsn]]
        flat = [r for s in RSETS[rsn] for r in s]
        for pre, tgt, k in product((None, ["Y2O3", "MnO"], ["Mn2O3", "Y2O3", "O2"]), (None, ["YMnO3"], ["YMn2O5", "MnO2"], ["MnO2", "YMnO3", "YMn2O5"]), (None, 1, 4)):
            key = f"network {rsn} {cfn} {open_} {mu} pre={pre} tgt={tgt} k={k}"
            if rsn == "few" and tgt or tgt and k and not pre or not c.case(key):
                continue
            with c.guard(key):
                fakeray.reset()
                cf = CFS[cfn]()
                rn, paths = expected_network(flat, cf, pre, tgt, k, open_, mu)
                before = [exact_content(r) for r in rsets]
                doc = make(jc.NetworkMaker(name="n", cost_function=cf, precursors=pre, targets=tgt, calculate_pathways=k, open_elem=open_, chempot=mu), rsets)
                cmp_network(c, key, doc, rn, paths, pre, tgt, k, cf)
                c.check(doc.task_label == "n", f"{key} label")
                c.check([exact_content(r) for r in rsets] == before, f"{key} inputs unchanged")
                c.state(key)
                c.trace()
                c.outcome(("network", len(doc.network.rxns), len(doc.paths or ())))

    # ------------------------------------------------------------ pathway solver job
    NETS = [(["Y2O3", "MnO", "O2"], ["YMnO3"]), (["Y2O3", "Mn2O3"], ["YMnO3"]), (["MnO", "O2"], ["MnO2"])]

    def raw_paths(pre, tgt, open_, mu):
        rn, paths = expected_network(base, Softplus(300), pre, tgt, 6, open_, mu)
        return paths

    def solver(c, it):
        (pre, tgt), open_, cut, mu = it
        fakeray.reset()
        with c.guard(f"solver input {pre} {tgt} {open_} {mu}"):
            paths = raw_paths(pre, tgt, open_, mu)
        for n, inter, basic, mini, filt, cfn in product((1, 2, 3), (False, True), (False, True), (False, True), (False, True), ("s300", "s1500")):
            if not inter and (basic, mini) != (True, False) or cfn == "s1500" and n != 2 or c.quick and n == 3 and mini:
                continue
            key = f"solver {pre} {tgt} {open_} {mu} cut={cut} n={n} inter={inter}{basic}{mini} filter={filt} {cfn}"
            if not c.case(key):
                continue
            with c.guard(key):
                opts = {"max_num_combos": n, "find_intermediate_rxns": inter, "intermediate_rxn_energy_cutoff": cut, "use_basic_enumerator": basic, "use_minimize_enumerator": mini,
                        "filter_interdependent": filt}
                fakeray.reset(cpus=2)
                nr = get_computed_rxn(BasicReaction.balance([Composition(p) for p in pre], [Composition(t) for t in tgt]), ES, {O: mu} if open_ else None)
                ps = PathwaySolver(paths, ES, CFS[cfn](), open_elem=open_, chempot=mu)
                want = balanced_of(ps.solve(nr, **opts))
                fakeray.reset(cpus=2)
                before = paths_of(paths)
                mk = jc.PathwaySolverMaker(name="s", cost_function=CFS[cfn](), precursors=pre, targets=tgt, open_elem=open_, chempot=mu, **opts)
                doc = make(mk, paths, ES)
                got = balanced_of(doc.balanced_paths)
                c.check(got == want, f"{key} balanced pathways", lambda: f"missing {list(want - got)[:2]} extra {list(got - want)[:2]}")
                c.check(nk(doc.net_rxn) == nk(nr) and mu_of(doc.net_rxn) == mu_of(nr) and abs(doc.net_rxn.energy_per_atom - nr.energy_per_atom) < 1e-9, f"{key} net reaction", lambda: f"{doc.net_rxn}")
                c.check(all(getattr(doc, k) == v for k, v in opts.items()) and doc.precursors == pre and doc.targets == tgt and doc.task_label == "s", f"{key} recorded options")
                c.check(paths_of(paths) == before, f"{key} inputs unchanged")
                c.state(key)
                c.trace()
                c.outcome(("solver", sum(got.values())))

    def refuse(c, _):
        for pre, tgt in ((["Y2O3"], ["YMnO3"]), (["MnO", "Mn2O3"], ["Y2O3"]), (["MnO2"], ["MnO"])):
            key = f"refuse {pre} {tgt}"
            if c.case(key):
                try:
                    jc.PathwaySolverMaker(precursors=pre, targets=tgt)
                    c.check(False, key)
                except ValueError:
                    c.check(True, key)
                c.state(key)

    # ------------------------------------------------------------ competition job
    POOLS = {}

    def pool(name):
        if name not in POOLS:
            fakeray.reset()
            if name == "wide":
                POOLS[name] = (wide, [list(BasicEnumerator(n=2, exclusive_precursors=True, precursors=["Y2O3", "YOCl", "LiMnO2", "Mn2O3", "MnO", "YMn2O5"]).enumerate(wide))])
            elif name == "closed":
                POOLS[name] = (ES, [list(BasicEnumerator(n=2).enumerate(ES))])
            elif name.startswith("one"):  # one-precursor reactions with few competitors
                singles = one_sources()
                POOLS[name] = (ES, [[singles[int(i)] for i in name.split("-")[1:]]])
            elif name.startswith("poly"):  # the same decomposition to different polymorphs
                up = {"MnO": (0.0, -1.5, -1.7), "Mn2O3": (0.0, -1.4)}
                poly = {f: [E[f], *(uni.ient(f, E[f].energy_per_atom + d, f"{f}-{k}") for k, d in enumerate(v[1:]))] for f, v in up.items()}
                es = GibbsEntrySet([*ES, *(e for v in poly.values() for e in v[1:])])
                es.build_indices()
                POOLS[name] = (es, [[ComputedReaction.balance([E["MnO2"]], [e, E["O2"]]) for f in up for e in poly[f]]])
            elif name == "pairs":
                POOLS[name] = (ES, [[r for r in POOLS.get("closed", pool("closed"))[1][0] if len(r.reactants) == 2]])
            else:
                a = list(BasicEnumerator(n=2, precursors=["Y2O3", "Mn2O3", "MnO"], exclusive_precursors=True).enumerate(ES))
                b = list(BasicOpenEnumerator(open_phases=["O2"], precursors=["Y2O3", "Mn2O3", "MnO"], exclusive_precursors=True).enumerate(ES))
                if name == "noO2target":  # no reaction to the target consumes the open element
                    ft = [r for r in a + b if not ("YMnO3" in {p.reduced_formula for p in r.products} and "O2" in {p.reduced_formula for p in r.reactants})]
                    POOLS[name] = (ES, [ft])
                else:
                    POOLS[name] = (ES, [a, b])
        return POOLS[name]

    def one_sources():
        if "singles" not in POOLS:
            POOLS["singles"] = [r for r in POOLS.get("closed", pool("closed"))[1][0] if len(r.reactants) == 1]
            POOLS["singles"].sort(key=net.rk)
        return POOLS["singles"]

    def scores(t, R, open_):
        """(primary, secondary) from the definitions; None where no hull is defined."""
        fs = {x.reduced_formula for x in t.reactants}
        comp = [r for r in R if {x.reduced_formula for x in r.reactants} <= fs | ({"O2"} if open_ else set())]
        if len(fs) == 1:
            others = [float(r.energy_per_atom) for r in comp if r != t]
            if not any(abs(o) < 1e-8 for o in others):
                others.append(0.0)
            d = [float(t.energy_per_atom) - o for o in others]
            return round(float(t.energy_per_atom) - min(others), 4), round(max([0.0, *d]), 4), len(comp)
        if open_ and "O2" in fs:
            fs = fs - {"O2"}
            if len(fs) == 1:
                return None
        if len(fs) != 2:
            return None
        irh = InterfaceReactionHull(*sorted(fs), comp)
        return (float(PrimaryCompetitionCalculator(irh).calculate(t)), float(SecondaryCompetitionCalculator(irh).calculate(t)), len(comp))

    def distance(t, es, open_, mu, kw):
        el = {str(x) for e in t.entries for x in e.composition.elements}
        ents = [e for e in es if {str(x) for x in e.composition.elements} <= el | ({"O"} if open_ else set())]
        if open_:
            ents = [e.to_grand_entry({O: mu}) for e in ents if {str(x) for x in e.composition.elements} != {"O"}]
        return ChempotDistanceCalculator.from_entries(ents, **kw).calculate(t)

    EXP = {}

    def expected(name, target, open_, mu, cpd, kw):
        k = (name, target, open_, mu, cpd, repr(kw))
        if k not in EXP:
            es, parts = pool(name)
            R = [r for s in parts for r in s]
            R = list(ReactionSet.from_rxns(R, entries=es, open_elem=O, chempot=mu)) if open_ else R
            T = [r for r in R if target in {p.reduced_formula for p in r.products}]
            cache = {}
            out = []
            for t in T:
                sc = scores(t, R, open_)
                ck = tuple(sorted(net.rk(t)))
                if cpd and ck not in cache:
                    cache[ck] = round(distance(t, es, open_, mu, kw), 4)
                out.append((net.rk(t), round(float(t.energy_per_atom), 6), mu_of(t), sc[:2] if sc else None, cache.get(ck)))
            EXP[k] = out
        return EXP[k]

    def competition(c, it, ch=None, cpus=2.0, lifo=False, init=True, memory=8e9):
        name, target, open_, mu, comp, cpd, chunk, parts, kw = it
        es, lists = pool(name)
        flat = [r for s in lists for r in s]
        preset = {"open_elem": O, "chempot": -0.6} if name == "preset" else {}  # sets enumerated under another condition
        if parts == 1:
            sets = [ReactionSet.from_rxns(flat, entries=es, **preset)]
        else:
            sets = [ReactionSet.from_rxns(flat[i::parts], entries=es, **preset) for i in range(parts)]
        before = [exact_content(s) for s in sets]
        bdata = [[dict(r.data) for r in s] for s in sets]
        fakeray.reset(ch, cpus=cpus, lifo=lifo, initialized=init, memory=memory)
        mk = jc.CalculateCompetitionMaker(name="c", open_elem="O" if open_ else None, chempot=mu, calculate_competition=comp, calculate_chempot_distances=cpd, chunk_size=chunk, cpd_kwargs=dict(kw))
        doc = make(mk, sets, es, target)
        return doc, [exact_content(s) for s in sets] == before and [[dict(r.data) for r in s] for s in sets] == bdata

    def cmp_competition(c, key, it, doc, same):
        name, target, open_, mu, comp, cpd, chunk, parts, kw = it
        want = expected(name, Composition(target).reduced_formula, open_, mu, cpd, kw)
        got = [(net.rk(r), round(float(r.energy_per_atom), 6), mu_of(r), r.data) for r in doc.rxns]
        c.check(Counter(g[:3] for g in got) == Counter(w[:3] for w in want), f"{key} exactly the target reactions", lambda: f"{len(got)} {len(want)}")
        W = {}
        for w in want:
            W.setdefault(w[:3], w)
        for g in got:
            w = W.get(g[:3])
            if w is None:
                continue
            d = g[3]
            if comp and w[3]:
                c.check("primary_competition" in d and abs(float(d["primary_competition"]) - w[3][0]) < 2e-4, f"{key} primary competition", lambda: f"{g[0]} {d} {w}")
                c.check("secondary_competition" in d and abs(float(d["secondary_competition"]) - w[3][1]) < 2e-4, f"{key} secondary competition", lambda: f"{g[0]} {d} {w}")
            c.check(("primary_competition" in d) == ("secondary_competition" in d) == comp, f"{key} competition only on request", lambda: f"{d}")
            if cpd:
                c.check("chempot_distance" in d and abs(float(d["chempot_distance"]) - w[4]) < 2e-4, f"{key} chemical potential distance", lambda: f"{g[0]} {d} {w}")
            else:
                c.check("chempot_distance" not in d, f"{key} distances only on request")
        c.check(Counter(map(uni.ekey, doc.rxns.entries)) == Counter(map(uni.ekey, pool(name)[0])), f"{key} result is over the given entries")
        c.check(same, f"{key} inputs unchanged")
        els_ = {str(x) for e in pool(name)[0] for x in e.composition.elements} - {str(x) for x in Composition(target).elements}
        c.check(doc.target_formula == Composition(target).reduced_formula and (str(doc.open_elem) if doc.open_elem else None) == ("O" if open_ else None)
                and doc.chempot == mu and doc.calculate_competition == comp and doc.calculate_chempot_distances == cpd and doc.task_label == "c"
                and {str(x) for x in doc.added_elements} == els_ and doc.cpd_kwargs == dict(kw), f"{key} recorded options")

    def comp_case(c, it):
        it, kwargs = it
        key = f"competition {it[:8]} {dict(it[8])} {kwargs}"
        if c.case(key):
            with c.guard(key):
                doc, same = competition(c, it, **kwargs)
                cmp_competition(c, key, it, doc, same)
                c.state(key)
                c.trace()
                c.outcome(("competition", len(doc.rxns)))

    def schedules(c, it):
        it, lifo, bound = it
        key = f"schedule {it[:8]} lifo={lifo}"
        if c.case(key):
            with c.guard(key):
                n = 0
                for ch, (doc, same) in explore(lambda x: competition(c, it, ch=x, lifo=lifo), bound, 60 if c.quick else 600, c):
                    cmp_competition(c, key, it, doc, same)
                    n += 1
                    c.trace()
                    c.state((key, tuple(ch)))
                c.outcome(("schedules", n))

    def no_target(c, _):
        key = "competition without target reactions"
        if c.case(key):
            try:
                competition(c, ("wide", "LiYO2", False, 0.0, True, False, 10, 1, {}))
                c.check(False, key)
            except ValueError:
                c.check(True, key)
            except Exception as e:  # noqa: BLE001
                c.check(False, key, repr(e))
            c.state(key)

    # ------------------------------------------------------------ flows
    def flow_opts():
        solve = [None, dict(precursors=["Y2O3", "Mn2O3"], targets=["YMnO3"], max_num_combos=2, intermediate_rxn_energy_cutoff=-0.01, use_basic_enumerator=False, cost_function=Softplus(700))]
        for given, basic, mini, open_, mus, sv, bk, mk, gk in product((False, True), (True, False), (True, False), (None, "O", "Cl"), (None, [], [0.0], [-0.5, -1.25]), (0, 1), (0, 1), (0, 1), (0, 1)):
            if not (basic or mini):
                continue
            yield given, basic, mini, open_, mus, solve[sv], [{}, {"n": 3, "exclusive_precursors": True, "precursors": ["Y2O3"]}][bk], [{}, {"targets": ["YMnO3"], "filter_by_chemsys": "Mn-O-Y"}][mk], gk

    def resolve(x, jobs):
        """Inputs of a job with references replaced by (index of the producing job, attribute path)."""
        if isinstance(x, OutputReference):
            return ("ref", jobs.get(x.uuid), tuple(str(a[1]) for a in x.attributes))
        if isinstance(x, (list, tuple)):
            return [resolve(y, jobs) for y in x]
        if isinstance(x, dict):
            return {k: resolve(v, jobs) for k, v in x.items()}
        if isinstance(x, GibbsEntrySet):
            return "entries"
        if hasattr(x, "as_dict"):
            return strip(x.as_dict())
        return x

    def strip(d):
        if isinstance(d, dict):
            return {k: strip(v) for k, v in d.items() if k != "@version"}
        if isinstance(d, (list, tuple)):
            return [strip(v) for v in d]
        return d

    NAMES = {"make": {"ReactionEnumerationMaker": ("enumerators", "entries"), "NetworkMaker": ("rxn_sets",), "PathwaySolverMaker": ("pathways", "entries"), "GetEntrySetMaker": ("chemsys",)}}

    def describe(flow):
        jobs = {j.uuid: i for i, j in enumerate(flow.jobs)}
        out = []
        for j in flow.jobs:
            m = j.maker
            names = NAMES["make"][type(m).__name__]
            args = dict(zip(names, j.function_args))
            args.update(j.function_kwargs)
            out.append((type(m).__name__, j.name, strip(m.as_dict()), {k: resolve(v, jobs) for k, v in args.items()}))
        return out

    def mdict(m, **upd):
        d = strip(m.as_dict())
        d.update({k: strip(v.as_dict()) if hasattr(v, "as_dict") else v for k, v in upd.items()})
        return d

    def norm_maker(d):
        d = dict(d)
        d["formulas_to_include"] = sorted(d["formulas_to_include"]) if "formulas_to_include" in d else None
        d.pop("name", None)
        oe = d.get("open_elem")
        d["open_elem"] = oe["element"] if isinstance(oe, dict) and "element" in oe else str(oe) if oe else None
        return d

    def wiring(c, block):
        for n, (given, basic, mini, open_, mus, sv, bk, mk_, gk) in block:
            key = f"flow {n} given={given} basic={basic} min={mini} open={open_} mus={mus} solver={bool(sv)} bk={bool(bk)} mk={bool(mk_)} gk={gk}"
            if not c.case(key):
                continue
            with c.guard(key):
                g = jc.GetEntrySetMaker(**({"temperature": 900, "e_above_hull": 0.025, "formulas_to_include": ["MnO2"], "include_polymorphs": True} if gk else {}))
                en = jc.ReactionEnumerationMaker(**({"name": "enum"} if gk else {}))
                nw = jc.NetworkMaker(precursors=["Y2O3", "Mn2O3"], targets=["YMnO3"], calculate_pathways=3, cost_function=Softplus(500), **({"name": "netw"} if gk else {}))
                so = jc.PathwaySolverMaker(**sv) if sv else None
                keep = [strip(x.as_dict()) for x in (g, en, nw)]
                fm = NetworkFlowMaker(get_entry_set_maker=g, enumeration_maker=en, network_maker=nw, solver_maker=so, open_elem=open_, chempots=mus, use_basic_enumerators=basic, use_minimize_enumerators=mini,
                                      basic_enumerator_kwargs=dict(bk), minimize_enumerator_kwargs=dict(mk_))
                flow = fm.make(["Y4O6", "Mn2O3"], ["YMnO3"], entries=small if given else None)
                got = describe(flow)
                want = []
                ent = "entries"
                if not given:
                    want.append(("GetEntrySetMaker", norm_maker(mdict(g, formulas_to_include=[*{*g.formulas_to_include, "Y2O3", "Mn2O3", "YMnO3"}])), {"chemsys": {"Y", "Mn", "O"}}))
                    ent = ("ref", 0, ("entries",))
                es = []
                of = {"O": "O2", "Cl": "Cl2"}.get(open_)
                if basic:
                    es.append(BasicEnumerator(**bk))
                    if of:
                        es.append(BasicOpenEnumerator(open_phases=[of], **bk))
                if mini:
                    es.append(MinimizeGibbsEnumerator(**mk_))
                ie = len(want)
                want.append(("ReactionEnumerationMaker", norm_maker(mdict(en)), {"enumerators": [strip(x.as_dict()) for x in es], "entries": ent}))
                inw = len(want)
                want.append(("NetworkMaker", norm_maker(mdict(nw)), {"rxn_sets": [("ref", ie, ("rxns",))]}))
                if so:
                    want.append(("PathwaySolverMaker", norm_maker(mdict(so)), {"pathways": ("ref", inw, ("paths",)), "entries": ("ref", inw, ("network", "entries"))}))
                for mu in (mus or []) if mini and open_ else []:
                    i1 = len(want)
                    ge = MinimizeGrandPotentialEnumerator(open_elem=Element(open_), mu=mu, **mk_)
                    want.append(("ReactionEnumerationMaker", norm_maker(mdict(en)), {"enumerators": [strip(ge.as_dict())], "entries": ent}))
                    want.append(("NetworkMaker", norm_maker({**mdict(nw), "chempot": mu, "open_elem": open_}), {"rxn_sets": [("ref", ie, ("rxns",)), ("ref", i1, ("rxns",))]}))
                    if so:
                        want.append(("PathwaySolverMaker", norm_maker({**mdict(so), "chempot": mu, "open_elem": open_}),
                                     {"pathways": ("ref", i1 + 1, ("paths",)), "entries": ("ref", i1 + 1, ("network", "entries"))}))
                # the order of independent jobs is irrelevant: map indices through a canonical order
                def canon(lst):
                    desc = {}

                    def d(i):
                        if i is None or i not in range(len(lst)):
                            return ("foreign", i)
                        if i not in desc:
                            kind, m, a = lst[i]
                            desc[i] = uni.crepr((kind, m, sorted((k, sub(v)) for k, v in a.items())))
                        return desc[i]

                    def sub(v):
                        if isinstance(v, tuple) and v and v[0] == "ref":
                            return repr(("ref", d(v[1]), v[2]))
                        if isinstance(v, list):
                            return repr([sub(x) for x in v])
                        if isinstance(v, set):
                            return repr(sorted(v))
                        return uni.crepr(v)

                    return Counter(d(i) for i in range(len(lst)))

                gg = []
                for kind, _, m, a in got:
                    a = dict(a)
                    if kind == "GetEntrySetMaker":
                        a["chemsys"] = set(a["chemsys"].split("-"))
                    if kind == "NetworkMaker":
                        a["rxn_sets"] = list(a["rxn_sets"])
                    gg.append((kind, norm_maker(m), a))
                a, b = canon(gg), canon(want)
                c.check(a == b, f"{key} job graph", lambda: f"extra {[x[:700] for x in (a - b)]}\nmissing {[x[:700] for x in (b - a)]}")
                pos = {j.uuid: i for i, j in enumerate(flow.jobs)}
                c.check(all(pos.get(u, -1) < i and u in pos for i, j in enumerate(flow.jobs) for u in j.input_uuids), f"{key} inputs come from earlier jobs")
                for j, (kind, nm, m, aa) in zip(flow.jobs, got):
                    mu = m.get("chempot")
                    if kind != "GetEntrySetMaker" and m.get("open_elem") and mu is not None:
                        c.check(str(mu) in nm and open_ in nm, f"{key} name tells the condition", lambda: nm)
                c.check([strip(x.as_dict()) for x in (g, en, nw)] == keep, f"{key} makers unchanged")
                c.state(key)
                c.trace()
                c.outcome(("flow", len(got)))

    def end_to_end(c, it):
        given_k, basic, mini, open_, mus, solve = it
        key = f"run flow basic={basic} min={mini} open={open_} mus={mus} solver={solve}"
        if not c.case(key):
            return
        with c.guard(key):
            pre, tgt, k = ["Y2O3", "Mn2O3"], ["YMnO3"], 3
            cf = Softplus(500)
            so = jc.PathwaySolverMaker(precursors=pre, targets=tgt, max_num_combos=2, cost_function=cf) if solve else None
            fm = NetworkFlowMaker(network_maker=jc.NetworkMaker(precursors=pre, targets=tgt, calculate_pathways=k, cost_function=cf), solver_maker=so, open_elem=open_, chempots=mus,
                                  use_basic_enumerators=basic, use_minimize_enumerators=mini, basic_enumerator_kwargs={"precursors": pre} if given_k else {})
            fakeray.reset()
            flow = fm.make(pre, tgt, entries=small)
            store = JobStore(MemoryStore(), additional_stores={x: MemoryStore() for x in ("rxns", "entries", "network", "paths")})
            out = run_locally(flow, store=store, ensure_success=True, log=False, create_folders=False)
            docs = {"ReactionEnumerationMaker": [], "NetworkMaker": [], "PathwaySolverMaker": []}
            for j in flow.jobs:
                docs[type(j.maker).__name__].append(out[j.uuid][1].output)
            fakeray.reset()
            rx = []
            bk = {"precursors": pre} if given_k else {}
            if basic:
                rx += list(BasicEnumerator(**bk).enumerate(small))
                if open_:
                    rx += list(BasicOpenEnumerator(open_phases=["O2"], **bk).enumerate(small))
            if mini:
                rx += list(MinimizeGibbsEnumerator().enumerate(small))
            rx = dedupe(rx)
            stages = [(None, 0.0, rx)]
            for mu in (mus or []) if mini and open_ else []:
                stages.append((O, mu, list(MinimizeGrandPotentialEnumerator(open_elem=O, mu=mu).enumerate(small))))
            c.check(len(docs["NetworkMaker"]) == len(stages) == len(docs["ReactionEnumerationMaker"]) and len(docs["PathwaySolverMaker"]) == (len(stages) if solve else 0), f"{key} number of results")
            for n, (oe, mu, extra) in enumerate(stages):
                w = [d for d in docs["NetworkMaker"] if (d.network.rxns.chempot if d.network.rxns.open_elem else None) == (mu if oe else None)]
                c.check(len(w) == 1, f"{key} network at {mu if oe else None}")
                c.check({x[0] for x in content(docs["ReactionEnumerationMaker"][n].rxns)} == {nk(r) for r in extra}, f"{key} reactions of stage {n}")
                flat = rx if not oe else rx + extra
                flat = list(ReactionSet.from_rxns(flat, open_elem=oe, chempot=mu))
                rn, paths = expected_network(flat, cf, pre, tgt, k, oe, mu)
                cmp_network(c, f"{key} stage {n}", w[0], rn, paths, pre, tgt, k, cf)
                if solve:
                    nr = get_computed_rxn(so.net_rxn, rn.entries, {O: mu} if oe else None)
                    ps = PathwaySolver(w[0].paths, rn.entries, cf, open_elem=oe, chempot=mu)
                    want = balanced_of(ps.solve(nr, max_num_combos=2))
                    got = [balanced_of(d.balanced_paths) for d in docs["PathwaySolverMaker"]]
                    c.check(want in got, f"{key} balanced pathways of stage {n}", lambda: f"{want} {got}")
            c.state(key)
            c.trace()
            c.outcome(("e2e", len(stages), sum(len(d.balanced_paths) for d in docs["PathwaySolverMaker"])))

    items = []
    sels = ["b", "o", "m", "g", "p", "bo", "bm", "om", "bom", "pb", "gm", "bp", "mbo"]
    items += [(enumeration, (s, tg)) for s in sels for tg in (None, ["YMnO3"], ["YMnO3", "Mn2O3"])]
    items += [(network, x) for x in product(RSETS, CFS, (None, O), (0.0, -0.7)) if (x[2] or not x[3]) and not c_skip(ctx, x)]
    items += [(solver, (a, b, x, mu)) for a, b, x, mu in product(NETS, (None, O), (0.0, -0.05, 0.2) if not ctx.quick else (0.0, -0.05), (0.0, -0.4)) if b or not mu]
    items += [(refuse, 0), (no_target, 0)]
    KW = {"mu_func": "max"}
    comp = []
    for name, open_, mu in (("closed", False, 0.0), ("open", True, 0.0), ("open", True, -0.8), ("noO2target", True, -0.3), ("wide", False, 0.0)):
        for tgt, cpd, chunk, parts in product(("YMnO3", "Y2Mn2O6", "YMn2O5"), (False, True), (1, 7, 100), (1, 3)):
            if tgt == "YMn2O5" and name == "noO2target" or tgt == "Y2Mn2O6" and (chunk, parts) != (7, 1) or parts == 3 and chunk == 1 or name == "wide" and tgt == "YMn2O5":
                continue
            comp.append(((name, tgt, open_, mu, True, cpd, chunk, parts, {}), {}))
        for cal, cpd, kw, more in ((False, True, {}, {}), (False, False, {}, {}), (False, True, KW, {}), (True, False, {}, {"cpus": 1}), (True, False, {}, {"init": False}), (True, False, {}, {"cpus": 4, "memory": 250 * 900.0})):
            comp.append(((name, "YMnO3", open_, mu, cal, cpd, 5, 1, kw), more))
    for mu, parts in product((0.0, -0.6, -1.0), (1, 3)):
        comp.append((("preset", "YMnO3", True, mu, True, parts == 1, 7, parts, {}), {}))
    for tgt, parts in product(("MnO", "Mn2O3"), (1, 2)):
        comp.append((("poly", tgt, False, 0.0, True, False, 2, parts, {}), {}))
    src = one_sources()
    for i, t in enumerate(src):
        near = [j for j, r in enumerate(src) if j != i and r.reactants == t.reactants]
        for x in [(), *[(j,) for j in near], tuple(near)]:
            for f in sorted({p.reduced_formula for p in t.products}):
                if ctx.quick and (i + len(x) + sum(x)) % 3 and len(x) == 1:
                    continue
                comp.append((("-".join(["one", str(i), *map(str, x)]), f, False, 0.0, True, False, 5, 1, {}), {}))
    items += [(comp_case, x) for x in comp]
    for name, open_ in (("wide", False), ("open", True)):
        n = len([r for s in pool(name)[1] for r in s if "YMnO3" in {p.reduced_formula for p in r.products}])
        for cpd in (False, True):
            for lifo in (False, True):
                items.append((schedules, ((name, "YMnO3", open_, -0.2 if open_ else 0.0, True, cpd, max(1, n // 4 + 1), 1, {}), lifo, 1 if ctx.quick else 2)))
    pool("pairs")
    blocks = list(enumerate(flow_opts()))
    items += [(wiring, blocks[i::16]) for i in range(16)]
    items += [(end_to_end, x) for x in [(0, True, False, None, None, True), (0, True, True, None, None, False), (1, True, True, "O", None, True), (0, False, True, "O", [-0.3], True),
                                        (1, True, True, "O", [-0.3, -1.0], True), (0, False, True, "O", [0.0], False), (0, True, False, "O", [-0.5], False)]]
    ctx.pmap(sorted(items, key=lambda x: {"schedules": 0, "end_to_end": 1, "solver": 2}.get(x[0].__name__, 3)), lambda c, it: it[0](c, it[1]))
    assert np


def c_skip(ctx, x):
    rsn, cfn, open_, mu = x
    return ctx.quick and cfn == "w" and rsn not in ("one", "mult")
