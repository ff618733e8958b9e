"""P33: retrieving and processing entries (and stored reactions) over an in-memory database."""
from collections import Counter
from fractions import Fraction as F
from itertools import combinations, permutations, product

from vlib import enum_model as em
from vlib import exact, fakeray, net, uni

RULE = ("every subset (bounded) of a pool of database documents x every requested chemical system (string, list, any order, up to 13 and beyond 13 elements) vs direct filtering; every combination of "
        "the processing options (two temperatures, filter temperature, stability cutoff, polymorphs, required formulas, experimental sources, hull distances) vs an exact lower-hull model; the entry "
        "job from a database and from a stand-in for the Materials Project client, small and large systems; every bounded history of stored competition runs x every query for reactions")
ASSUMPTIONS = ("the Materials Project client is replaced by a stand-in that answers from the same pool", "cutoffs are at least 1e-6 away from exact hull distances unless the distance is zero",
               "entries without tabulated data at the final temperature are dropped, as get_entries_with_new_temperature documents")

POOL = ["Y", "Y2*", "Mn", "O2", "O4*", "Y2O3", "MnO", "Mn2O3", "Mn4O6*", "MnO2", "YMnO3", "YMn2O5", "Mn3O4", "Y2Mn2O6*", "CO2", "C", "YC2"]
POOL2 = ["Li", "Ti", "O2", "Li2O", "TiO2", "TiO2*", "Li2TiO3", "Ti2O3", "Li4Ti4O6*", "TiO", "LiTiO2"]
CUSTOM = ["YMnO3", "Mn2O5"]
BIG = ["Li", "Na", "K", "Rb", "Be", "Mg", "Ca", "Sr", "Ba", "Ti", "V", "Cr", "Mn", "Fe", "Co", "Ni", "Cu", "Zn", "Al", "Si", "P2", "S", "Cl2", "F2", "O2", "Y", "Br2", "Li2O", "MnO2", "YMnO3", "BaTiO3", "YBr3", "PuO2", "ThO2", "NpO2", "Y2Pu2O7"]


def run(ctx):
    import mp_api.client
    import rxn_network.jobs.core as jc
    from jobflow import SETTINGS, JobStore, run_locally
    from maggma.stores import MemoryStore
    from pymatgen.core import Lattice, Structure
    from pymatgen.entries.computed_entries import ComputedStructureEntry
    from rxn_network.core import Composition
    from rxn_network.entries.entry_set import GibbsEntrySet
    from rxn_network.entries.utils import get_all_entries_in_chemsys_from_entry_db, get_entries_from_entry_db, process_entries
    from rxn_network.enumerators.basic import BasicEnumerator
    from rxn_network.utils.database import get_rxns_from_db

    def make(names, off=0):
        out, base = [], {}
        for i, nm in enumerate(names, off):
            comp = Composition(nm.rstrip("*"))
            sp = [el for el, n in comp.items() for _ in range(int(n))]
            n = len(sp)
            st = Structure(Lattice.cubic(((9.0 + 0.37 * i) * n) ** (1 / 3)), sp, [[(k * 0.13) % 1, (k * 0.29) % 1, k / n] for k in range(n)])
            x = sum(v for el, v in comp.items() if not el.is_metal) / n  # near-convex: most compounds lie close to the hull
            epa = sum((-2.0 - 0.3 * (el.Z % 7)) * v for el, v in comp.items()) / n - (0 if len(comp) == 1 else 0.3 + 6 * x * (1 - x) + 0.02 * ((i * 3) % 7))
            base.setdefault(comp.reduced_formula, epa)
            epa = base[comp.reduced_formula] + 0.02 if "*" in nm else epa  # polymorphs lie slightly above the ground state
            out.append(ComputedStructureEntry(st, epa * n, entry_id=f"mp-{i}", parameters={"run_type": "GGA"}, data={"tag": i}))
        return out

    RAW = make(POOL)
    BIGRAW = make(BIG, 100)
    CUST = make(CUSTOM, 300)
    DEP = make(["LiMnO2", "Y2Ti2O7"], 777)  # deprecated documents
    RAW2 = make(POOL2, 500)

    def elements(e):
        return {str(x) for x in e.composition.elements}

    def brief(es):
        return Counter((type(e).__name__, str(e.entry_id) if type(e).__name__ == "GibbsComputedEntry" else e.composition.reduced_formula, round(float(e.energy_per_atom), 5)) for e in es)

    # ------------------------------------------------------------ database queries
    def alter(e, how):
        d = e.as_dict()
        other = dict(d, energy=d["energy"] - 0.5)
        return {"u": {"GGA": other, "GGA+U": d}, "g": {"GGA": d}, "G": {"GGA+U": d}, "n": {"GGA": d, "GGA+U": None}, "r": {"R2SCAN": d}, "e": {}}[how]

    def store_of(docs):
        s = MemoryStore(key="task_id")
        s.connect()
        if docs:
            s.update([{"task_id": f"mp-{k}", "pretty_formula": e.composition.reduced_formula, "chemsys": "-".join(sorted(elements(e))), "elements": sorted(elements(e)), "nelements": len(elements(e)),
                       "formula_pretty": e.composition.reduced_formula, "entries": alter(e, h)} for k, (e, h) in enumerate(docs)])
        return s

    def ids(es):
        return Counter((e.entry_id, round(e.energy, 6)) for e in es)

    def query(c, docs):
        st = store_of(docs)
        for n in (1, 2, 3, 4):
            for sub in combinations(("Y", "Mn", "O", "C"), n):
                want = ids(e for e, h in docs if elements(e) <= set(sub) and h in "ugGn")
                for form in ("-".join(sub), list(sub), "-".join(sub[::-1])):
                    key = f"query {[(e.composition.formula, h) for e, h in docs]} {form}"
                    if not c.case(key):
                        continue
                    with c.guard(key):
                        keep = list(form) if isinstance(form, list) else form
                        got = get_all_entries_in_chemsys_from_entry_db(st, form)
                        c.check(ids(got) == want, key, lambda: f"missing {want - ids(got)} extra {ids(got) - want}")
                        c.check(form == keep and all(isinstance(e, ComputedStructureEntry) for e in got), f"{key} argument unchanged")
                        c.state(key)
                        c.trace()
                        c.outcome(("query", sum(want.values())))

    def direct(c, _):
        st = store_of([(e, "g") for e in RAW])
        for crit, f in (({"chemsys": "Mn-O"}, lambda e: elements(e) == {"Mn", "O"}), ({"formula_pretty": "YMnO3"}, lambda e: e.composition.reduced_formula == "YMnO3"),
                        ({"nelements": 3}, lambda e: len(elements(e)) == 3), ({}, lambda e: True)):
            key = f"criteria {crit}"
            if c.case(key):
                with c.guard(key):
                    c.check(ids(get_entries_from_entry_db(st, crit)) == ids(e for e in RAW if f(e)), key)
                    c.state(key)
        for text, f in (("Mn-O", lambda e: elements(e) == {"Mn", "O"}), ("O-Mn", lambda e: elements(e) == {"Mn", "O"}), ("Y-Mn-O", lambda e: elements(e) == {"Mn", "O", "Y"}),
                        ("*-O", lambda e: len(elements(e)) == 2 and "O" in elements(e)), ("{Mn,Y}-O", lambda e: elements(e) in ({"Mn", "O"}, {"Y", "O"})), ("*-Mn-*", lambda e: len(elements(e)) == 3 and "Mn" in elements(e)),
                        ("Mn-O Y-O", lambda e: elements(e) in ({"Mn", "O"}, {"Y", "O"})), ("*2O3", lambda e: e.composition.reduced_formula in ("Y2O3", "Mn2O3")), ("MnO2", lambda e: e.composition.reduced_formula == "MnO2"),
                        ("{Y,Mn}2O3 C", lambda e: e.composition.reduced_formula in ("Y2O3", "Mn2O3", "C")), ("Mn4O6", lambda e: e.composition.reduced_formula == "Mn2O3"),
                        ("mp-5", lambda e: e is RAW[5]), ("mp-5 Mn-O", lambda e: e is RAW[5] or elements(e) == {"Mn", "O"})):
            key = f"criteria {text}"
            if c.case(key):
                with c.guard(key):
                    c.check(ids(get_entries_from_entry_db(st, text)) == ids(e for e in RAW if f(e)), key)
                    c.state(key)

    def large(c, n):
        el = [next(iter(elements(e))) for e in BIGRAW if len(elements(e)) == 1]
        for start in (0, 3, 12, 20, 26):
            sub = [el[(start + i) % len(el)] for i in range(n)]
            key = f"large {n} {sub}"
            if c.case(key):
                with c.guard(key):
                    # compounds of many elements of the system (in three orders), and ones with an element too many
                    out = [x for x in el if x not in sub][:1]
                    wide = [t[:k] for k in range(4, n + 1) for t in (sub, sub[::-1], sub[n // 2:] + sub[:n // 2])]
                    pool = BIGRAW + make(["".join(t) for t in [*wide, *([t[:3] + out for t in wide[:3]] if out else [])]], 900)
                    st = store_of([(e, "g") for e in pool])
                    want = ids(e for e in pool if elements(e) <= set(sub))
                    for form in (sub, "-".join(sub)):
                        got = get_all_entries_in_chemsys_from_entry_db(st, form)
                        c.check(ids(got) == want, key, lambda: f"missing {want - ids(got)} extra {ids(got) - want}")
                    c.state(key)
                    c.trace()
                    c.outcome(("large", n, sum(want.values())))

    # ------------------------------------------------------------ processing
    SETS = {}

    def built(names, t, src):
        k = (names, t, src)
        if k not in SETS:
            nist, freed, ign = src
            s = list(GibbsEntrySet.from_computed_entries([e for e in RAW + CUST + RAW2 if e.entry_id in names], t, include_nist_data=nist, include_freed_data=freed, ignore_nist_solids=ign))
            SETS[k] = (s, hull(s))
        return SETS[k]

    def facets(pts, els):
        out = []
        for s in combinations(pts, len(els)):
            m = [[x[0].get(e, F(0)) for e in els] for x in s]
            if exact.rank(m) < len(els):
                continue
            mu = exact.solve(m, [x[1] for x in s])
            if mu not in out and all(q[1] >= sum(q[0].get(e, F(0)) * u for e, u in zip(els, mu)) for q in pts):
                out.append(mu)
        return out

    def point(e):
        c = em.comp(e)
        return c, F(float(e.energy_per_atom)).limit_denominator(10**9) * sum(c.values())

    HF = {}

    def hull(es):
        """composition -> exact hull energy per reduced formula, for its own chemical system."""
        pts = [point(e) for e in es]
        low = {}
        for p in pts:
            k = tuple(sorted(p[0].items()))
            if k not in low or p[1] < low[k][1]:
                low[k] = p
        pts = list(low.values())
        cache = {}

        def energy(comp):
            sysm = frozenset(comp)
            if sysm not in cache:
                sub = [p for p in pts if set(p[0]) <= sysm]
                cache[sysm] = (sorted(sysm), facets(sub, sorted(sysm)))
            els, mus = cache[sysm]
            return max(sum(comp.get(e, F(0)) * u for e, u in zip(els, mu)) for mu in mus)

        return energy

    def dist(e, h):
        comp, en = point(e)
        return float((en - h(comp)) / sum(comp.values()))

    def expected(names, T, cut, filt, src, poly, formulas):
        tf = filt or T
        S, h = built(names, tf, src)
        keep, low = [], {}
        for e in S:
            f = e.composition.reduced_formula
            if f not in low or e.energy_per_atom < low[f].energy_per_atom:
                low[f] = e
        for e in S:
            d = dist(e, h)
            if abs(d - cut) < 1e-6 and d > 1e-7:
                return None
            if d <= max(cut, 1e-7) and (poly or low[e.composition.reduced_formula] is e):
                keep.append(e)
        extra = []
        for f in formulas or ():
            rf = Composition(f).reduced_formula
            if rf in low:
                if not any(low[rf] is e for e in keep):
                    keep.append(low[rf])
            elif not any(x[0] == rf for x in extra):
                comp = em.comp(uni.ient(rf, 0.0))
                extra.append((rf, float(h(comp) / sum(comp.values())) - 1e-3))
        if tf != T:
            def at(e):
                """The same entry (from the same source) at the final temperature, if it has data there."""
                kind = type(e).__name__
                S2, _ = built(names, T, (False, False, True) if kind == "GibbsComputedEntry" else (True, False, False) if "NIST" in kind else (False, True, True))
                if kind == "GibbsComputedEntry":
                    m = [x for x in S2 if type(x) is type(e) and x.entry_id == e.entry_id]
                else:
                    m = [x for x in S2 if type(x) is type(e) and x.composition.reduced_formula == e.composition.reduced_formula]
                assert len(m) <= 1, (e, m)
                return m

            keep = [x for e in keep for x in at(e)]
        return keep, extra

    def process(c, block):
        for names, T, cut, filt, src, poly, formulas, calc in block:
            key = f"process n={len(names)} {names[-1]} T={T} cut={cut} filter={filt} nist,freed,ignore={src} poly={poly} {formulas} hulls={calc}"
            if not c.case(key):
                continue
            with c.guard(key):
                raw = [e for e in RAW + CUST + RAW2 if e.entry_id in names]
                w = expected(names, T, cut, filt, src, poly, formulas)
                if w is None:
                    continue
                keep, extra = w
                got = process_entries(list(raw), temperature=T, e_above_hull=cut, filter_at_temperature=filt, include_nist_data=src[0], include_freed_data=src[1], ignore_nist_solids=src[2],
                                      include_polymorphs=poly, formulas_to_include=formulas, calculate_e_above_hulls=calc)
                compare(c, key, got, keep, extra, calc)
                c.state(key)
                c.trace()
                c.outcome(("process", len(keep), len(extra)))

    def compare(c, key, got, keep, extra, calc):
        want = brief(keep)
        g = Counter()
        interp = []
        for e in got:
            if type(e).__name__ == "InterpolatedEntry":
                interp.append((e.composition.reduced_formula, float(e.energy_per_atom)))
            else:
                g.update(brief([e]))
        near = lambda a, b: len(a) == len(b) and all(x[:2] == y[:2] and abs(x[2] - y[2]) < 3e-5 for x, y in zip(sorted(a.elements()), sorted(b.elements())))
        c.check(near(g, want), f"{key} entries", lambda: f"missing {want - g} extra {g - want}")
        c.check(sorted(x[0] for x in interp) == sorted(x[0] for x in extra) and all(abs(a[1] - b[1]) < 1e-5 for a, b in zip(sorted(interp), sorted(extra))), f"{key} interpolated", lambda: f"{interp} {extra}")
        if calc:
            h = hull(list(got))
            for e in got:
                v = e.data.get("e_above_hull")
                c.check(v is not None and abs(v - dist(e, h)) < 1e-5, f"{key} energy above hull", lambda: f"{e.composition} {v} {dist(e, h)}")
        else:
            c.check(all((getattr(e, "data", None) or {}).get("e_above_hull") is None for e in got), f"{key} hull distances only on request")

    # ------------------------------------------------------------ the entry job
    LOG = []

    class Fake:
        pool = RAW

        def __init__(self, api_key=None, **kw):
            LOG.append(api_key)
            self.summary = self

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        @staticmethod
        def _right(crit):
            return list((crit or {}).get("thermo_types", ())) == ["GGA_GGA+U"]

        def _shift(self, es, ok):
            return [ComputedStructureEntry.from_dict(dict(e.as_dict(), energy=e.energy - (0 if ok else 7.0))) for e in es]

        def get_entries_in_chemsys(self, elements, additional_criteria=None, **kw):
            els = set(elements.split("-") if isinstance(elements, str) else elements)
            return self._shift([e for e in self.pool if {str(x) for x in e.composition.elements} <= els], self._right(additional_criteria))

        def search(self, exclude_elements=(), deprecated=None, all_fields=True, fields=None, **kw):
            ex = {str(x) for x in exclude_elements}

            class D:
                def __init__(self, i):
                    self.material_id = i

            out = [D(e.entry_id) for e in self.pool if not {str(x) for x in e.composition.elements} & ex]
            return out + ([] if deprecated is False else [D(e.entry_id) for e in DEP if not {str(x) for x in e.composition.elements} & ex])

        def get_entries(self, ids_, additional_criteria=None, **kw):
            by = {e.entry_id: e for e in [*self.pool, *DEP]}
            return self._shift([by[i] for i in ids_], self._right(additional_criteria))

    mp_api.client.MPRester = Fake

    def job(c, block):
        for src, T, cut, filt, poly, fi, cu, calc, data, expt in block:
            key = f"job {src} T={T} cut={cut} filter={filt} poly={poly} {fi} custom={cu} hulls={calc} {data} {expt}"
            if not c.case(key):
                continue
            with c.guard(key):
                big = "big" in src
                pool = BIGRAW if big else RAW2 if "2" in src else RAW
                Fake.pool = pool
                st = store_of([(e, "g") for e in pool])
                SETTINGS.JOB_STORE = JobStore(MemoryStore(), additional_stores={"my_entries": st, "entries": MemoryStore()})
                els = sorted({x for e in pool if big and len(elements(e)) == 1 for x in elements(e)} if big else {"Li", "Ti", "O"} if "2" in src else {"Y", "Mn", "O"})
                if src == "dbbig":
                    els = els[:14]
                raw = [e for e in pool if elements(e) <= set(els)]
                cust = CUST if cu else []
                mk = jc.GetEntrySetMaker(name="g", temperature=T, e_above_hull=cut, filter_at_temperature=filt, include_polymorphs=poly, formulas_to_include=list(fi), custom_entries=list(cust),
                                         calculate_e_above_hulls=calc, include_nist_data=expt[0], include_freed_data=expt[1], ignore_nist_solids=expt[2],
                                         entry_db_name="my_entries" if src.startswith("db") else "unknown" if src == "mpx" else None, MP_API_KEY="k" * 32 if src == "mp" else None, property_data=data)
                LOG.clear()
                doc = jc.GetEntrySetMaker.make.original(mk, "-".join(els))
                want = process_entries([*make_copy(raw), *make_copy(cust)], temperature=T, e_above_hull=cut, filter_at_temperature=filt, include_polymorphs=poly, formulas_to_include=list(fi),
                                       calculate_e_above_hulls=calc, include_nist_data=expt[0], include_freed_data=expt[1], ignore_nist_solids=expt[2])
                c.check(brief(doc.entries) == brief(want), f"{key} entries", lambda: f"missing {brief(want) - brief(doc.entries)} extra {brief(doc.entries) - brief(want)}")
                hd = lambda s: sorted((str(e.entry_id), e.composition.formula, None if e.data.get("e_above_hull") is None else round(e.data["e_above_hull"], 6)) for e in s)
                c.check(hd(doc.entries) == hd(want), f"{key} hull distances")
                c.check(doc.e_above_hull == cut and doc.include_polymorphs == poly and doc.formulas_to_include == list(fi) and doc.task_label == "g", f"{key} recorded options")
                c.check((not LOG) == src.startswith("db") and all(k == ("k" * 32 if src == "mp" else None) for k in LOG), f"{key} source", str(LOG))
                c.check([e.entry_id for e in mk.custom_entries] == [e.entry_id for e in cust] and mk.formulas_to_include == list(fi), f"{key} maker unchanged")
                c.state(key)
                c.trace()
                c.outcome(("job", src, len(doc.entries)))

    def make_copy(es):
        return [ComputedStructureEntry.from_dict(e.as_dict()) for e in es]

    # ------------------------------------------------------------ stored reactions
    def stored(c, _):
        es = GibbsEntrySet([*net.entries().values(), uni.ient("Mn", 0.0, "Mn"), uni.ient("Y", 0.0, "Y")])
        fakeray.reset()
        full = BasicEnumerator(n=2).enumerate(es)
        runs = {}
        blobs = MemoryStore()
        store = JobStore(MemoryStore(), additional_stores={k: (blobs if k == "rxns" else MemoryStore()) for k in ("rxns", "entries", "network", "paths")})
        kinds = [("YMnO3", None, 0.0, ["Y2O3", "Mn2O3", "MnO2"]), ("YMnO3", None, 0.0, ["Y2O3", "MnO2", "Mn3O4"]), ("YMnO3", "O", 0.0, ["Y2O3", "MnO2"]), ("YMnO3", "O", -0.5, ["Y2O3", "Mn2O3", "MnO2"]),
                 ("YMn2O5", None, 0.0, ["Y2O3", "Mn2O3", "MnO2", "YMnO3"]), ("YMnO3", None, -0.5, ["Y2O3", "Mn2O3"])]
        for n, (tgt, oe, mu, pre) in enumerate(kinds):
            fakeray.reset()
            sub = full.get_rxns_by_reactants([*pre, "O2"], return_set=True)
            j = jc.CalculateCompetitionMaker(open_elem=oe, chempot=mu, calculate_competition=False).make([sub], es, tgt)
            run_locally(j, store=store, ensure_success=True, log=False, create_folders=False)
            runs[n] = (next(iter(store.docs_store.query({"uuid": j.uuid}))), Counter((net.rk(r), str(getattr(r, "chempots", None))) for r in j_result(store, j.uuid)))
            runs[n][0].pop("_id", None)
        queries = [(t, oe, mu) for t in ("YMnO3", "Y2Mn2O6", "YMn2O5", "Mn3O4") for oe in (None, "O") for mu in (0.0, -0.5)]
        for k in (1, 2, 3) if ctx.quick else (1, 2, 3, 4):
            for seq in permutations(range(len(kinds)), k):
                docs = []
                for pos, n in enumerate(seq):
                    d = dict(runs[n][0], completed_at=f"2026-01-0{pos + 1}T00:00:00", metadata={"fw_id": 7 * (n % 2)})
                    docs.append(d)
                order = docs if sum(seq) % 2 else docs[::-1]
                s = JobStore(MemoryStore(), additional_stores=dict(store.additional_stores))
                s.connect()
                s.docs_store.update(order, key=["uuid", "index"])
                SETTINGS.JOB_STORE = s
                for (t, oe, mu), fw in product(queries, (None, 0, 7)):
                    if k == 3 and ctx.quick and (t == "Mn3O4" or fw == 7):
                        continue
                    key = f"stored {seq} {t} {oe} {mu} {fw}"
                    if not c.case(key):
                        continue
                    m = [n for n in seq if kinds[n][0] == Composition(t).reduced_formula and kinds[n][1] == oe and kinds[n][2] == mu and (fw is None or 7 * (n % 2) == fw)]
                    try:
                        got = get_rxns_from_db(t, open_elem=oe, chempot=mu, fw_id=fw)
                    except ValueError as ex:
                        c.check(not m, key, lambda: repr(ex))
                        continue
                    except Exception as ex:  # noqa: BLE001
                        c.check(False, f"{key} | raises {type(ex).__name__}", repr(ex))
                        continue
                    w = runs[m[-1]][1] if m else None
                    c.check(w == Counter((net.rk(r), str(getattr(r, "chempots", None))) for r in got), key, lambda: f"{len(list(got))} reactions, wanted run {m}")
                    c.trace()
                    c.outcome(("stored", m[-1] if m else None))
                c.state(("stored", seq))

    def j_result(store, uuid):
        from monty.json import MontyDecoder

        d = store.query_one({"uuid": uuid}, load=True)
        return MontyDecoder().process_decoded(d["output"]).rxns

    items = [(direct, 0), (stored, 0)]
    q = [RAW[i] for i in (0, 3, 5, 6, 9, 10, 14, 16)]
    hows = "ugGnre"
    for k in range(len(q) + 1):
        for n, s in enumerate(combinations(range(len(q)), k)):
            if ctx.quick and k in (4, 5) and n % 4:
                continue
            items.append((query, [(q[i], hows[(j + n + k) % 6]) for j, i in enumerate(s)]))
    items += [(query, [(q[4], h), (q[5], g)]) for h, g in product(hows, hows)]
    items += [(large, n) for n in (10, 11, 12, 13, 14, 15, 20, 26)]
    base = tuple(f"mp-{i}" for i in range(14))
    noO = tuple(f"mp-{i}" for i in (0, 2, 3, 5, 6, 7, 8, 10))
    opts = list(product((base, noO), (300, 900), (0.0, 0.03, 0.15), (None, 300, 900, 1200), ((False, False, True), (True, False, True), (True, True, False), (False, True, True)), (False, True),
                        (None, ["Mn4O6", "YMn2O5"], ["YMn4O7", "Y2Mn2O6"], ["Y6Mn2O12", "Mn2O3", "Y3MnO6"]), (False, True)))
    if ctx.quick:
        opts = [o for i, o in enumerate(opts) if o[0] == base and (o[4] in ((False, False, True), (True, False, True)) or i % 3 == 0)]
    alt = tuple(f"mp-{500 + i}" for i in range(len(POOL2)))
    o2 = list(product((alt,), (300, 900), (0.0, 0.15), (None, 300, 1200), tuple(product((True, False), repeat=3)), (False, True), (None, ["Li4TiO4", "Ti4O8"]), (False,)))
    opts += [o for i, o in enumerate(o2) if not ctx.quick or (o[4][0] and i % 2) or i % 7 == 0]
    for b in range(0, len(opts), 48):
        items.append((process, opts[b:b + 48]))
    jobs = []
    for src, T, cut, filt, poly, fi, cu, calc in product(("db", "mp", "mp0", "mpx"), (300, 1000), (0.0, 0.1), (None, 300), (False, True), ((), ("Mn5O8", "YMn2O5")), (False, True), (True, False)):
        jobs.append((src, T, cut, filt, poly, fi, cu, calc, None if cu else ["a"] if poly else ["theoretical"], (calc, poly, cu) if T == 300 else (True, False, True)))
    jobs += [(s, T, 0.1, None, False, (), False, False, None, (True, False, True)) for s in ("mpbig", "dbbig") for T in (300, 900)]
    jobs += [(src, T, cut, filt, poly, (), False, calc, None, ex) for src, T, cut, filt, poly, calc, ex in
             product(("db2", "mp2"), (300, 1000), (0.0, 0.1), (None, 300), (False, True), (True,), tuple(product((True, False), repeat=3)))]
    if ctx.quick:
        jobs = [x for i, x in enumerate(jobs) if i % 2 == (i // 2) % 2 or "big" in x[0]]
    for b in range(0, len(jobs), 12):
        items.append((job, jobs[b:b + 12]))
    ctx.pmap(sorted(items, key=lambda x: {"stored": 0, "large": 1, "process": 2, "job": 3}.get(x[0].__name__, 4)), lambda c, it: it[0](c, it[1]))
