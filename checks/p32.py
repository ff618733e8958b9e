"""P32: parallel and iteration helpers: all completion orders, all small inputs."""
import os
import subprocess
import sys
from itertools import permutations, product

from vlib import fakeray
from vlib.core import explore

RULE = ("to_iterator: every completion order of up to 5 (thorough 6) tasks (with read-only isolation of values), failing tasks at every position, two interleaved iterators, early stop; "
        "initialize_ray: every environment; grouper and limited_powerset: every input length up to 8 x every size up to 9 x input kinds, repeated and falsy items, against index-based references; "
        "thorough: the same task sets on the real Ray")
ASSUMPTIONS = ["group sizes are at least one", "a failing task ends the iteration with its error"]


def run(ctx):
    import ray

    from rxn_network.utils import funcs
    from rxn_network.utils import ray as rr

    @ray.remote
    def val(x):
        return x

    @ray.remote
    def boom(x):
        raise KeyError(x)

    N = 5 if ctx.quick else 6

    # --- many tasks at once: a few completion orders
    def many(c, n):
        for lifo in (False, True):
            for stride in (0, 1, 2):
                key = f"to_iterator of {n} tasks lifo={lifo} order {stride}"
                if not c.case(key):
                    continue
                with c.guard(key):
                    fakeray.reset(Pick(stride), 4, lifo)
                    got = [x for x in rr.to_iterator([val.remote(i) for i in range(n)])]
                    c.check(sorted(got) == list(range(n)), key, lambda: f"{len(got)} of {n}: missing {sorted(set(range(n)) - set(got))[:9]}")
                    c.state(key)
                    c.trace()

    class Pick:
        """Always the first, the last or alternating enabled choices."""
        points = ()

        def __init__(self, stride):
            self.stride, self.k = stride, 0

        def choose(self, n, *a, **k):
            self.k += 1
            return 0 if self.stride == 0 else n - 1 if self.stride == 1 else self.k % n

    ctx.pmap([7, 8, 9, 12, 15, 16, 17, 18, 24, 31, 32, 33, 50, 64, 65, 100, 101, 128, 129, 257, 500, 1001], many)

    # --- to_iterator, every completion order
    def iterate(c, item):
        n, ids, bad, lifo = item
        key = f"to_iterator n={n} ids={ids} failing={bad} lifo={lifo}"
        if not c.case(key):
            return
        vals = ([0, "a", None, [1, 2], 0, {"k": (1,)}] if not lifo else [[], {}, "", (), [1], []])[:n]
        orders = set()

        def once(ch):
            fakeray.reset(ch, 4, lifo)
            refs = [boom.remote(i) if i == bad else val.remote(v) for i, v in enumerate(vals)]
            given = list(refs)
            got, err = [], None
            try:
                for x in rr.to_iterator(given, get_obj_ids=ids):
                    got.append(x)
            except KeyError as e:
                err = e.args[0]
            done = [(r, v) for r, v in zip(refs, vals)]
            if ids:
                seen = [refs.index(r) for r, _ in got]
                c.check(all(v == vals[i] for i, (_, v) in zip(seen, got)), f"{key}: value belongs to its task", lambda: got)
            else:
                seen = None
                left = list(vals)
                for v in got:
                    if v in left:
                        left.remove(v)
                    else:
                        c.violation(f"{key}: value of a task delivered once", got)
            if bad is None:
                c.check(len(got) == n and err is None, f"{key}: every task delivered once", lambda: f"{got} {err}")
                if ids:
                    c.check(sorted(seen) == list(range(n)), f"{key}: every task delivered exactly once", lambda: seen)
                    orders.add(tuple(seen))
            else:
                c.check(err == bad, f"{key}: error of the failing task raised", lambda: f"{got} {err}")
            del done
            c.state((key, tuple(p[1] for p in ch.points) if ch.points else ()))
            c.outcome(len(got))

        with c.guard(key):
            for _ in explore(once, 99, 10000, c):
                c.trace()
            if bad is None and ids:
                c.check(len(orders) == len(list(permutations(range(n)))), f"{key}: all orders reached", lambda: f"{len(orders)} orders")
            c.sample({"scenario": key, "orders": len(orders)})

    items = [(n, ids, None, lifo) for n in range(N + 1) for ids in (False, True) for lifo in (False, True) if not (lifo and n < 2)]
    items += [(n, ids, bad, False) for n in range(1, 5) for ids in (False, True) for bad in range(n)]
    ctx.pmap(items, iterate)

    def inter(c, pattern):
        key = f"interleaved {pattern}"
        if not c.case(key):
            return

        def once(ch):
            fakeray.reset(ch, 2)
            its = [rr.to_iterator([val.remote((k, i)) for i in range(2)]) for k in range(2)]
            got = [[], []]
            for k in pattern:
                got[k].append(next(its[k]))
            for k in range(2):
                got[k] += list(its[k])
                c.check(sorted(got[k]) == [(k, 0), (k, 1)], f"{key}: iterators independent", lambda: got)

        with c.guard(key):
            for _ in explore(once, 99, 1000, c):
                c.trace()
            c.state(key)

    ctx.pmap([p for n in range(4) for p in product((0, 1), repeat=n) if p.count(0) <= 2 and p.count(1) <= 2], inter)

    # --- initialize_ray
    for init, head, pbs, quiet, again in product((False, True), (None, "", "10.0.0.1:6379"), (None, "0", "1", "2", "16"), (False, True), (1, 2)):
        key = f"initialize_ray initialized={init} IP_HEAD={head} PBS_NNODES={pbs} quiet={quiet} calls={again}"
        if not ctx.case(key):
            continue
        old = {k: os.environ.pop(k, None) for k in ("IP_HEAD", "PBS_NNODES")}
        try:
            if head is not None:
                os.environ["IP_HEAD"] = head
            if pbs is not None:
                os.environ["PBS_NNODES"] = pbs
            fakeray.reset(None, 4, initialized=init)
            with ctx.guard(key):
                for _ in range(again):
                    rr.initialize_ray(quiet=quiet)
                calls = fakeray.STATE.init_kwargs
                if init:
                    ctx.check(not calls, f"{key}: nothing to do", lambda: calls)
                else:
                    multi = bool(head) or (pbs is not None and int(pbs) > 1)
                    ctx.check(len(calls) == 1, f"{key}: initialised once", lambda: calls)
                    a, k = calls[0]
                    ctx.check((k.get("address") == "auto" or "auto" in a) == multi, f"{key}: joins a cluster exactly when there is one", lambda: calls)
                ctx.check(ray.is_initialized(), f"{key}: initialised")
            ctx.state(key)
        finally:
            for k, v in old.items():
                os.environ.pop(k, None)
                if v is not None:
                    os.environ[k] = v

    # --- grouper
    POOLS = [list(range(1, 9)), [0, None, "", (), False, [], 0, None], [1, 1, 1, 2, 2, 1, 1, 1]]
    kinds = {"list": list, "tuple": tuple, "iterator": iter, "generator": lambda x: (y for y in x), "keys": lambda x: dict.fromkeys(map(repr, enumerate(x))).keys()}
    for pi, pool in enumerate(POOLS):
        for ln, kind in product(range(9), kinds):
            src = pool[:ln]
            for n in range(1, 10):
                key = f"grouper pool{pi} len={ln} {kind} n={n}"
                if not ctx.case(key):
                    continue
                with ctx.guard(key):
                    base = [repr(x) for x in enumerate(src)] if kind == "keys" else src
                    for fill in ("default", "X", 0):
                        kw = {} if fill == "default" else {"fillvalue": fill}
                        got = [tuple(g) for g in funcs.grouper(kinds[kind](src), n, **kw)]
                        f = None if fill == "default" else fill
                        exp = [tuple(base[i:i + n]) + (f,) * (n - len(base[i:i + n])) for i in range(0, ln, n)]
                        ctx.check(got == exp and [list(map(type, g)) for g in got] == [list(map(type, g)) for g in exp], f"{key} {fill}", lambda: f"{got} vs {exp}")
                    ctx.state(key)
            for mx in range(10):
                key = f"powerset pool{pi} len={ln} {kind} max={mx}"
                if not ctx.case(key):
                    continue
                with ctx.guard(key):
                    base = [repr(x) for x in enumerate(src)] if kind == "keys" else src
                    got = [tuple(g) for g in funcs.limited_powerset(kinds[kind](src), mx)]
                    masks = [[i for i in range(ln) if m >> i & 1] for m in range(1, 1 << ln)]
                    masks = sorted((m for m in masks if len(m) <= mx), key=lambda m: (len(m), m))
                    exp = [tuple(base[i] for i in m) for m in masks]
                    ctx.check(got == exp, f"{key}", lambda: f"{got[:6]} ... {len(got)} vs {len(exp)}")
                    ctx.state(key)

    # --- the stand-in agrees with the real Ray
    if not ctx.quick and ctx.case("real ray"):
        code = r"""
import sys, os
sys.path[:0] = ['/repo/src']
os.environ['RAY_DEDUP_LOGS'] = '0'
import numpy as np, ray
from rxn_network.utils import ray as rr
rr.initialize_ray(quiet=True)
assert ray.is_initialized()
rr.initialize_ray(quiet=True)
@ray.remote
def val(x, t=0):
    import time; time.sleep(t)
    return x
@ray.remote
def boom(x):
    raise KeyError(x)
for n in range(6):
    for rev in (0, 1):
        refs = [val.remote(i, 0.05 * (n - i if rev else i)) for i in range(n)]
        assert sorted(rr.to_iterator(list(refs))) == list(range(n))
        got = list(rr.to_iterator(list(refs), get_obj_ids=True))
        assert sorted(v for _, v in got) == list(range(n)) and all(refs[v] == r for r, v in got)
try:
    list(rr.to_iterator([val.remote(1), boom.remote(7)])); bad = 1
except KeyError:
    bad = 0
assert not bad
a = ray.get(ray.put(np.zeros(3)))
assert not a.flags.writeable
try:
    ray.wait([ray.put(1)] * 2); raise SystemExit('duplicates accepted')
except ValueError:
    pass
d = {'x': [1]}
assert ray.get(ray.put(d)) is not d
print('REAL-OK')
"""
        try:
            p = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True, timeout=300)
            if "REAL-OK" in p.stdout:
                ctx.notes["real_ray"] = "agrees with the stand-in"
                ctx.trace()
            elif "AssertionError" in p.stderr:
                ctx.violation("real ray: helpers on the real Ray", p.stderr[-2000:])
            else:
                ctx.notes["real_ray"] = "could not start: " + p.stderr[-200:]
        except subprocess.TimeoutExpired:
            ctx.notes["real_ray"] = "timed out"
