"""Check context: exhaustive-exploration bookkeeping, violations, replay, known findings, evidence."""

from __future__ import annotations

import hashlib
import json
import os
import pickle
import sys
import time
import traceback
from collections import Counter
from contextlib import contextmanager

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = "/repo/src"


class StopCheck(Exception):
    """Enough violations collected."""


class Ctx:
    MAX_VIOL = int(os.environ.get("VP_MAXV", "8"))

    def __init__(self, prop, tier, seed, real_out=None, only=None):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.only = only  # replay: run just this case
        self.t0 = time.time()
        self.states: set = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes: Counter = Counter()
        self.samples: list = []
        self.notes: dict = {}
        self.viol: dict = {}  # signature -> detail
        self.known_hit: dict = {}
        self.known = load_known(prop)
        self.caps: list = []
        self.cur_case = None
        self.real_out = real_out or sys.stdout

    # ---- enumeration bookkeeping
    def case(self, key) -> bool:
        """Announce a case (an initial configuration / input / history). False = skip (replay filter)."""
        key = str(key)
        self.cur_case = key
        return self.only is None or self.only == key

    def state(self, key) -> bool:
        h = hashlib.blake2b(repr(key).encode(), digest_size=10).digest()
        if h in self.states:
            return False
        self.states.add(h)
        return True

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, o):
        self.outcomes[str(o)] += 1

    def sample(self, obj, limit=4):
        if len(self.samples) < limit:
            self.samples.append(obj)

    def cap(self, text):
        if text not in self.caps:
            self.caps.append(text)

    # ---- verdicts
    def violation(self, sig, detail=""):
        sig = str(sig)
        if sig in self.known:
            self.known_hit.setdefault(sig, self.known[sig])
            return
        if sig not in self.viol:
            self.viol[sig] = {"case": self.cur_case, "detail": str(detail)[:6000]}
        if len(self.viol) >= self.MAX_VIOL:
            raise StopCheck

    def check(self, cond, sig, detail=""):
        self.transitions += 1
        if not cond:
            self.violation(sig, detail() if callable(detail) else detail)
            return False
        return True

    @contextmanager
    def guard(self, sig):
        """Code under test must not raise here."""
        try:
            yield
        except StopCheck:
            raise
        except Exception as e:  # noqa: BLE001
            self.violation(f"{sig} | raises {type(e).__name__}", traceback.format_exc()[-3000:])

    # ---- parallel map over independent cases (fork)
    def pmap(self, items, fn, workers=None):
        items = list(items)
        if self.only is not None or len(items) < 2:
            for it in items:
                fn(self, it)
            return
        workers = min(workers or min(8, os.cpu_count() or 1), len(items))
        pipes = []
        sys.stdout.flush()
        for w in range(workers):
            r, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    sub = Ctx(self.prop, self.tier, self.seed, self.real_out, self.only)
                    sub.states = set()
                    err = None
                    try:
                        for it in items[w::workers]:
                            fn(sub, it)
                    except StopCheck:
                        pass
                    except BaseException:  # noqa: BLE001
                        err = traceback.format_exc()
                    blob = pickle.dumps(
                        (sub.states, sub.transitions, sub.traces, sub.outcomes, sub.samples, sub.viol,
                         sub.known_hit, sub.caps, sub.notes, err)
                    )
                    with os.fdopen(wr, "wb") as f:
                        f.write(blob)
                except BaseException:  # noqa: BLE001
                    code = 1
                os._exit(code)
            os.close(wr)
            pipes.append((pid, r))
        errs = []
        for pid, r in pipes:
            with os.fdopen(r, "rb") as f:
                blob = f.read()
            os.waitpid(pid, 0)
            if not blob:
                errs.append("worker died")
                continue
            st, tr, tc, oc, sm, vi, kh, caps, notes, err = pickle.loads(blob)
            self.states |= st
            self.transitions += tr
            self.traces += tc
            self.outcomes.update(oc)
            for s in sm:
                self.sample(s)
            for k, v in vi.items():
                self.viol.setdefault(k, v)
            self.known_hit.update(kh)
            for c in caps:
                self.cap(c)
            for k, v in notes.items():
                if isinstance(v, (int, float)) and isinstance(self.notes.get(k, 0), (int, float)):
                    self.notes[k] = self.notes.get(k, 0) + v
                else:
                    self.notes[k] = v
            if err:
                errs.append(err)
        if errs:
            raise RuntimeError("worker failed:\n" + "\n".join(errs))
        if len(self.viol) >= self.MAX_VIOL:
            raise StopCheck

    # ---- output
    def finish(self, rule, exhaustive=True, assumptions=()):
        cov = {
            "states": len(self.states),
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "distinct_outcomes": len(self.outcomes),
            "outcomes_top": dict(self.outcomes.most_common(12)),
            "rule": rule,
            "samples": self.samples,
            "exhaustive": bool(exhaustive and not self.caps),
        }
        if self.caps:
            cov["caps_hit"] = self.caps
        cov.update(self.notes)
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": "model_checking",
            "coverage": cov,
            "assumptions": list(assumptions),
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.viol),
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        path = os.path.join(ROOT, "evidence", f"{self.prop}.json")
        tmp = path + ".tmp"
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, path)
        out = self.real_out
        for sig, what in sorted(self.known_hit.items()):
            print(f"KNOWN-FINDING: property={self.prop} {what}", file=out)
        rc = 0
        for sig, v in self.viol.items():
            rc = 1
            rp = write_replay(self.prop, self.tier, sig, v)
            print(f"VIOLATION property={self.prop} replay={rp}", file=out)
            print(f"  {sig}\n  case={v['case']}\n  {v['detail'][:800]}", file=out)
        print(
            f"{self.prop} {self.tier}: states={cov['states']} transitions={cov['transitions']} "
            f"traces={cov['traces_validated_against_impl']} outcomes={cov['distinct_outcomes']} "
            f"violations={len(self.viol)} known={len(self.known_hit)} wall={ev['wall_s']}s",
            file=out,
        )
        out.flush()
        return rc


def write_replay(prop, tier, sig, v):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    name = f"{prop}-{hashlib.sha1(sig.encode()).hexdigest()[:10]}.json"
    p = os.path.join(d, name)
    with open(p, "w") as f:
        json.dump(
            {"property": prop, "signature": sig, "case": v["case"], "detail": v["detail"], "tier": tier,
             "how_to_replay": f"/opt/venv/bin/python {ROOT}/check.py {prop} --tier {tier} --replay {p}"},
            f, indent=1)
    return p


def load_known(prop):
    p = os.path.join(ROOT, "known_findings.json")
    try:
        with open(p) as f:
            d = json.load(f)
    except FileNotFoundError:
        return {}
    return {k["signature"]: k["what"] for k in d.get("findings", []) if k["property"] == prop}


# ---------------------------------------------------------------- deviation-bounded explorer
class Divergence(RuntimeError):
    pass


class Chooser:
    """Replays a prefix of choices, then takes 0. Records (options, taken)."""

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.points: list = []

    def choose(self, n):
        i = len(self.points)
        c = 0
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= n:
                raise Divergence(f"choice {c} of {n} at point {i}")
        self.points.append((n, c))
        return c


def explore(run, bound, max_runs=None, ctx=None):
    """Yield (choices, result) of every execution with at most `bound` non-default choices.

    run(chooser) -> result. Iterates the bound from 0 upwards so the first counterexample is minimal."""
    runs = 0
    layer = [()]
    seen = set()
    for b in range(bound + 1):
        nxt = []
        for prefix in layer:
            if prefix in seen:
                continue
            seen.add(prefix)
            if max_runs is not None and runs >= max_runs:
                if ctx is not None:
                    ctx.cap(f"max_runs={max_runs} reached at deviation bound {b}")
                return
            ch = Chooser(prefix)
            res = run(ch)
            runs += 1
            if ctx is not None:
                ctx.step(len(ch.points))
            yield [c for _, c in ch.points], res
            taken = [c for _, c in ch.points]
            for i in range(len(prefix), len(ch.points)):
                for alt in range(1, ch.points[i][0]):
                    nxt.append((*taken[:i], alt))
        layer = nxt
