"""A controlled, in-process stand-in for the parts of Ray that rxn_network uses.

Replaces attributes of the real `ray` module (so the decorators in rxn_network pick it up when they are
applied at import time). Tasks are isolated by a pickle round trip of arguments and results, numpy arrays
come back read-only, as with the real object store. Which pending task completes next is decided by the
installed Chooser; the CPU count is an environment answer set by the harness."""

from __future__ import annotations

import pickle
import types

import ray
from ray import cloudpickle

from vlib.core import Chooser

STATE = types.SimpleNamespace(chooser=Chooser(), cpus=4.0, memory=8e9, tasks=0, inits=0, initialized=True, lifo=False,
                              waits=0, init_kwargs=[])
_STORE: dict = {}
_N = [0]


class ObjectRef:
    __slots__ = ("id",)

    def __init__(self, id_):
        self.id = id_

    def __eq__(self, o):
        return isinstance(o, ObjectRef) and o.id == self.id

    def __hash__(self):
        return hash(("fakeref", self.id))

    def __reduce__(self):
        return (ObjectRef, (self.id,))

    def __repr__(self):
        return f"ref({self.id})"


def _dump(obj):
    bufs = []
    data = cloudpickle.dumps(obj, protocol=5, buffer_callback=bufs.append)
    return data, [bytes(b.raw()) for b in bufs]


def _load(blob):
    return pickle.loads(blob[0], buffers=blob[1])


def _new(entry):
    _N[0] += 1
    r = ObjectRef(_N[0])
    _STORE[r.id] = entry
    return r


def put(value, **_):
    if isinstance(value, ObjectRef):
        raise TypeError("Calling 'put' on an ray.ObjectRef is not allowed.")
    return _new(["val", _dump(value)])


def _run(ref):
    e = _STORE[ref.id]
    if e[0] == "task":
        fn, args, kwargs, nret = e[1:]
        args, kwargs = _load((args[0], args[1])), _load((kwargs[0], kwargs[1]))
        args = [get(a) if isinstance(a, ObjectRef) else a for a in args]
        kwargs = {k: get(v) if isinstance(v, ObjectRef) else v for k, v in kwargs.items()}
        STATE.tasks += 1
        try:
            res = ["val", _dump(fn(*args, **kwargs))]
        except Exception as ex:  # noqa: BLE001
            res = ["err", ex]
        _STORE[ref.id] = res


def get(refs, timeout=None):
    if isinstance(refs, list):
        return [get(r) for r in refs]
    if not isinstance(refs, ObjectRef):
        raise ValueError(f"Invalid type of object refs, {type(refs)}, is given.")
    _run(refs)
    e = _STORE[refs.id]
    if e[0] == "err":
        raise e[1]
    return _load(e[1])


def wait(refs, *, num_returns=1, timeout=None, fetch_local=True):
    if not isinstance(refs, list):
        raise TypeError("wait() expected a list of ray.ObjectRef")
    if len(set(refs)) != len(refs):
        raise ValueError("Wait requires a list of unique object refs.")
    if num_returns > len(refs):
        raise ValueError("num_returns cannot be greater than the number of objects provided to ray.wait.")
    STATE.waits += 1
    rest, done = list(refs), []
    for _ in range(num_returns):
        if len(rest) > 1:
            i = STATE.chooser.choose(len(rest))
            if STATE.lifo:
                i = len(rest) - 1 - i
        else:
            i = 0
        r = rest.pop(i)
        _run(r)
        done.append(r)
    return done, rest


class RemoteFunction:
    def __init__(self, fn, opts=None):
        self._function = fn
        self._opts = opts or {}
        self.__name__ = getattr(fn, "__name__", "fn")
        self.__doc__ = fn.__doc__

    def options(self, **kw):
        return RemoteFunction(self._function, {**self._opts, **kw})

    def remote(self, *args, **kwargs):
        return _new(["task", self._function, _dump(list(args)), _dump(kwargs), 1])

    def __call__(self, *a, **k):
        raise TypeError("Remote functions cannot be called directly. Use .remote().")


def remote(*args, **kwargs):
    if len(args) == 1 and not kwargs and callable(args[0]):
        return RemoteFunction(args[0])
    return lambda fn: RemoteFunction(fn, kwargs)


def init(*a, **k):
    STATE.inits += 1
    STATE.init_kwargs.append((a, k))
    STATE.initialized = True
    return types.SimpleNamespace(dashboard_url=None)


def install():
    ray.put, ray.get, ray.wait, ray.remote, ray.init = put, get, wait, remote, init
    ray.is_initialized = lambda: STATE.initialized
    ray.shutdown = lambda *a, **k: setattr(STATE, "initialized", False)
    ray.cluster_resources = lambda: {"CPU": STATE.cpus, "memory": STATE.memory, "object_store_memory": 4e9}
    ray.available_resources = ray.cluster_resources
    ray.nodes = lambda: [{"NodeManagerHostname": "fake", "Alive": True, "Resources": {"CPU": STATE.cpus}}]
    ray.ObjectRef = ObjectRef


def reset(chooser=None, cpus=4.0, lifo=False, initialized=True, memory=8e9):
    """Start one controlled execution."""
    _STORE.clear()
    STATE.chooser = chooser or Chooser()
    STATE.cpus = float(cpus)
    STATE.memory = float(memory)
    STATE.tasks = 0
    STATE.waits = 0
    STATE.inits = 0
    STATE.init_kwargs = []
    STATE.initialized = initialized
    STATE.lifo = lifo
