"""multiprocessing: pools of workers with their own copy of the module state.

A worker starts with a copy of the module globals of the analysed package as
they are when the pool is made (fork), runs the initializer once, and keeps its
state between tasks.  Which worker runs which task is arbitrary (an input of the
check).  Raw arrays are shared between all workers.  Arguments and results are
passed as copies.  Results come back in task order (map, starmap, imap) or in
any order (imap_unordered).  Workers run one task at a time.
"""
from __future__ import annotations

import copy
import itertools
import types

import numpy as np

from . import engine, symnp
from .engine import R, Unsupported

CODES = {"b": np.int8, "B": np.uint8, "h": np.int16, "H": np.uint16, "i": np.int32, "I": np.uint32, "l": np.int64,
         "L": np.uint64, "q": np.int64, "Q": np.uint64, "f": np.float32, "d": np.float64}


class RawArray:
    __symbuf__ = True

    def __init__(self, typecode, init):
        if isinstance(typecode, type):
            import ctypes
            typecode = {ctypes.c_double: "d", ctypes.c_int: "i", ctypes.c_long: "l", ctypes.c_float: "f",
                        ctypes.c_int32: "i", ctypes.c_int64: "l"}.get(typecode)
        if typecode not in CODES:
            raise Unsupported("RawArray type")
        self.dtype = np.dtype(CODES[typecode])
        if isinstance(init, (int, np.integer)):
            init = [0] * int(init)
        vals = [x for x in init]
        if typecode == "d":
            self.arr = symnp.tosym(np.array([x if isinstance(x, R) else R(float(x)) for x in vals], dtype=object))
            if not vals:
                self.arr = symnp.tosym(np.empty(0, dtype=object))
        elif typecode == "f":
            raise Unsupported("single precision")
        else:
            for x in vals:
                if not isinstance(x, (int, np.integer)):
                    raise TypeError("an integer is required")
            self.arr = np.array(vals, dtype=self.dtype)

    def __len__(self):
        return len(self.arr)

    def __getitem__(self, i):
        return self.arr[i]

    def __setitem__(self, i, v):
        self.arr[i] = v

    def get_obj(self):
        return self

    def get_lock(self):
        return _Null()

    def __deepcopy__(self, memo):
        return self


class _Null:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def acquire(self, *a):
        return True

    def release(self):
        pass


def Array(typecode, init, lock=True):
    return RawArray(typecode, init)


def frombuffer(buf, dtype=float, count=-1, offset=0):
    if not getattr(buf, "__symbuf__", False):
        return np.frombuffer(buf, dtype=dtype, count=count, offset=offset)
    if offset:
        raise Unsupported("frombuffer with an offset")
    if not len(buf):
        return _empty(dtype)
    dt = np.dtype(float) if getattr(dtype, "__symfloat__", False) else np.dtype(dtype)
    a = buf.arr
    if buf.dtype != dt:
        if buf.dtype.kind == "f" or dt.kind == "f":
            raise Unsupported("floats read as integers or the reverse")
        a = a.view(dt)
    return a if count < 0 else a[:count]


def _empty(dtype):
    return symnp.p_zeros(0) if np.dtype(dtype).kind == "f" else np.empty(0, dtype=dtype)


def _modules():
    from . import symload
    out = [m for m in symload.LOADED.values()]
    for v in symload.VARIANTS.values():
        out += list(v.values())
    return [m for m in out if isinstance(m, types.ModuleType)]


def _snapshot():
    st = []
    for m in _modules():
        d = {}
        for k, v in m.__dict__.items():
            if k.startswith("__"):
                continue
            d[k] = copy.copy(v) if isinstance(v, (dict, list, set)) else v
        st.append((m, d))
    return st


class _In:
    """run inside a worker's state"""

    def __init__(self, state):
        self.state = state

    def __enter__(self):
        self.keep = []
        for m, d in self.state:
            self.keep.append((m, {k: v for k, v in m.__dict__.items() if not k.startswith("__")}))
            self._set(m, d)

    def __exit__(self, *a):
        for i, (m, d) in enumerate(self.state):
            self.state[i] = (m, {k: v for k, v in m.__dict__.items() if not k.startswith("__")})
        for m, d in self.keep:
            self._set(m, d)
        return False

    @staticmethod
    def _set(m, d):
        for k in [k for k in m.__dict__ if not k.startswith("__") and k not in d]:
            del m.__dict__[k]
        m.__dict__.update(d)


def passed(x):
    """what arrives in the other process"""
    if isinstance(x, types.LambdaType) and x.__name__ == "<lambda>":
        raise AttributeError("Can't pickle local object")
    return copy.deepcopy(x)


class Result:
    def __init__(self, fn):
        self.exc = None
        try:
            self.val = fn()
        except Exception as e:  # re-raised by get, as in the real pool
            self.exc, self.val = e, None

    def get(self, timeout=None):
        if self.exc is not None:
            raise self.exc
        return self.val

    result = get

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    done = ready

    def successful(self):
        return self.exc is None


class Pool:
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None,
                 max_workers=None, mp_context=None):
        n = processes if processes is not None else max_workers
        n = 2 if n is None else int(n)
        if n < 1:
            raise ValueError("Number of processes must be at least 1")
        self.n = n
        self.start = _snapshot()
        self.init = (initializer, initargs)
        self.workers = {}
        self.closed = False
        ex = engine.cur()
        self.id = ex.__dict__.setdefault("pool_count", 0)
        ex.pool_count += 1
        self.k = 0

    def _state(self, w):
        if w not in self.workers:
            st = [(m, {k: copy.copy(v) if isinstance(v, (dict, list, set)) else v for k, v in d.items()})
                  for m, d in self.start]
            self.workers[w] = st
            if self.init[0] is not None:
                with _In(st):
                    self.init[0](*self.init[1])
        return self.workers[w]

    def _run(self, fn, args, kw=None):
        if self.closed:
            raise ValueError("Pool not running")
        ex = engine.cur()
        self.k += 1
        # the first task goes to the first worker; afterwards to one used before or to the next one
        used = len(self.workers)
        top = min(self.n - 1, used)
        w = 0 if used == 0 or top == 0 else int(ex.int(f"pool{self.id}_worker{self.k}", 0, top))
        with _In(self._state(w)):
            r = fn(*passed(tuple(args)), **passed(kw or {}))
        return passed(r)

    def map(self, fn, it, chunksize=None, *more, **k):
        if hasattr(chunksize, "__iter__"):
            return [self._run(fn, a) for a in zip(it, chunksize, *more)]
        return [self._run(fn, (x,)) for x in it]

    def imap(self, fn, it, chunksize=1):
        return iter(self.map(fn, it))

    def imap_unordered(self, fn, it, chunksize=1):
        res = self.map(fn, it)
        ex = engine.cur()
        out = []
        while res:
            j = int(ex.int(f"pool{self.id}_done{len(out)}", 0, len(res) - 1)) if len(res) > 1 else 0
            out.append(res.pop(j))
        return iter(out)

    def starmap(self, fn, it, chunksize=None):
        return [self._run(fn, tuple(x)) for x in it]

    def apply(self, fn, args=(), kwds=None):
        return self._run(fn, args, kwds)

    def apply_async(self, fn, args=(), kwds=None, callback=None, error_callback=None):
        r = Result(lambda: self._run(fn, args, kwds))
        if callback is not None and r.exc is None:
            callback(r.val)
        return r

    def submit(self, fn, *args, **kw):
        return Result(lambda: self._run(fn, args, kw))

    def map_async(self, fn, it, chunksize=None, callback=None, error_callback=None):
        return Result(lambda: self.map(fn, list(it)))

    def starmap_async(self, fn, it, chunksize=None, callback=None, error_callback=None):
        return Result(lambda: self.starmap(fn, list(it)))

    def close(self):
        self.closed = True

    terminate = close

    def shutdown(self, *a, **k):
        self.closed = True

    def join(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True
        return False


class _Mp(types.ModuleType):
    def __getattr__(self, n):
        if n in ("Pool", "RawArray", "Array"):
            return globals()[n]
        if n in ("get_context",):
            return lambda *a: self
        if n in ("cpu_count",):
            return lambda: 2
        if n == "set_start_method":
            return lambda *a, **k: None
        if n == "current_process":
            return lambda: types.SimpleNamespace(name="MainProcess", pid=1)
        if n == "pool":
            return self
        raise Unsupported("multiprocessing." + n)


class _Cf(types.ModuleType):
    def __getattr__(self, n):
        if n == "ProcessPoolExecutor":
            return Executor
        raise Unsupported("concurrent.futures." + n)


class Executor(Pool):
    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), **k):
        Pool.__init__(self, max_workers, initializer, initargs)

    def map(self, fn, *its, timeout=None, chunksize=1):
        return iter([self._run(fn, a) for a in zip(*its)])


def expm_multiply(A, B, *a, **k):
    from . import stubs_expm
    if a or k:
        raise Unsupported("expm_multiply on an interval")
    E = stubs_expm.expm(symnp.p_asarray(stubs_expm.dense_of(A)))
    return E @ B


def modules():
    m = _Mp("multiprocessing")
    return {"multiprocessing": m, "multiprocessing.pool": m, "concurrent.futures": _Cf("concurrent.futures")}


def install(S):
    S["scipy.sparse.linalg.expm_multiply"] = expm_multiply
    S["frombuffer"] = frombuffer
