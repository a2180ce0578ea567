"""Loads the repository's current sources into the symbolic process."""
from __future__ import annotations

import builtins
import importlib
import math as _math
import os
import sys
import types

import numpy as np

from . import cyrt, cytrans, engine, symnp, symsparse
from .rescale import rescale
from .engine import R, SB, Unsupported

SRC = os.environ.get("FSV_SRC", "/repo/src")
PKG = os.path.join(SRC, "flowstab")

STUB_MODULES = {}      # name -> module, importable from analysed code
HAVE = {"cython": True, "sparse_dot_mkl": True}
ENCODED = set()        # functions translated/loaded


class _FM(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float) or (isinstance(x, R) and x.kind == "f")

    def __subclasscheck__(cls, c):
        return issubclass(c, float) or c is R

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)


class symfloat(float, metaclass=_FM):
    __symfloat__ = True

    def __new__(cls, x=0.0):
        if isinstance(x, R):
            return R(x.e, "f")
        if isinstance(x, SB):
            return R(int(bool(x)))
        if isinstance(x, Text):
            return R(x.num)
        if isinstance(x, np.ndarray) and symnp.is_sym(x):
            if x.size != 1:
                raise TypeError("only length-1 arrays can be converted to Python scalars")
            return x.reshape(-1)[0]
        return float(x)


symfloat.__name__ = "float"


class Text(str):
    """the decimal text of a symbolic number: only float() reads it back"""
    num = None

    @classmethod
    def of(cls, x):
        t = cls("0.0")
        t.num = x
        return t


def sym_isinstance(x, t):
    if isinstance(x, R):
        ts = t if isinstance(t, tuple) else (t,)
        for tt in ts:
            if isinstance(tt, tuple):
                if sym_isinstance(x, tt):
                    return True
            elif isinstance(tt, types.UnionType):
                if any(sym_isinstance(x, a) for a in tt.__args__):
                    return True
            elif tt in (float, symfloat, np.floating, np.number, np.float64) and x.kind == "f":
                return True
            elif tt in (int, np.integer, np.number, np.int64) and x.kind == "i":
                return True
            elif tt is R or tt is object:
                return True
            else:
                import numbers
                if tt in (numbers.Number, numbers.Real):
                    return True
        return False
    return builtins.isinstance(x, t)


def sym_round(x, nd=None):
    return round(x, nd) if nd is not None else round(x)


def sym_print(*a, **k):
    pass


class _Math(types.ModuleType):
    def __getattr__(self, n):
        f = getattr(_math, n)
        if not callable(f):
            return f
        spec = {"sqrt": lambda x: R(x).sqrt(), "log": lambda x, *b: (R(x).log() if not b else R(x).log() / R(b[0]).log()),
                "log2": lambda x: R(x).log2(), "exp": lambda x: R(x).exp(), "fabs": abs,
                "isclose": lambda a, b, rel_tol=1e-9, abs_tol=0.0: bool(abs(R(a) - R(b)) <= rel_tol * max(abs(R(a)), abs(R(b))) or abs(R(a) - R(b)) <= abs_tol),
                "isnan": symnp._isnan, "isinf": symnp._isinf, "isfinite": symnp._isfin,
                "floor": lambda x: x.__floor__(), "ceil": lambda x: x.__ceil__()}

        def w(*a, **k):
            if any(isinstance(x, R) for x in a):
                if n in spec:
                    return spec[n](*a, **k)
                if n == "fsum":
                    return sum(a[0])
                raise Unsupported(f"math.{n}")
            if n == "fsum":
                return sum(a[0])
            return f(*a, **k)
        return w


class _Linalg(types.ModuleType):
    def __getattr__(self, n):
        def f(*a, **k):
            st = symnp.STUBS.get(self.__name__ + "." + n)
            if st is None:
                raise Unsupported(f"{self.__name__}.{n}")
            return st(*a, **k)
        f.__name__ = n
        return f


class _Expon:
    @staticmethod
    def rvs(loc=0, scale=1, size=None, random_state=None):
        f = symnp.STUBS.get("scipy.stats.expon.rvs")
        if f is None or size is not None:
            raise Unsupported("scipy.stats.expon.rvs")
        return f(loc, scale)


class _Stats(types.ModuleType):
    def __getattr__(self, n):
        if n == "expon":
            return _Expon
        raise Unsupported("scipy.stats." + n)


class _Csgraph(types.ModuleType):
    def __getattr__(self, n):
        if n == "connected_components":
            return connected_components
        raise Unsupported("csgraph." + n)


def connected_components(csgraph, directed=True, connection="weak", return_labels=True):
    """scipy semantics; a stored entry counts as an edge (zeros removed)."""
    from scipy.sparse import issparse
    from scipy.sparse.csgraph import connected_components as cc
    from scipy.sparse import csr_matrix
    if issparse(csgraph):
        g = csgraph.tocoo()
        n = g.shape[0]
        r, c = g.row, g.col
        # scipy validates the graph: explicit zeros are kept as edges in CSR input
        m = np.ones(len(r))
    else:
        a = symnp.p_asarray(csgraph)
        n = a.shape[0]
        r, c = a.nonzero()
        m = np.ones(len(r))
    if len(r) == 0:
        lab = np.arange(n, dtype=np.int32)
        return (n, lab) if return_labels else n
    # canonical labels through the native implementation on a real matrix
    import scipy.sparse._coo  # noqa: F401
    G = np.zeros((n, n))
    G[np.asarray(r, dtype=int), np.asarray(c, dtype=int)] = 1
    # native union-find written out: labels in order of first appearance like scipy's weak/strong
    comp = _native_cc(G, directed, connection)
    return (comp[0], comp[1]) if return_labels else comp[0]


def _native_cc(G, directed, connection):
    n = G.shape[0]
    if directed and connection == "strong":
        reach = (G != 0) | np.eye(n, dtype=bool)
        for k in range(n):
            reach |= np.outer(reach[:, k], reach[k, :])
        same = reach & reach.T
    else:
        reach = (G != 0) | (G.T != 0) | np.eye(n, dtype=bool)
        for k in range(n):
            reach |= np.outer(reach[:, k], reach[k, :])
        same = reach
    lab = -np.ones(n, dtype=np.int32)
    c = 0
    for i in range(n):
        if lab[i] < 0:
            lab[same[i]] = c
            c += 1
    return c, lab


class _Mkl(types.ModuleType):
    pass


def _mkl_dot(A, B, *a, copy=True, dense=False, reorder_output=False, **k):
    return A @ B


def _mkl_gram(A, transpose=False, cast=False, dense=False, reorder_output=False, **k):
    """upper triangle of A.T@A (or A@A.T), as MKL's syrk returns it"""
    from scipy.sparse import triu, csr_matrix
    G = (A @ A.T) if transpose else (A.T @ A)
    if not hasattr(G, "tocsr"):
        G = G.copy()
        for i in range(G.shape[0]):
            for j in range(i):
                G[i, j] = 0.0
        return G
    return triu(G.tocsr(), format="csr")


def _mkmkl():
    m = types.ModuleType("sparse_dot_mkl")
    m.dot_product_mkl = _mkl_dot
    m.gram_matrix_mkl = _mkl_gram
    mi = types.ModuleType("sparse_dot_mkl._mkl_interface")

    class MKL:
        MKL_INT_NUMPY = np.int32
    mi.MKL = MKL
    m._mkl_interface = mi
    return m, mi


class _ImpUtil(types.ModuleType):
    def __getattr__(self, n):
        if n == "find_spec":
            def find_spec(name, *a):
                if name in HAVE:
                    return object() if HAVE[name] else None
                return importlib.util.find_spec(name, *a)
            return find_spec
        return getattr(importlib.util, n)


class _Importlib(types.ModuleType):
    util = _ImpUtil("importlib.util")

    def __getattr__(self, n):
        return getattr(importlib, n)


class _Time(types.ModuleType):
    @staticmethod
    def time():
        return 0.0

    @staticmethod
    def sleep(*a):
        return None

    perf_counter = monotonic = process_time = time

    def __getattr__(self, n):
        import time
        return getattr(time, n)


class _Traceback(types.ModuleType):
    @staticmethod
    def print_exc(*a, **k):
        if os.environ.get("FSV_TB"):
            import traceback
            traceback.print_exc()

    def __getattr__(self, n):
        import traceback
        return getattr(traceback, n)


class _Os(types.ModuleType):
    """os with urandom arbitrary (the value only seeds random generators)."""
    def __getattr__(self, n):
        if n == "urandom":
            return urandom
        return getattr(os, n)


def urandom(k):
    """different on every call"""
    ex = engine.cur()
    ex.urandom_count = getattr(ex, "urandom_count", 0) + 1
    return ex.urandom_count.to_bytes(k, "big")


class _Pandas(types.ModuleType):
    """pandas itself runs on columns of symbolic numbers (object dtype); only the
    conversion to a machine type is skipped for such columns"""
    def __getattr__(self, n):
        import pandas
        if n == "to_numeric":
            def to_numeric(x, *a, **k):
                v = x.values if hasattr(x, "values") else x
                if getattr(v, "dtype", None) == object and any(isinstance(y, R) for y in v):
                    return x
                return pandas.to_numeric(x, *a, **k)
            return to_numeric
        return getattr(pandas, n)


def setup_stubs():
    S = STUB_MODULES
    S["pandas"] = _Pandas("pandas")
    S["numpy"] = symnp.NP
    S["numpy.linalg"] = symnp.NP.linalg
    S["math"] = _Math("math")
    S["scipy.sparse._sparsetools"] = symsparse.WRAPPED["__module__"]
    S["scipy.sparse.linalg"] = _Linalg("scipy.sparse.linalg")
    S["scipy.linalg"] = _Linalg("scipy.linalg")
    S["scipy.optimize"] = _Linalg("scipy.optimize")
    S["scipy.stats"] = _Stats("scipy.stats")
    S["scipy.sparse.csgraph"] = _Csgraph("scipy.sparse.csgraph")
    S["sparse_dot_mkl"], S["sparse_dot_mkl._mkl_interface"] = _mkmkl()
    S["importlib"] = _Importlib("importlib")
    S["importlib.util"] = _Importlib.util
    S["time"] = _Time("time")
    S["os"] = _Os("os")
    S["traceback"] = _Traceback("traceback")
    from . import stubs_mp
    S.update(stubs_mp.modules())


def sym_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level:
        pkg = (globals or {}).get("__package__") or "flowstab"
        base = pkg.split(".")
        if level > 1:
            base = base[: -(level - 1)]
        full = ".".join(base + ([name] if name else []))
        if fromlist:
            m = load(full)
            for f in fromlist:
                if not hasattr(m, f) and os.path.exists(os.path.join(SRC, *full.split("."), f + ".py")):
                    setattr(m, f, load(full + "." + f))
            return m
        return load(full)
    if name == "flowstab" or name.startswith("flowstab."):
        m = load(name)
        return m if fromlist else load("flowstab")
    if name in ("_cython_fast_funcs", "_cython_sparse_stoch"):
        return load_cy(name)
    if name in STUB_MODULES:
        m = STUB_MODULES[name]
        if fromlist or "." not in name:
            return m
        top = name.split(".")[0]
        if top in STUB_MODULES:
            return STUB_MODULES[top]
        return builtins.__import__(top)
    m = builtins.__import__(name, globals, locals, fromlist, 0)
    if fromlist:
        # from scipy.sparse import linalg  etc.
        sub = [f for f in fromlist if name + "." + f in STUB_MODULES]
        if sub:
            pm = types.ModuleType(name)
            pm.__dict__.update(m.__dict__)
            for f in sub:
                setattr(pm, f, STUB_MODULES[name + "." + f])
            pm.__path__ = []
            return pm
    return m


BUILTINS = dict(vars(builtins))
BUILTINS.update(__import__=sym_import, isinstance=sym_isinstance, float=symfloat, print=sym_print)

LOADED = {}
CY_ERRORS = {}


def load_cy(name):
    if name in LOADED:
        return LOADED[name]
    code, fns = cytrans.translate_file(os.path.join(PKG, name + ".pyx"), name)
    if "SPA" in code:
        c = cytrans.Cpp(PKG)
        code2 = c.translate()
        fns = fns + c.functions
        code = code.replace("\n", "\n", 1)
        head, rest = code.split("\n", 2)[:2], code.split("\n", 2)[2]
        code = "\n".join(head) + "\n" + code2 + rest
    m = types.ModuleType(name)
    m.__dict__["__builtins__"] = dict(BUILTINS)
    m.__file__ = os.path.join(PKG, name + ".pyx")
    exec(compile(code, f"<translated {name}.pyx>", "exec"), m.__dict__)
    for f in fns:
        ENCODED.add(f"{name}.pyx:{f}")
    LOADED[name] = m
    m.__translated__ = code
    return m


def load(full):
    if full in LOADED:
        return LOADED[full]
    parts = full.split(".")
    p = os.path.join(SRC, *parts)
    ispkg = os.path.isdir(p)
    path = os.path.join(p, "__init__.py") if ispkg else p + ".py"
    if len(parts) > 1:
        load(".".join(parts[:-1]))
    m = types.ModuleType(full)
    m.__file__ = path
    m.__package__ = full if ispkg else ".".join(parts[:-1])
    if ispkg:
        m.__path__ = [p]
    m.__dict__["__builtins__"] = BUILTINS
    LOADED[full] = m
    sys.modules[full] = m
    import scipy.sparse as sp
    old_lil = sp.lil_matrix
    if parts[-1] == "synth_temp_network":
        sp.lil_matrix = symsparse.make_lil(old_lil)
    try:
        src = open(path).read()
        if full == "flowstab":
            # the package body only re-exports; load lazily to keep unrelated
            # modules out of a check's trusted base
            pass
        else:
            c = CONSTS.get(parts[-1])
            exec(rescale(src, path, c) if c else compile(src, path, "exec"), m.__dict__)
    except BaseException:
        del LOADED[full]
        sys.modules.pop(full, None)
        raise
    finally:
        sp.lil_matrix = old_lil
    if len(parts) > 1:
        setattr(LOADED[".".join(parts[:-1])], parts[-1], m)
    return m


VARIANTS = {}
CONSTS = {}     # module -> {old: new}: integer constants read as another value


def load_variant(full, without=(), consts=()):
    """the module as it is when optional packages are not installed, with size thresholds scaled down"""
    key = (tuple(sorted(without)), tuple(consts))
    mine = VARIANTS.setdefault(key, {})
    keep, have = dict(LOADED), dict(HAVE)
    mods = {k: sys.modules.get(k) for k in list(sys.modules) if k == "flowstab" or k.startswith("flowstab.")}
    LOADED.clear()
    LOADED.update(mine)
    for w in without:
        HAVE[w] = False
    for m, old, new in consts:
        CONSTS.setdefault(m, {})[old] = new
    try:
        return load(full)
    finally:
        mine.clear()
        mine.update(LOADED)
        LOADED.clear()
        LOADED.update(keep)
        HAVE.clear()
        HAVE.update(have)
        CONSTS.clear()
        for k in list(sys.modules):
            if k == "flowstab" or k.startswith("flowstab."):
                sys.modules.pop(k)
        sys.modules.update({k: v for k, v in mods.items() if v is not None})


def reset_modules():
    VARIANTS.clear()
    for k in list(LOADED):
        sys.modules.pop(k, None)
    LOADED.clear()


def init():
    symsparse.install()
    setup_stubs()
