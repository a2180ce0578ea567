"""Run-time support for translated Cython code (C semantics on symbolic data)."""
from __future__ import annotations

import builtins as _b
import functools
import math

import numpy as _np

from .engine import R, SB, Unsupported
from . import engine as _engine
from . import symnp
from .symnp import NP as np, SymArray, is_sym, tosym, ZERO  # noqa: F401

TRACE_OOB = []


class MemoryError_(IndexError):
    """out-of-bounds access in compiled code that has no bounds checks"""


class UninitError(IndexError):
    pass


_INT = {"int": _np.int32, "long": _np.int64, "long long": _np.int64, "Py_ssize_t": _np.int64,
        "np.int32_t": _np.int32, "np.int64_t": _np.int64, "int32_t": _np.int32, "int64_t": _np.int64, "short": _np.int16,
        "size_t": _np.uint64, "np.intp_t": _np.int64, "np.npy_intp": _np.int64}


class MV:
    __sparse_model__ = False

    def __init__(self, arr):
        self.arr = arr
        self.shape = arr.shape

    @property
    def size(self):
        return self.arr.size

    @property
    def ndim(self):
        return self.arr.ndim

    @property
    def dtype(self):
        return self.arr.dtype

    def copy(self):
        return MV(self.arr.copy())

    @property
    def T(self):
        return MV(self.arr.T)

    @property
    def base(self):
        return self.arr

    def __len__(self):
        return self.arr.shape[0]

    def _ix(self, i, ax):
        if isinstance(i, R):
            i = int(i)
        i = i.__index__()
        n = self.shape[ax]
        if i < 0 or i >= n:
            raise MemoryError_(f"index {i} out of bounds for buffer of length {n}")
        return i

    def _key(self, k):
        if isinstance(k, tuple):
            out = []
            for ax, i in enumerate(k):
                out.append(self._sl(i, ax) if isinstance(i, slice) else self._ix(i, ax))
            return tuple(out), any(isinstance(i, slice) for i in out)
        if isinstance(k, slice):
            return self._sl(k, 0), True
        if k is Ellipsis:
            return k, True
        return self._ix(k, 0), self.arr.ndim > 1

    def _sl(self, s, ax):
        def f(x):
            return None if x is None else int(x)
        a, b, c = f(s.start), f(s.stop), f(s.step)
        n = self.shape[ax]
        # Cython clips slices; with wraparound off negatives are clipped too
        if a is not None and a < 0:
            a = max(a + n, 0)
        if b is not None and b < 0:
            b = max(b + n, 0)
        return slice(a, b, c)

    def __getitem__(self, k):
        key, sl = self._key(k)
        r = self.arr[key]
        if sl and isinstance(r, _np.ndarray):
            return MV(r)
        if isinstance(r, _np.integer):
            return int(r)
        return r

    def __setitem__(self, k, v):
        key, sl = self._key(k)
        if isinstance(v, MV):
            v = v.arr
            if isinstance(self.arr[key], _np.ndarray) and self.arr[key].shape != v.shape:
                raise ValueError("got differing extents in dimension 0")
            v = v.copy()
        elif isinstance(v, R) and not is_sym(self.arr):
            v = int(v)
        self.arr[key] = v

    def __iter__(self):
        for i in range(self.shape[0]):
            r = self.arr[i]
            yield MV(r) if isinstance(r, _np.ndarray) else (int(r) if isinstance(r, _np.integer) else r)

    def __array__(self, dtype=None, copy=None):
        return self.arr if dtype is None else _np.asarray(self.arr).astype(dtype)

    def __add__(self, o):
        raise TypeError("unsupported operand type(s) for +: '_memoryviewslice'")

    def tolist(self):
        return self.arr.tolist()

    @property
    def nbytes(self):
        return self.arr.nbytes


def _mv(x, d):
    kind, cname, ndim, contig = d
    if isinstance(x, MV):
        arr = x.arr
    elif x is None:
        raise TypeError("expected bytes, NoneType found")
    elif isinstance(x, _np.ndarray):
        arr = x
    elif isinstance(x, CvArray):
        arr = x.arr
    else:
        import array as _array
        if isinstance(x, (_array.array, memoryview)):
            arr = _np.frombuffer(x, dtype={"i": _np.int32, "l": _np.int64, "q": _np.int64, "d": _np.float64}[
                x.typecode if isinstance(x, _array.array) else x.format])
            if arr.dtype.kind == "f":
                arr = tosym(arr)
        else:
            raise TypeError(f"a bytes-like object is required, not {type(x).__name__!r}")
    if arr.ndim != ndim:
        raise ValueError(f"Buffer has wrong number of dimensions (expected {ndim}, got {arr.ndim})")
    if kind == "float":
        if not is_sym(arr):
            if arr.dtype != _np.float64:
                raise ValueError(f"Buffer dtype mismatch, expected 'double' but got {arr.dtype}")
            raise Unsupported("native float buffer aliased by a typed memoryview")
        if type(arr) is not SymArray:
            arr = arr.view(_np.ndarray).view(SymArray)
    elif kind in ("int", "bool"):
        want = _INT.get(cname)
        if want is None:
            raise Unsupported(f"memoryview of {cname}")
        if arr.dtype != want:
            raise ValueError(f"Buffer dtype mismatch, expected '{cname}' but got '{arr.dtype}'")
    if not arr.flags.writeable:
        raise ValueError("buffer source array is read-only")
    if contig and not arr.flags.c_contiguous:
        raise ValueError("ndarray is not C-contiguous")
    return MV(arr)


def _ci(x):
    if isinstance(x, (bool, _np.bool_, SB)):
        return int(bool(x))
    if isinstance(x, R):
        return int(x)
    if isinstance(x, (int, _np.integer)):
        return int(x)
    if isinstance(x, float):
        return int(x)
    if isinstance(x, _np.ndarray) and x.ndim == 0:
        return int(x)
    if hasattr(x, "__index__"):
        return x.__index__()
    raise TypeError(f"an integer is required, got {type(x).__name__}")


def _cf(x):
    if isinstance(x, R):
        return x
    if isinstance(x, (int, float, _np.number, _np.bool_, SB)):
        return R(x) if not isinstance(x, SB) else R(int(bool(x)))
    if isinstance(x, _np.ndarray) and x.size == 1:
        return _cf(x.reshape(-1)[0])
    raise TypeError(f"must be real number, not {type(x).__name__}")


def _cb(x):
    return bool(x)


def _div(a, b, cdiv):
    z = (b == 0)
    if bool(z):
        if not cdiv:
            raise ZeroDivisionError("float division")
        if isinstance(a, int) and isinstance(b, int):
            raise ZeroDivisionError
        return _cf(a) / _cf(b)
    return _cf(a) / _cf(b)


def _floor(a, b, cdiv):
    if isinstance(a, int) and isinstance(b, int):
        if b == 0:
            raise ZeroDivisionError
        if cdiv:
            q = abs(a) // abs(b)
            return q if (a >= 0) == (b >= 0) else -q
    return a // b


class CVec:
    def __init__(self, el, init=None):
        self.el = el
        self.l = []
        if init is not None:
            self.l = [self._c(x) for x in init]

    def _c(self, x):
        return _ci(x) if self.el == "int" else _cf(x) if self.el == "float" else x

    def push_back(self, x):
        self.l.append(self._c(x))

    emplace_back = push_back

    def size(self):
        return len(self.l)

    def empty(self):
        return not self.l

    def clear(self):
        self.l = []

    def resize(self, n, v=None):
        n = _ci(n)
        while len(self.l) < n:
            self.l.append((0 if self.el == "int" else ZERO) if v is None else self._c(v))
        del self.l[n:]

    def reserve(self, n):
        pass

    def assign(self, n, v):
        self.l = [self._c(v) for _ in range(_ci(n))]

    def back(self):
        return self.l[-1]

    def pop_back(self):
        self.l.pop()

    def begin(self):
        return It(self.l, 0)

    def end(self):
        return It(self.l, len(self.l))

    def at(self, i):
        return self[i]

    def __getitem__(self, i):
        i = _ci(i)
        if i < 0 or i >= len(self.l):
            raise MemoryError_(f"vector index {i} out of range {len(self.l)}")
        return self.l[i]

    def __setitem__(self, i, v):
        i = _ci(i)
        if i < 0 or i >= len(self.l):
            raise MemoryError_(f"vector index {i} out of range {len(self.l)}")
        self.l[i] = self._c(v)

    def __iter__(self):
        return iter(list(self.l))

    def __len__(self):
        return len(self.l)


class It:
    def __init__(self, l, i):
        self.l = l
        self.i = i

    def __eq__(self, o):
        return self.i == o.i

    def __ne__(self, o):
        return self.i != o.i

    def __add__(self, n):
        return It(self.l, self.i + n)


class CSet:
    def __init__(self, init=None):
        self.s = set()
        if init is not None:
            for x in init:
                self.insert(x)

    def insert(self, x):
        self.s.add(_ci(x))

    def erase(self, x):
        self.s.discard(_ci(x))

    def count(self, x):
        return 1 if _ci(x) in self.s else 0

    def size(self):
        return len(self.s)

    def empty(self):
        return not self.s

    def clear(self):
        self.s = set()

    def begin(self):
        return It(sorted(self.s), 0)

    def end(self):
        return It(sorted(self.s), len(self.s))

    def __iter__(self):
        return iter(sorted(self.s))

    def __len__(self):
        return len(self.s)

    def __contains__(self, x):
        return _ci(x) in self.s


class CMap:
    def __init__(self, vt, init=None):
        self.d = dict(init) if init is not None else {}
        self.vt = vt

    def __getitem__(self, k):
        k = _ci(k)
        if k not in self.d:
            self.d[k] = 0 if self.vt == "int" else ZERO
        return self.d[k]

    def __setitem__(self, k, v):
        self.d[_ci(k)] = _ci(v) if self.vt == "int" else v

    def count(self, k):
        return 1 if _ci(k) in self.d else 0

    def size(self):
        return len(self.d)


def _new(d, init=None):
    name, args = d
    if isinstance(init, CVec):
        init = init.l
    elif isinstance(init, CSet):
        init = init.s
    elif isinstance(init, CMap):
        init = init.d
    if name == "vector":
        return CVec(args[0][0], init)
    if name in ("set", "unordered_set"):
        return CSet(init)
    if name in ("map", "unordered_map"):
        return CMap(args[1][0], init)
    raise Unsupported(f"C++ template {name}")


def _ret(x):
    if isinstance(x, CVec):
        return [float_out(v) for v in x.l]
    if isinstance(x, CSet):
        return set(x.s)
    if isinstance(x, CMap):
        return dict(x.d)
    if isinstance(x, tuple):
        return tuple(_ret(v) for v in x)
    return x


def float_out(v):
    return v


def cydef(f):
    @functools.wraps(f)
    def w(*a, **k):
        return _ret(f(*a, **k))
    return w


class _Ptr:
    def __init__(self, mv, i):
        self.mv, self.i = mv, i

    def __add__(self, n):
        return _Ptr(self.mv, self.i + n)


def _ptr(mv, i):
    return _Ptr(mv, i)


def sort(a, b):
    if isinstance(a, _Ptr):
        arr = a.mv.arr
        arr[a.i:b.i] = _np.sort(arr[a.i:b.i])
    else:
        a.l[a.i:b.i] = sorted(a.l[a.i:b.i])


def dereference(it):
    if it.i >= len(it.l):
        raise MemoryError_("dereference of end()")
    return it.l[it.i]


def preincrement(it):
    it.i += 1
    return it


deref, inc = dereference, preincrement


class CvArray:
    def __init__(self, shape, itemsize=8, format="d", **k):
        self.arr = np.empty(shape, dtype=_np.float64) if format == "d" else _np.zeros(shape, dtype=_np.int32)


cvarray = CvArray


def _prange(*a, **k):
    return range(*[_ci(x) for x in a])


prange = _prange


class cython:
    @staticmethod
    def boundscheck(x):
        return lambda f: f
    wraparound = cdivision = nonecheck = initializedcheck = boundscheck


def C_log2(x):
    return _cf(x).log2()


def C_log(x):
    return _cf(x).log()


def C_exp(x):
    return _cf(x).exp()


def C_sqrt(x):
    return _cf(x).sqrt()


def C_fabs(x):
    return abs(_cf(x))


def C_pow(x, y):
    return _cf(x) ** y


def C_fmax(a, b):
    a, b = _cf(a), _cf(b)
    return a if a >= b else b


def C_fmin(a, b):
    a, b = _cf(a), _cf(b)
    return a if a <= b else b


C_isnan = symnp._isnan
_SPA = None
_idx_noneg = None
