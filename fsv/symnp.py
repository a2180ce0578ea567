"""numpy over symbolic reals: object arrays that present themselves as float64,
and a proxy module standing in for ``numpy`` in the code under analysis."""
from __future__ import annotations

import types
import numpy as np
import z3

from . import engine
from .engine import R, SB, Unsupported, is_num

F64 = np.dtype(np.float64)
OBJ = np.dtype(object)


def is_sym(a):
    return isinstance(a, _SymMix)


def _base(a):
    if isinstance(a, _SymMix):
        return a.view(np.ndarray)
    return a


def _truedt(a):
    return np.ndarray.dtype.__get__(a)


def floatish(dt):
    if dt is None:
        return False
    if getattr(dt, "__symfloat__", False):
        return True
    try:
        dt = np.dtype(dt)
    except TypeError:
        return dt is float or getattr(dt, "__symfloat__", False)
    return dt.kind == "f"


def _wrap_el(x):
    if isinstance(x, R):
        return x
    if isinstance(x, SB):
        return R(int(bool(x)))
    if is_num(x):
        return R(float(x) if isinstance(x, np.floating) else (int(x) if isinstance(x, (np.integer, np.bool_, bool)) else x))
    if x is None:
        return R(float("nan"))
    if isinstance(x, str):
        return R(float(x))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return _wrap_el(x.item())
    raise TypeError(f"float() argument must be a string or a real number, not {type(x).__name__!r}")


def tosym(a, cls=None):
    """ndarray/list -> SymArray of R"""
    if isinstance(a, _SymMix):
        return a
    if isinstance(a, R):
        o = np.empty((), dtype=object)
        o[()] = a
        return o.view(SymArray)
    arr = a if isinstance(a, np.ndarray) else np.array(a, dtype=object)
    out = np.empty(arr.shape, dtype=object)
    fo = out.reshape(-1) if out.ndim else None
    if fo is None:
        out[()] = _wrap_el(arr[()])
    else:
        fl = np.asarray(arr).reshape(-1)
        for i in range(fl.size):
            fo[i] = _wrap_el(fl[i])
    if cls is None:
        cls = SymMatrix if isinstance(a, np.matrix) else SymArray
    return out.view(cls)


def mk(x):
    return tosym(x)


def maybe(res):
    """wrap object ndarrays of numbers"""
    if isinstance(res, np.ndarray) and not isinstance(res, _SymMix) and _truedt(res) == OBJ:
        fl = np.asarray(res).reshape(-1)
        if any(isinstance(v, R) for v in fl) and all(is_num(v) or isinstance(v, SB) for v in fl):
            return tosym(res)
        return res
    if isinstance(res, tuple) and type(res) is tuple:
        return tuple(maybe(r) for r in res)
    if isinstance(res, list):
        return [maybe(r) for r in res]
    return res


def scalar_array_op(r, arr, op, swap):
    fn = {"+": np.add, "-": np.subtract, "*": np.multiply, "/": np.true_divide,
          "//": np.floor_divide, "%": np.remainder,
          "<": np.less, "<=": np.less_equal, ">": np.greater, ">=": np.greater_equal,
          "==": np.equal, "!=": np.not_equal}[op]
    o = np.empty((), dtype=object)
    o[()] = r
    cls = type(arr) if isinstance(arr, _SymMix) else (SymMatrix if isinstance(arr, np.matrix) else SymArray)
    b = np.asarray(_base(arr))
    if b.dtype == OBJ:
        fl = b.reshape(-1)
        if not all(is_num(v) or isinstance(v, SB) for v in fl):
            raise TypeError("unsupported operand")
    else:
        b = b.astype(object)
    res = fn(b, o) if swap else fn(o, b)
    if isinstance(res, np.ndarray):
        if res.dtype == OBJ:
            res = res.view(cls)
        return res
    return res


def _isfin(x):
    if isinstance(x, R):
        return x.finite
    return bool(np.isfinite(x))


def _isnan(x):
    if isinstance(x, R):
        return isinstance(x.e, float) and x.e != x.e
    return x != x


def _isinf(x):
    if isinstance(x, R):
        return isinstance(x.e, float) and x.e == x.e
    return bool(np.isinf(x))


def _elmap(fn, a, dt=bool):
    b = np.asarray(_base(a))
    out = np.empty(b.shape, dtype=dt)
    if b.ndim == 0:
        return fn(b.item()) if dt is bool else fn(b.item())
    f = out.reshape(-1)
    for i, v in enumerate(b.reshape(-1)):
        f[i] = fn(v)
    return out


def _sign(x):
    if not isinstance(x, R):
        return np.sign(x)
    if x > 0:
        return R(1)
    if x < 0:
        return R(-1)
    return R(0)


_SPECIAL = {
    "isfinite": lambda a: _elmap(_isfin, a),
    "isnan": lambda a: _elmap(_isnan, a),
    "isinf": lambda a: _elmap(_isinf, a),
    "signbit": lambda a: _elmap(lambda x: bool(x < 0), a),
    "sign": lambda a: mk(_elmap(_sign, a, object)),
    "rint": lambda a: mk(_elmap(lambda x: R(round(x)), a, object)),
}


class _SymMix:
    @property
    def dtype(self):
        return F64

    @dtype.setter
    def dtype(self, v):
        pass

    @property
    def itemsize(self):
        return 8

    @property
    def nbytes(self):
        return 8 * self.size

    def astype(self, dtype, order="K", casting="unsafe", subok=True, copy=True):
        if floatish(dtype):
            return self.copy() if copy else self
        dt = np.dtype(dtype)
        if dt.kind in "iu":
            return _elmap(lambda x: int(x), self, dt)
        if dt.kind == "b":
            return _elmap(lambda x: bool(x != 0), self, dt)
        if dt == OBJ:
            return self.copy() if copy else self
        if dt.kind == "c":
            return self.copy() if copy else self
        raise Unsupported(f"astype({dtype})")

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        kw.pop("dtype", None)
        nm = ufunc.__name__
        cls = None
        for x in inputs:
            if isinstance(x, SymMatrix):
                cls = SymMatrix
        if cls is None:
            for x in inputs:
                if isinstance(x, np.matrix):
                    cls = SymMatrix
        if cls is None:
            cls = SymArray
        ins = []
        for pos, x in enumerate(inputs):
            if method in ("reduceat", "at") and pos == 1:
                ins.append(x)
            elif isinstance(x, _SymMix):
                ins.append(x.view(np.ndarray))
            elif isinstance(x, np.ndarray):
                ins.append(np.asarray(x).astype(object))
            elif isinstance(x, R):
                o = np.empty((), dtype=object)
                o[()] = x
                ins.append(o)
            elif isinstance(x, (list, tuple)):
                a = np.array(x, dtype=object)
                ins.append(a)
            elif is_num(x) or isinstance(x, SB):
                ins.append(x)
            elif hasattr(type(x), "__array_priority__") or hasattr(type(x), "__array__") or method != "__call__":
                if method in ("__call__",) and not hasattr(type(x), "__array__"):
                    return NotImplemented
                ins.append(x)
            else:
                return NotImplemented
        if method == "__call__" and nm in _SPECIAL and out is None:
            return _SPECIAL[nm](ins[0])
        okw = {}
        outs = None
        if out is not None:
            outs = out if isinstance(out, tuple) else (out,)
            okw["out"] = tuple(_base(o) for o in outs)
        if nm == "matmul" and method == "__call__":
            ins = [np.asarray(i, dtype=object) for i in ins]
        if method == "reduce" and nm in ("logical_and", "logical_or", "bitwise_or", "bitwise_and"):
            ins = [_elmap(lambda x: bool(x != 0), ins[0])] + ins[1:]
        if method == "__call__" and nm in ("logical_and", "logical_or", "logical_not", "logical_xor"):
            ins = [_elmap(lambda x: bool(x != 0), i) if isinstance(i, np.ndarray) and i.dtype == OBJ else i for i in ins]
        res = getattr(ufunc, method)(*ins, **kw, **okw)
        if outs is not None:
            if len(outs) == 1:
                return outs[0]
            return outs
        def w(r):
            if isinstance(r, np.ndarray):
                if r.dtype == OBJ:
                    if r.ndim == 0:
                        return r.item()
                    return r.view(cls) if not (cls is SymMatrix and r.ndim != 2) else r.view(SymArray)
                return r
            return r
        if isinstance(res, tuple):
            return tuple(w(r) for r in res)
        return w(res)

    def view(self, t=None, *a):
        if t is np.matrix:
            t = SymMatrix
        if t is None:
            return np.ndarray.view(self)
        if isinstance(t, type) and issubclass(t, np.ndarray):
            return np.ndarray.view(self, t)
        if floatish(t):
            return self
        raise Unsupported(f"view({t})")

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        b = self.view(np.ndarray)
        r = np.add.reduce(b, axis=axis if axis is not None else tuple(range(b.ndim)), keepdims=keepdims)
        if isinstance(r, np.ndarray):
            r = r.view(SymArray)
        elif not isinstance(r, R):
            r = R(r)
        if out is not None:
            out[...] = r
            return out
        return r

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        b = self.view(np.ndarray)
        r = np.multiply.reduce(b, axis=axis, keepdims=keepdims)
        return r.view(SymArray) if isinstance(r, np.ndarray) else r

    def mean(self, axis=None, dtype=None, out=None, keepdims=False):
        n = self.size if axis is None else self.shape[axis]
        s = self.sum(axis=axis)
        if n == 0:
            return R(float("nan"))
        return s / n

    def var(self, axis=None, **k):
        if axis is not None:
            raise Unsupported("var axis")
        m = self.mean()
        d = self - m
        return (d * d).mean()

    def std(self, axis=None, **k):
        return self.var(axis).sqrt()

    def _lazy(self, less):
        """smallest (largest) entry as one term, without a case distinction; None when not asked for"""
        ex = engine.cur()
        if not getattr(ex, "lazy_minmax", False) or not self.size:
            return None
        xs = [R(x) for x in self.reshape(-1).view(np.ndarray)]
        if any(isinstance(x.e, float) for x in xs):
            return None
        m = xs[0]
        for x in xs[1:]:
            c = (x < m) if less else (x > m)
            if isinstance(c, SB):
                b = ex.bounds.decide(c.e)
                if b is None:
                    m = R(z3.If(c.e, engine.ze(x), engine.ze(m)), m.kind)
                    continue
                c = b
            m = x if c else m
        return m

    def min(self, axis=None, **k):
        if axis is None:
            m = self._lazy(True)
            if m is not None:
                return m
        return np.minimum.reduce(self, axis=axis) if axis is not None else np.minimum.reduce(self.ravel())

    def max(self, axis=None, **k):
        if axis is None:
            m = self._lazy(False)
            if m is not None:
                return m
        return np.maximum.reduce(self, axis=axis) if axis is not None else np.maximum.reduce(self.ravel())

    def any(self, axis=None, **k):
        return _elmap(lambda x: bool(x != 0), self).any(axis=axis)

    def all(self, axis=None, **k):
        return _elmap(lambda x: bool(x != 0), self).all(axis=axis)

    def nonzero(self):
        m = _elmap(lambda x: bool(x != 0), self)
        return np.nonzero(m)

    def round(self, decimals=0, out=None):
        raise Unsupported("round")

    def __float__(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return self.reshape(-1).view(np.ndarray)[0].__float__()

    def __int__(self):
        return self.reshape(-1).view(np.ndarray)[0].__int__()

    def __bool__(self):
        if self.size == 1:
            return bool(self.reshape(-1).view(np.ndarray)[0] != 0)
        if self.size == 0:
            return False
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def tolist(self):
        return np.ndarray.tolist(self)

    def __repr__(self):
        return "Sym" + repr(self.view(np.ndarray))

    def __setitem__(self, k, v):
        if isinstance(v, np.ndarray) and not isinstance(v, _SymMix):
            v = tosym(v)
        elif isinstance(v, (list, tuple)):
            v = tosym(v)
        elif not isinstance(v, np.ndarray):
            v = _wrap_el(v)
        if isinstance(k, R):
            k = k.__index__()
        np.ndarray.__setitem__(self, k, v)

    def fill(self, v):
        self[...] = v

    def tofile(self, *a):
        raise Unsupported("tofile")


class SymArray(_SymMix, np.ndarray):
    __array_priority__ = 0.5

    def __getitem__(self, k):
        if isinstance(k, R):
            k = k.__index__()
        r = np.ndarray.__getitem__(self, k)
        return r


class SymMatrix(_SymMix, np.matrix):
    __array_priority__ = 10.05

    def __array_finalize__(self, obj):
        # np.matrix's logic, without the 1-d promotion surprises
        self._getitem = False
        if isinstance(obj, np.matrix) and getattr(obj, "_getitem", False):
            return
        ndim = self.ndim
        if ndim == 2:
            return
        if ndim < 2:
            newshape = (1, self.shape[0]) if ndim == 1 else (1, 1)
            self.shape = newshape

    def __getitem__(self, k):
        b = np.asmatrix(self.view(np.ndarray))[k]
        if isinstance(b, np.ndarray):
            return b.view(SymMatrix)
        return b

    def __mul__(self, o):
        if isinstance(o, (np.ndarray, list, tuple)):
            return np.matmul(self.A, _base(np.asarray(o))).view(np.ndarray).view(SymMatrix)
        return np.multiply(self, o)

    def __rmul__(self, o):
        if isinstance(o, np.ndarray):
            return tosym(np.asarray(o)).__matmul__(self.A).view(SymMatrix)
        return np.multiply(o, self)

    @property
    def A(self):
        return self.view(np.ndarray).view(SymArray)

    @property
    def A1(self):
        return self.view(np.ndarray).reshape(-1).view(SymArray)

    def sum(self, axis=None, dtype=None, out=None):
        if axis == ():
            return self.copy()
        r = np.add.reduce(self.A, axis=axis) if axis is not None else np.add.reduce(self.A1)
        if axis is None:
            return r
        if axis in (1, -1):
            return r.view(np.ndarray).reshape(-1, 1).view(SymMatrix)
        return r.view(np.ndarray).reshape(1, -1).view(SymMatrix)

    def flatten(self, order="C"):
        return self.view(np.ndarray).reshape(1, -1).copy().view(SymMatrix)

    ravel = flatten

    def getA(self):
        return self.A

    def getA1(self):
        return self.A1

    @property
    def T(self):
        return self.view(np.ndarray).T.view(SymMatrix)

    def tolist(self):
        return self.view(np.ndarray).tolist()

    def squeeze(self, axis=None):
        return self

    def __iter__(self):
        for i in range(self.shape[0]):
            yield self[i]


# --------------------------------------------------------------------------
# the proxy module

def _sy(x):
    """float ndarray -> SymArray (exact constants)"""
    if isinstance(x, np.ndarray) and not isinstance(x, _SymMix) and x.dtype.kind == "f":
        return tosym(x)
    if isinstance(x, np.ndarray) and _truedt(x) == OBJ:
        return maybe(x)
    return x


def p_array(obj, dtype=None, *, copy=True, order="K", subok=False, ndmin=0, like=None):
    if isinstance(obj, R):
        obj = tosym(obj)
    if type(obj).__name__ == "MV":
        obj = obj.arr
    if dtype is not None and getattr(dtype, "__symfloat__", False):
        dtype = np.float64
    if dtype is not None:
        dt = np.dtype(dtype)
        if dt.kind == "f":
            if isinstance(obj, _SymMix):
                if subok:
                    r = obj
                else:
                    r = obj.view(np.ndarray).view(SymArray)
                r = r.copy() if copy else r
            else:
                if hasattr(obj, "__array__") and not isinstance(obj, np.ndarray):
                    obj = obj.__array__()
                if not isinstance(obj, (np.ndarray, list, tuple)) and not is_num(obj):
                    if hasattr(obj, "__len__") or hasattr(obj, "__iter__"):
                        if isinstance(obj, (set, frozenset, types.GeneratorType, dict)):
                            raise TypeError("float() argument must be a string or a real number, not 'set'")
                        obj = list(obj)
                r = tosym(obj, SymArray)
            if r.ndim < ndmin:
                r = np.array(r.view(np.ndarray), ndmin=ndmin, copy=False if False else None).view(SymArray)
            return r
        if isinstance(obj, _SymMix):
            return obj.astype(dt)
        if dt.kind in "iub":
            o = np.array(obj, dtype=object) if _has_sym(obj) else None
            if o is not None:
                return _elmap(lambda x: int(x) if dt.kind != "b" else bool(x), o, dt)
        kw = {}
        return np.array(obj, dtype=dt, copy=copy, order=order, subok=subok, ndmin=ndmin)
    if isinstance(obj, _SymMix):
        r = obj if subok else obj.view(np.ndarray).view(SymArray)
        r = r.copy() if copy else r
        if r.ndim < ndmin:
            r = np.array(r.view(np.ndarray), ndmin=ndmin).view(SymArray)
        return r
    if _has_sym(obj):
        r = np.array(obj, dtype=object, ndmin=ndmin)
        return maybe(r)
    r = np.array(obj, copy=copy, order=order, subok=subok, ndmin=ndmin)
    return _sy(r)


def _has_sym(obj, depth=0):
    if isinstance(obj, (R, _SymMix)):
        return True
    if isinstance(obj, (list, tuple)) and depth < 4:
        return any(_has_sym(o, depth + 1) for o in obj)
    if isinstance(obj, np.ndarray):
        return obj.dtype == OBJ and any(isinstance(v, R) for v in obj.reshape(-1))
    return False


def p_asarray(obj, dtype=None, order=None, *, copy=None, device=None, like=None):
    if type(obj).__name__ == "MV":
        obj = obj.arr
    if isinstance(obj, _SymMix) and (dtype is None or floatish(dtype)):
        r = obj.view(np.ndarray).view(SymArray) if type(obj) is not SymArray else obj
        return r.copy() if copy else r
    if isinstance(obj, np.ndarray) and dtype is None and obj.dtype.kind != "f" and obj.dtype != OBJ:
        return np.asarray(obj) if not copy else np.array(obj)
    if isinstance(obj, np.ndarray) and dtype is not None and not floatish(dtype) and obj.dtype != OBJ:
        return np.asarray(obj, dtype=dtype)
    return p_array(obj, dtype=dtype)


def p_asanyarray(obj, dtype=None, **k):
    if isinstance(obj, _SymMix) and (dtype is None or floatish(dtype)):
        return obj
    if isinstance(obj, np.matrix):
        return obj
    return p_asarray(obj, dtype=dtype)


def _filled(shape, v):
    if isinstance(shape, R):
        shape = int(shape)
    out = np.empty(shape, dtype=object)
    out.fill(v)
    return out.view(SymArray)


ZERO = R(0)
ONE = R(1)
UNINIT = "uninitialised"


def p_zeros(shape, dtype=float, order="C", **k):
    if dtype is None or floatish(dtype):
        return _filled(shape, ZERO)
    return np.zeros(shape, dtype=dtype, order=order)


def p_ones(shape, dtype=None, order="C", **k):
    if dtype is None or floatish(dtype):
        return _filled(shape, ONE)
    return np.ones(shape, dtype=dtype, order=order)


def p_empty(shape, dtype=float, order="C", **k):
    if dtype is None or floatish(dtype):
        out = np.empty(shape, dtype=object)
        f = out.reshape(-1)
        ex = engine.cur()
        for i in range(f.size):
            f[i] = R(ex.fresh("uninit")) if ex is not None else ZERO
        return out.view(SymArray)
    return np.zeros(shape, dtype=dtype, order=order)


def p_full(shape, fill_value, dtype=None, order="C", **k):
    if (dtype is None and (isinstance(fill_value, (float, R)) or isinstance(fill_value, np.floating))) or floatish(dtype):
        return _filled(shape, _wrap_el(fill_value))
    return np.full(shape, fill_value, dtype=dtype, order=order)


def _like(fn):
    def f(a, dtype=None, **k):
        if dtype is None:
            a2 = a if isinstance(a, np.ndarray) else p_array(a)
            dtype = a2.dtype
            return fn(a2.shape, dtype)
        return fn(np.shape(a), dtype)
    return f


def p_full_like(a, fill_value, dtype=None, **k):
    a2 = a if isinstance(a, np.ndarray) else p_array(a)
    return p_full(a2.shape, fill_value, dtype or a2.dtype)


def p_eye(N, M=None, k=0, dtype=float, order="C", **kw):
    if floatish(dtype):
        return tosym(np.eye(N, M, k))
    return np.eye(N, M, k, dtype=dtype)


def p_arange(*a, **k):
    if any(isinstance(x, R) and not x.is_const for x in a):
        a = list(a)
        if len(a) == 1:
            a = [0, a[0]]
        step = a[2] if len(a) > 2 else 1
        out = []
        x = a[0]
        while x < a[1]:
            out.append(x)
            x = x + step
            if len(out) > 200:
                raise Unsupported("arange")
        return tosym(out) if out else _filled(0, ZERO)
    a = [float(x) if isinstance(x, R) else x for x in a]
    return _sy(np.arange(*a, **k))


def p_linspace(start, stop, num=50, endpoint=True, **k):
    if isinstance(start, R) or isinstance(stop, R):
        d = (num - 1) if endpoint else num
        if num == 1:
            return tosym([R(start)])
        return tosym([start + (stop - start) * R(i) / d for i in range(num)])
    return _sy(np.linspace(start, stop, num, endpoint, **k))


def close_el(a, b, rtol, atol):
    a, b = R(a), R(b)
    if not a.finite or not b.finite:
        return bool(a == b)
    if a.is_const and b.is_const:
        return abs(a.e - b.e) <= R(atol).e + R(rtol).e * abs(b.e)
    return abs(a - b) <= R(atol) + R(rtol) * abs(b)


def _pairs(a, b):
    a, b = np.broadcast_arrays(_base(p_asarray(a)), _base(p_asarray(b)))
    return a.shape, list(zip(a.reshape(-1), b.reshape(-1)))


def p_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    shape, ps = _pairs(a, b)
    if shape == ():
        x, y = ps[0]
        return close_el(x, y, rtol, atol)
    out = np.empty(shape, dtype=bool)
    f = out.reshape(-1)
    for i, (x, y) in enumerate(ps):
        f[i] = bool(close_el(x, y, rtol, atol))
    return out


def p_allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    import z3
    shape, ps = _pairs(a, b)
    cs = []
    for x, y in ps:
        c = close_el(x, y, rtol, atol)
        if isinstance(c, SB):
            cs.append(c.e)
        elif not c:
            return False
    if not cs:
        return True
    return engine.cur().decide(z3.And(*cs))


def p_array_equal(a, b, equal_nan=False):
    import z3
    a, b = _base(p_asarray(a)), _base(p_asarray(b))
    if a.shape != b.shape:
        return False
    cs = []
    for x, y in zip(a.reshape(-1), b.reshape(-1)):
        c = (x == y)
        if isinstance(c, SB):
            cs.append(c.e)
        elif not c:
            return False
    if not cs:
        return True
    return engine.cur().decide(z3.And(*cs))


def p_bincount(x, weights=None, minlength=0):
    if weights is None:
        return np.bincount(x, minlength=minlength)
    x = np.asarray(x)
    n = max(minlength, (int(x.max()) + 1) if x.size else 0)
    out = _filled(n, ZERO)
    w = p_asarray(weights)
    for i, xi in enumerate(x):
        out[int(xi)] = out[int(xi)] + w[i]
    return out


def p_dot(a, b, out=None):
    if is_sym(a) or is_sym(b):
        if np.ndim(a) == 0 or np.ndim(b) == 0:
            return a * b
        a2, b2 = p_asanyarray(a), p_asanyarray(b)
        r = np.matmul(np.asarray(_base(a2)).astype(object), np.asarray(_base(b2)).astype(object))
        if isinstance(r, np.ndarray):
            r = r.view(SymMatrix if isinstance(a2, np.matrix) or isinstance(b2, np.matrix) else SymArray)
        return r
    return np.dot(a, b)


def p_finfo(dt):
    if getattr(dt, "__symfloat__", False):
        dt = np.float64
    return np.finfo(dt)


def p_result_type(*a):
    return np.result_type(*[F64 if isinstance(x, (R, _SymMix)) else x for x in a])


def p_can_cast(f, t, casting="safe"):
    if isinstance(f, (R, _SymMix)):
        f = F64
    return np.can_cast(f, t, casting)


def p_isscalar(x):
    return isinstance(x, R) or np.isscalar(x)


def p_diag(v, k=0):
    v = p_asanyarray(v)
    if is_sym(v) and v.ndim == 1:
        n = v.size + abs(k)
        out = _filled((n, n), ZERO)
        for i in range(v.size):
            out[(i, i + k) if k >= 0 else (i - k, i)] = v[i]
        return out
    if is_sym(v):
        return np.diagonal(np.asarray(_base(v)), k).copy().view(SymArray)
    return _sy(np.diag(v, k))


def p_diagflat(v, k=0):
    v = p_asanyarray(v)
    r = p_diag(p_asarray(v).reshape(-1), k)
    if isinstance(v, np.matrix):
        return r.view(SymMatrix)
    return r


def p_asmatrix(x, dtype=None):
    a = p_asarray(x, dtype=dtype)
    if is_sym(a):
        return a.view(np.ndarray).view(SymMatrix)
    return np.asmatrix(a)


def p_where(c, *a):
    if is_sym(c):
        c = _elmap(lambda x: bool(x != 0), c)
    if not a:
        return np.where(c)
    x, y = a
    if is_sym(x) or is_sym(y) or isinstance(x, R) or isinstance(y, R):
        x, y = _base(p_asarray(x)).astype(object), _base(p_asarray(y)).astype(object)
        return tosym(np.where(c, x, y))
    return _sy(np.where(c, x, y))


def p_count_nonzero(a, *r, **k):
    if is_sym(a):
        a = _elmap(lambda x: bool(x != 0), a)
    return np.count_nonzero(a, *r, **k)


def p_median(a, **k):
    a = p_asarray(a).reshape(-1)
    s = sorted(a.tolist())
    n = len(s)
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2


def p_mean(a, axis=None, **k):
    return p_asanyarray(a).mean(axis=axis)


def p_searchsorted(a, v, side="left", sorter=None):
    al = list(a)

    def one(x):
        i = 0
        for y in al:
            if (y < x) if side == "left" else (y <= x):
                i += 1
            else:
                break
        return i
    if np.ndim(v) == 0 or isinstance(v, R):
        return np.int64(one(v))
    return np.array([one(x) for x in v], dtype=np.int64)


def p_matrix_power(M, n):
    M = p_asarray(M)
    r = p_eye(M.shape[0])
    for _ in range(n):
        r = r @ M
    return r


def p_trace(a, *r, **k):
    if is_sym(a):
        return np.add.reduce(p_diag(a))
    return np.trace(a, *r, **k)


def p_unique(ar, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    if not _has_sym(ar) and not is_sym(ar):
        return np.unique(ar, return_index=return_index, return_inverse=return_inverse,
                         return_counts=return_counts, axis=axis, **k)
    fl = list(p_asarray(ar).reshape(-1))
    order = sorted(range(len(fl)), key=_K(fl))
    uniq, idx, cnt, inv = [], [], [], [0] * len(fl)
    for i in order:
        if uniq and bool(uniq[-1] == fl[i]):
            cnt[-1] += 1
        else:
            uniq.append(fl[i])
            idx.append(i)
            cnt.append(1)
        inv[i] = len(uniq) - 1
    out = [tosym(uniq) if uniq else _filled(0, ZERO)]
    if return_index:
        out.append(np.array(idx, dtype=np.int64))
    if return_inverse:
        out.append(np.array(inv, dtype=np.int64))
    if return_counts:
        out.append(np.array(cnt, dtype=np.int64))
    return out[0] if len(out) == 1 else tuple(out)


def _K(fl):
    return lambda i: fl[i]


def p_sum(a, axis=None, dtype=None, **k):
    if isinstance(a, R):
        return a
    if hasattr(a, "sum") and not isinstance(a, np.ndarray):
        return a.sum(axis=axis)
    a = p_asanyarray(a)
    return a.sum(axis=axis, **{x: y for x, y in k.items() if x == "keepdims"})


def p_outer(a, b, out=None):
    a, b = p_asarray(a).reshape(-1), p_asarray(b).reshape(-1)
    return a[:, np.newaxis] * b[np.newaxis, :]


def p_einsum(spec, *ops, **k):
    return maybe(np.einsum(spec, *[np.asarray(_base(p_asarray(o))).astype(object) for o in ops]))


def p_clip(a, lo, hi, **k):
    r = a
    if lo is not None:
        r = np.maximum(r, lo)
    if hi is not None:
        r = np.minimum(r, hi)
    return r


def p_frombuffer(buf, dtype=float, count=-1, offset=0):
    if hasattr(buf, "__symbuf__"):
        return STUBS["frombuffer"](buf, dtype, count, offset)
    return np.frombuffer(buf, dtype=dtype, count=count, offset=offset)


def p_ascontiguousarray(a, dtype=None, **k):
    return p_asarray(a, dtype=dtype)


def p_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    x = p_asarray(x)
    if not is_sym(x):
        return np.nan_to_num(x)
    return tosym(_elmap(lambda v: R(nan) if _isnan(v) else v, x, object))


def p_abs(x, *a, **k):
    if isinstance(x, R):
        return abs(x)
    if not isinstance(x, np.ndarray) and hasattr(x, "__abs__"):
        return abs(x)
    return np.abs(p_asanyarray(x))


def _un(name):
    ufn = getattr(np, name)

    def f(x, *a, **k):
        if isinstance(x, R):
            return getattr(x, name)()
        if isinstance(x, (list, tuple)) or is_num(x):
            x = p_asarray(x)
            if x.ndim == 0:
                return getattr(x.item() if isinstance(x.item(), R) else R(x.item()), name)()
        if isinstance(x, np.ndarray) and not is_sym(x) and x.dtype != OBJ:
            x = tosym(x)
        if hasattr(x, "__sparse_model__"):
            return getattr(x, name)()
        return ufn(x, *a, **k)
    return f


def _pred(name, el):
    ufn = getattr(np, name)

    def f(x, *a, **k):
        if isinstance(x, R):
            return el(x)
        if is_sym(x) or _has_sym(x):
            return _elmap(el, p_asarray(x))
        return ufn(x, *a, **k)
    return f


def p_float64(x=0.0):
    return x if isinstance(x, R) else R(x)


class _NpRandom(types.ModuleType):
    pass


class _MetaF(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (np.float64, R))

    def __eq__(cls, o):
        return o is cls or o is np.float64 or o == F64

    def __hash__(cls):
        return hash(np.float64)


OVERRIDES = dict(
    array=p_array, asarray=p_asarray, asanyarray=p_asanyarray, zeros=p_zeros, ones=p_ones,
    empty=p_empty, full=p_full, zeros_like=_like(p_zeros), ones_like=_like(p_ones),
    empty_like=_like(p_empty), full_like=p_full_like, eye=p_eye,
    identity=lambda n, dtype=float, **k: p_eye(n, dtype=dtype),
    arange=p_arange, linspace=p_linspace, isclose=p_isclose, allclose=p_allclose,
    array_equal=p_array_equal, bincount=p_bincount, dot=p_dot, finfo=p_finfo,
    result_type=p_result_type, can_cast=p_can_cast, isscalar=p_isscalar, diag=p_diag,
    diagflat=p_diagflat, asmatrix=p_asmatrix, where=p_where, count_nonzero=p_count_nonzero,
    median=p_median, mean=p_mean, average=p_mean, searchsorted=p_searchsorted, trace=p_trace,
    unique=p_unique, sum=p_sum, outer=p_outer, einsum=p_einsum, clip=p_clip,
    frombuffer=p_frombuffer, ascontiguousarray=p_ascontiguousarray, nan_to_num=p_nan_to_num,
    abs=p_abs, absolute=p_abs, fabs=p_abs, sqrt=_un("sqrt"), log=_un("log"), log2=_un("log2"), exp=_un("exp"),
    isfinite=_pred("isfinite", _isfin), isnan=_pred("isnan", _isnan), isinf=_pred("isinf", _isinf),
    fromiter=lambda it, dtype=None, count=-1, **k: p_array(list(it), dtype=dtype),
    nonzero=lambda a: a.nonzero() if hasattr(a, "nonzero") else p_asarray(a).nonzero(),
    flatnonzero=lambda a: p_asarray(a).reshape(-1).nonzero()[0],
    any=lambda a, axis=None, **k: p_asanyarray(a).any(axis=axis),
    all=lambda a, axis=None, **k: p_asanyarray(a).all(axis=axis),
    max=lambda a, axis=None, **k: p_asanyarray(a).max(axis=axis),
    min=lambda a, axis=None, **k: p_asanyarray(a).min(axis=axis),
    amax=lambda a, axis=None, **k: p_asanyarray(a).max(axis=axis),
    amin=lambda a, axis=None, **k: p_asanyarray(a).min(axis=axis),
)
for _k in [k for k, v in OVERRIDES.items() if v is None]:
    del OVERRIDES[_k]


class LinalgProxy(types.ModuleType):
    def __getattr__(self, name):
        if name == "matrix_power":
            return p_matrix_power
        if name == "multi_dot":
            def md(l):
                r = l[0]
                for x in l[1:]:
                    r = r @ x
                return r
            return md
        f = getattr(np.linalg, name)
        if not callable(f) or isinstance(f, type):
            return f

        def w(*a, **k):
            if any(is_sym(x) for x in a):
                st = STUBS.get("linalg." + name)
                if st:
                    return st(*a, **k)
                raise Unsupported(f"np.linalg.{name} on symbolic data")
            return _sy(f(*a, **k))
        return w


STUBS = {}


class RandomProxy(types.ModuleType):
    """np.random: every draw is arbitrary.  Handlers installed by harnesses."""

    def __getattr__(self, name):
        st = STUBS.get("random." + name)
        if st:
            return st
        raise Unsupported(f"np.random.{name}")


class NpProxy(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")
        self.__dict__.update(OVERRIDES)
        self.linalg = LinalgProxy("numpy.linalg")
        self.random = RandomProxy("numpy.random")
        self.__real__ = np
        self._cache = {}

    def __getattr__(self, name):
        c = self.__dict__["_cache"]
        if name in c:
            return c[name]
        f = getattr(np, name)
        if isinstance(f, (type, types.ModuleType)) or not callable(f) or isinstance(f, np.ufunc):
            if isinstance(f, np.ufunc):
                f2 = UfuncProxy(f)
                c[name] = f2
                return f2
            return f

        def w(*a, **k):
            if floatish(k.get("dtype")) and any(is_sym(x) for x in a):
                k.pop("dtype")
            a = [(_o(x) if isinstance(x, (list, tuple)) and any(isinstance(v, R) for v in x) else x) for x in a]
            return maybe(f(*a, **k))
        w.__name__ = name
        c[name] = w
        return w


def _o(x):
    return p_array(list(x))


class UfuncProxy:
    """ufunc with R scalars accepted"""

    def __init__(self, uf):
        self._uf = uf
        self.__name__ = uf.__name__

    def __call__(self, *a, **k):
        if floatish(k.get("dtype")):
            k.pop("dtype")
        a2 = []
        sc = True
        anyR = False
        for x in a:
            if isinstance(x, R):
                anyR = True
                a2.append(tosym(x))
            else:
                if isinstance(x, (list, tuple)):
                    x = p_array(x)
                if isinstance(x, np.ndarray):
                    sc = False
                a2.append(x)
        r = self._uf(*a2, **k)
        if anyR and sc and isinstance(r, np.ndarray) and r.ndim == 0:
            return r.item()
        return maybe(r)

    def __getattr__(self, n):
        f = getattr(self._uf, n)
        if callable(f):
            def w(*a, **k):
                k.pop("dtype", None)
                a = [p_array(x) if isinstance(x, (list, tuple)) and _has_sym(x) else x for x in a]
                return maybe(f(*a, **k))
            return w
        return f

    def __reduce__(self):
        return self._uf.__name__


NP = NpProxy()
