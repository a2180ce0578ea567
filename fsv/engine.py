"""Symbolic values and the path explorer.

A harness is an ordinary Python function ``h(cx)``.  In symbolic mode it is
re-executed once per feasible path: every branch on a symbolic value asks
``Explorer.decide`` which consults the recorded decision prefix, then z3.
"""
from __future__ import annotations

import os
import math
import time
from fractions import Fraction

import z3

from . import ival, poly

z3.z3.Z3_DEBUG = False        # argument checks of the bindings
SLOW = bool(os.environ.get("FSV_SLOW"))


class PathAbort(BaseException):
    """End this path (assumption violated / infeasible)."""


class PathLimit(BaseException):
    """Exploration budget exhausted."""


class Unsupported(BaseException):
    """The encoding does not cover a construct used by the code."""


EX = None  # the current explorer


def cur():
    return EX


def to_frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, int):
        return Fraction(x)
    x = float(x)
    f = Fraction(x)
    if f.denominator <= 4096:
        return f
    g = f.limit_denominator(100000)
    if g != 0 and abs(g - f) <= abs(f) * Fraction(4, 10**16):
        return g
    try:
        g = Fraction(repr(x))
        return g
    except ValueError:
        return f


_ZC = {}


def zconst(f):
    f = Fraction(f)
    r = _ZC.get(f)
    if r is None:
        r = z3.RealVal(f"{f.numerator}/{f.denominator}")
        _ZC[f] = r
    return r


def is_num(x):
    import numpy as np
    return isinstance(x, (int, float, Fraction, np.number, np.bool_, R))


NAN = float("nan")


class SB:
    """symbolic boolean"""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return cur().decide(self.e)

    def __and__(self, o):
        return mk_bool(z3.And(self.e, zb(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mk_bool(z3.Or(self.e, zb(o)))

    __ror__ = __or__

    def __invert__(self):
        return mk_bool(z3.Not(self.e))

    def __eq__(self, o):
        return mk_bool(self.e == zb(o))

    def __ne__(self, o):
        return mk_bool(self.e != zb(o))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__

    def __mul__(self, o):
        return int(bool(self)) * o

    __rmul__ = __mul__

    def __hash__(self):
        return hash(bool(self))


def zb(x):
    if isinstance(x, SB):
        return x.e
    if isinstance(x, z3.BoolRef):
        return x
    return z3.BoolVal(bool(x))


def mk_bool(e):
    if isinstance(e, bool):
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SB(e)


def ze(x):
    """any number -> z3 real expr"""
    if isinstance(x, R):
        e = x.e
        if isinstance(e, Fraction):
            return zconst(e)
        if isinstance(e, float):
            raise Unsupported(f"non-finite value {e} in a solver term")
        return e
    if isinstance(x, z3.ExprRef):
        return x
    return zconst(to_frac(x))


class R:
    """A number: exact Fraction, non-finite float, or z3 Real/Int term.

    ``kind`` 'f' = stands for a float, 'i' = stands for an integer.
    """
    __slots__ = ("e", "kind")
    __array_priority__ = 1000.0
    _UF = {"add": "+", "subtract": "-", "multiply": "*", "divide": "/", "true_divide": "/", "floor_divide": "//",
           "remainder": "%", "less": "<", "less_equal": "<=", "greater": ">", "greater_equal": ">=",
           "equal": "==", "not_equal": "!="}

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        import numpy as np
        from . import symnp
        op = self._UF.get(ufunc.__name__)
        if op is None or method != "__call__" or len(inputs) != 2 or kw:
            raise Unsupported(f"ufunc {ufunc.__name__} on a symbolic value")
        a, b = inputs
        if isinstance(a, np.ndarray):
            r = symnp.scalar_array_op(b, a, op, True)
        elif isinstance(b, np.ndarray):
            r = symnp.scalar_array_op(a, b, op, False)
        else:
            r = R(a)._bin(b, op) if op in "+-*/%//" else R(a)._cmp(b, op)
        if out is None:
            return r
        o = out[0]
        if o.dtype != object:
            v = np.asarray(r)
            if any(isinstance(x, R) and not x.is_const for x in v.reshape(-1)):
                raise Unsupported("symbolic values written into a native array")
            o[...] = np.array([float(x) for x in v.reshape(-1)]).reshape(v.shape)
        else:
            np.asarray(o.view(np.ndarray))[...] = np.asarray(r).view(np.ndarray)
        return o

    def __init__(self, e, kind="f"):
        if isinstance(e, R):
            e = e.e
        elif isinstance(e, z3.ExprRef):
            if z3.is_rational_value(e) or z3.is_int_value(e):
                e = e.as_fraction() if z3.is_rational_value(e) else Fraction(e.as_long())
        elif isinstance(e, Fraction):
            pass
        else:
            ef = float(e) if not isinstance(e, int) else e
            if isinstance(ef, float) and not math.isfinite(ef):
                e = ef
            else:
                e = to_frac(e)
        self.e = e
        self.kind = kind

    # -- helpers
    @property
    def is_const(self):
        return not isinstance(self.e, z3.ExprRef)

    @property
    def finite(self):
        return not isinstance(self.e, float)

    def _other(self, o):
        if isinstance(o, R):
            return o
        if isinstance(o, SB):
            return R(int(bool(o)))
        if is_num(o):
            return R(o)
        if isinstance(o, z3.ExprRef):
            return R(o)
        return None

    def _bin(self, o, op, swap=False):
        import numpy as np
        if isinstance(o, np.ndarray):
            from . import symnp
            return symnp.scalar_array_op(self, o, op, swap)
        if hasattr(o, "__sparse_model__"):
            return NotImplemented
        oo = self._other(o)
        if oo is None:
            return NotImplemented
        a, b = (oo, self) if swap else (self, oo)
        return _arith(a, b, op)

    def __add__(self, o):
        return self._bin(o, "+")

    def __radd__(self, o):
        return self._bin(o, "+", True)

    def __sub__(self, o):
        return self._bin(o, "-")

    def __rsub__(self, o):
        return self._bin(o, "-", True)

    def __mul__(self, o):
        return self._bin(o, "*")

    def __rmul__(self, o):
        return self._bin(o, "*", True)

    def __truediv__(self, o):
        return self._bin(o, "/")

    def __rtruediv__(self, o):
        return self._bin(o, "/", True)

    def __floordiv__(self, o):
        return self._bin(o, "//")

    def __rfloordiv__(self, o):
        return self._bin(o, "//", True)

    def __mod__(self, o):
        return self._bin(o, "%")

    def __rmod__(self, o):
        return self._bin(o, "%", True)

    def __divmod__(self, o):
        return self // o, self % o

    def __neg__(self):
        if self.is_const:
            return R(-self.e, self.kind)
        return R(-self.e, self.kind)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.is_const:
            return R(abs(self.e), self.kind)
        return R(z3.If(self.e >= 0, self.e, -self.e), self.kind)

    def __pow__(self, o):
        oo = self._other(o)
        if oo is None:
            return NotImplemented
        if isinstance(oo.e, Fraction) and oo.e.denominator == 1 and abs(oo.e) <= 16:
            n = int(oo.e)
            r = R(1, self.kind)
            for _ in range(abs(n)):
                r = r * self
            return r if n >= 0 else R(1) / r
        if isinstance(oo.e, Fraction) and oo.e == Fraction(1, 2):
            return self.sqrt()
        if self.is_const and oo.is_const:
            return R(float(self.e) ** float(oo.e))
        raise Unsupported("symbolic power")

    def __rpow__(self, o):
        return R(o).__pow__(self)

    # comparisons
    def _cmp(self, o, op):
        import numpy as np
        if isinstance(o, np.ndarray):
            from . import symnp
            return symnp.scalar_array_op(self, o, op, False)
        oo = self._other(o)
        if oo is None:
            return NotImplemented
        a, b = self.e, oo.e
        if not isinstance(a, z3.ExprRef) and not isinstance(b, z3.ExprRef):
            return _CMPF[op](a, b)
        if isinstance(a, float) or isinstance(b, float):
            # symbolic finite vs inf / nan
            fa = a if isinstance(a, float) else 0.0
            fb = b if isinstance(b, float) else 0.0
            return _CMPF[op](fa, fb)
        if isinstance(a, Fraction):
            a = zconst(a)
        if isinstance(b, Fraction):
            b = zconst(b)
        e = _CMPF[op](a, b)
        e = z3.simplify(e)
        if not (z3.is_true(e) or z3.is_false(e)) and (a.num_args() or b.num_args()):
            c = poly.const(a - b)
            if c is not None:
                return _CMPF[op](c, 0)
        return mk_bool(e)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        r = self._cmp(o, "==")
        if r is NotImplemented:
            return False
        if isinstance(r, SB) and getattr(EX, "noties", None) is not None:
            d = ze(self - o)
            EX.assume(z3.Or(d > EX.noties, d < -EX.noties))
            return False
        return r

    def __ne__(self, o):
        r = self._cmp(o, "!=")
        return True if r is NotImplemented else r

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        if self.is_const:
            if isinstance(self.e, Fraction):
                return hash(self.e)
            return hash(self.e)
        return cur().sym_hash(self)

    def __float__(self):
        if self.is_const:
            return float(self.e)
        raise Unsupported("float() of a symbolic value in native code")

    def __int__(self):
        if self.is_const:
            return int(self.e)
        return cur().concretize_int(self)

    def __index__(self):
        if isinstance(self.e, Fraction):
            if self.e.denominator != 1 or self.kind != "i":
                raise TypeError("'float' object cannot be interpreted as an integer")
            return int(self.e)
        if self.kind != "i":
            raise TypeError("'float' object cannot be interpreted as an integer")
        return cur().concretize_int(self)

    def __trunc__(self):
        return self.__int__()

    def __round__(self, nd=None):
        if self.is_const:
            return R(round(self.e, nd)) if nd is not None else int(round(self.e))
        raise Unsupported("round of a symbolic value")

    def __floor__(self):
        if self.is_const:
            return math.floor(self.e)
        return cur().concretize_int(R(z3.ToInt(self.e), "i"))

    def __ceil__(self):
        return -((-self).__floor__())

    def is_integer(self):
        if self.is_const:
            return self.e.denominator == 1
        return mk_bool(z3.IsInt(self.e))

    # numpy element protocol
    def conjugate(self):
        return self

    conj = conjugate

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return R(0)

    @property
    def size(self):
        return 1

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def dtype(self):
        import numpy as np
        return np.dtype(np.int64 if self.kind == "i" else np.float64)

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def astype(self, dt, **k):
        return self

    def flatten(self):
        from . import symnp
        return symnp.mk([self])

    def sum(self, *a, **k):
        return self

    def sqrt(self):
        if self.is_const:
            if isinstance(self.e, Fraction):
                n, d = self.e.numerator, self.e.denominator
                if n < 0:
                    return R(NAN)
                a, b = math.isqrt(n), math.isqrt(d)
                if a * a == n and b * b == d:
                    return R(Fraction(a, b))
            return cur().fresh_sqrt(self)
        return cur().fresh_sqrt(self)

    def log(self):
        return cur().fun("log", self)

    def log2(self):
        return cur().log2(self)

    def exp(self):
        return cur().fun("exp", self)

    def __repr__(self):
        if isinstance(self.e, Fraction):
            return f"{float(self.e):g}" if self.kind == "f" else str(self.e)
        if self.e.num_args():       # printing a large term is slow
            return f"<{self.e.decl()} term {self.e.get_id()}>"
        return str(self.e)

    def __format__(self, spec):
        if self.is_const:
            return format(int(self.e) if self.kind == "i" else float(self.e), spec)
        return repr(self)

    def __reduce__(self):
        if self.is_const:
            return (R, (self.e, self.kind))
        cur_ = cur()
        return (_unpickle_R, (cur_.stash(self),))


def _unpickle_R(i):
    return cur().stashed[i]


def _lt(a, b): return a < b
def _le(a, b): return a <= b
def _gt(a, b): return a > b
def _ge(a, b): return a >= b
def _eq(a, b): return a == b
def _ne(a, b): return a != b


_CMPF = {"<": _lt, "<=": _le, ">": _gt, ">=": _ge, "==": _eq, "!=": _ne}


def _no_roots(x, y):
    """x*y with products of equal square roots replaced by the radicand"""
    sq = cur().bounds.sq
    fs, st = [], [x, y]
    while st:
        t = st.pop()
        if z3.is_mul(t):
            st.extend(t.children())
        else:
            fs.append(t)
    seen, rad = {}, []
    for f in fs:
        i = f.get_id()
        if i in sq:
            if i in seen:
                rad.append(sq[i])
                del seen[i]
            else:
                seen[i] = f
    if not rad:
        return x * y
    rest = [f for f in fs if f.get_id() not in sq] + list(seen.values()) + rad
    out = rest[0]
    for f in rest[1:]:
        out = out * f
    return out


def _arith(a, b, op):
    x, y = a.e, b.e
    kind = "i" if (a.kind == "i" and b.kind == "i" and op != "/") else "f"
    xe, ye = isinstance(x, z3.ExprRef), isinstance(y, z3.ExprRef)
    if not xe and not ye:
        if isinstance(x, float) or isinstance(y, float):
            fx, fy = float(x), float(y)
            if op == "+":
                return R(fx + fy)
            if op == "-":
                return R(fx - fy)
            if op == "*":
                return R(fx * fy)
            if op == "/":
                if fy == 0:
                    return R(NAN if fx != fx else math.copysign(math.inf, fx))
                return R(fx / fy)
            return R(NAN)
        if op == "+":
            return R(x + y, kind)
        if op == "-":
            return R(x - y, kind)
        if op == "*":
            return R(x * y, kind)
        if op == "/":
            if y == 0:
                return R(NAN if x == 0 else (math.inf if x > 0 else -math.inf))
            return R(x / y, "f")
        if op == "//":
            if y == 0:
                raise ZeroDivisionError
            return R(Fraction(x // y), kind)
        if op == "%":
            return R(x % y, kind)
    if isinstance(x, float) or isinstance(y, float):
        # finite symbolic with non-finite
        if op in "+-":
            fx = x if isinstance(x, float) else 0.0
            fy = y if isinstance(y, float) else 0.0
            return R(fx + fy if op == "+" else fx - fy)
        if op == "*":
            f, s = (x, b) if isinstance(x, float) else (y, a)
            if f != f:
                return R(NAN)
            if bool(s == 0):
                return R(NAN)
            return R(f if bool(s > 0) else -f)
        if op == "/":
            if isinstance(y, float):
                return R(0) if y == y else R(NAN)
            if x != x:
                return R(NAN)
            return R(x if bool(b >= 0) else -x)
        return R(NAN)
    if op == "+":
        if not xe and x == 0:
            return R(y, kind) if kind == b.kind else R(y, "f")
        if not ye and y == 0:
            return R(x, kind)
        return R((x if xe else zconst(x)) + (y if ye else zconst(y)), kind)
    if op == "-":
        if not ye and y == 0:
            return R(x, kind)
        if xe and ye and x.eq(y):
            return R(0, kind)
        return R((x if xe else zconst(x)) - (y if ye else zconst(y)), kind)
    if op == "*":
        if not xe:
            if x == 0:
                return R(0, kind)
            if x == 1:
                return R(y, kind)
            return R(zconst(x) * y, kind)
        if not ye:
            if y == 0:
                return R(0, kind)
            if y == 1:
                return R(x, kind)
            return R(x * zconst(y), kind)
        if cur().bounds.sq:
            return R(_no_roots(x, y), kind)
        return R(x * y, kind)
    if op == "/":
        if not ye:
            if y == 0:
                if bool(a == 0):
                    return R(NAN)
                return R(math.inf if bool(a > 0) else -math.inf)
            if y == 1:
                return R(x, "f")
            return R(x * zconst(1 / y), "f")
        c = poly.const(y)
        if c:
            return a if c == 1 and a.kind == "f" else R((x if xe else zconst(x)) * zconst(1 / c), "f")
        if cur().decide(y == 0):
            if bool(a == 0):
                return R(NAN)
            return R(math.inf if bool(a > 0) else -math.inf)
        if xe and x.eq(y):
            return R(1)
        if not xe and x == 0:
            return R(0)
        return cur().div(x if xe else zconst(x), y)
    if op in ("//", "%"):
        if kind == "i" and not ye:
            xi = x
            q = z3.ToInt(z3.ToReal(xi) / zconst(y)) if z3.is_int(xi) else z3.ToInt(xi / zconst(y))
            return R(q, "i") if op == "//" else R(xi - q * int(y), "i")
        q = cur().concretize_int(R(z3.ToInt((x if xe else zconst(x)) / (y if ye else zconst(y))), "i"))
        return R(q, kind) if op == "//" else a - b * q
    raise Unsupported(op)


def inner(e, neg, dl):
    """e (or its negation) with every real inequality tightened by dl"""
    k = e.decl().kind()
    if k == z3.Z3_OP_NOT:
        return inner(e.arg(0), not neg, dl)
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
        cs = [inner(c, neg, dl) for c in e.children()]
        return z3.And(*cs) if (k == z3.Z3_OP_AND) != neg else z3.Or(*cs)
    if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ) and e.arg(0).sort() == z3.RealSort():
        a, b = e.arg(0), e.arg(1)
        if k == z3.Z3_OP_EQ:
            return z3.Or(a < b - dl, a > b + dl) if neg else e
        le = k in (z3.Z3_OP_LE, z3.Z3_OP_LT)
        if neg:
            le = not le
        return a <= b - dl if le else a >= b + dl
    return z3.Not(e) if neg else e


class Explorer:
    """DSE by re-execution.  ``prefix`` decisions are replayed first."""

    def __init__(self, prefix=(), timeout_ms=4000, stats=None, max_decisions=4000):
        self.prefix = list(prefix)
        self.trace = []          # decisions taken
        self.alts = []           # sibling prefixes to explore later
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.timeout_ms = timeout_ms
        self.model = None
        self.vars = {}
        self.defs = []
        self.stats = stats if stats is not None else {"queries": 0, "solver_s": 0.0, "unknown": 0}
        self.stashed = []
        self.memo = {}
        self.hash_list = []
        self.n = 0
        self.max_decisions = max_decisions
        self.pc = []
        self.bounds = ival.Bounds()
        self.lazy = {}

    # -- solver plumbing
    def check(self, *extra, timeout=None):
        if self.lazy:
            for e in extra:
                self._touch(e)
        t = time.time()
        self.stats["queries"] += 1
        if timeout:
            self.solver.set("timeout", timeout)
        r = self.solver.check(*extra)
        if timeout:
            self.solver.set("timeout", self.timeout_ms)
        self.stats["solver_s"] += time.time() - t
        if SLOW and time.time() - t > 0.5:
            import traceback
            fr = [f"{f.filename.split('/')[-1]}:{f.lineno}" for f in traceback.extract_stack()[-12:-1]]
            print("SLOW", round(time.time() - t, 2), r, [str(e)[:300] for e in extra], fr, flush=True)
        if r == z3.unknown:
            self.stats["unknown"] += 1
        return r

    def robust_model(self, *extra):
        """a model well inside the path's region if there is one (survives float rounding)"""
        dl = z3.RealVal("1/512")
        t = [inner(e, False, dl) for e in self.pc]
        r = self.check(*t, *extra, timeout=2000)
        if r != z3.sat:
            t = [inner(e, False, dl) for e in self.pc if e.num_args() != 2 or not (z3.is_const(e.arg(0)) or z3.is_const(e.arg(1)))]
            r = self.check(*t, *extra, timeout=2000)
        if r != z3.sat and extra:
            t = [inner(e, False, z3.RealVal("1/200000")) for e in self.pc]
            r = self.check(*t, *extra, timeout=2000)
        return self.solver.model() if r == z3.sat else None

    def _touch(self, e):
        """activates the definitions of the auxiliary variables that occur in e"""
        seen, st = set(), [e]
        while st:
            t = st.pop()
            i = t.get_id()
            if i in seen:
                continue
            seen.add(i)
            if i in self.lazy:
                _, ax = self.lazy.pop(i)
                self.solver.add(ax)
                self.pc.append(ax)
                self.model = None
                st.append(ax)
            st.extend(t.children())

    def add(self, e):
        if self.lazy:
            self._touch(e)
        self.solver.add(e)
        self.pc.append(e)
        self.bounds.learned(e)
        k = e.decl().kind()
        if k == z3.Z3_OP_EQ and z3.is_arith(e.arg(0)):
            poly.equation(e.arg(0) - e.arg(1))

    def _model_val(self, e):
        if self.lazy:
            self._touch(e)
        if self.model is None:
            return None
        v = self.model.eval(e, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def decide(self, e):
        if isinstance(e, bool):
            return e
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        b = self.bounds.decide(e)
        if b is not None:
            return b
        key = ("d", e.get_id())
        if len(self.trace) >= len(self.prefix):
            hit = self.memo.get(key)
            if hit is not None:
                self.trace.append(3 if hit[1] else 2)
                return hit[1]
        r = self._decide(e)
        self.memo[key] = (e, r)
        return r

    def _decide(self, e):
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trace.append(d)
            if d in (0, 1):
                self.add(e if d else z3.Not(e))
                self.model = None
            # d in (2,3): implied, nothing to add
            return bool(d & 1)
        if i > self.max_decisions:
            raise PathLimit("too many decisions on one path")
        ne = z3.Not(e)
        v = self._model_val(e)
        if v is None:
            r = self.check(e)
            if r == z3.sat:
                self.model = self.solver.model()
                v = True
            elif r == z3.unsat:
                self.trace.append(2)
                return False
            else:
                v = None
        if v is None:
            # unknown on e: try not e
            r2 = self.check(ne)
            if r2 == z3.unsat:
                self.trace.append(3)
                return True
            self.alts.append(self.trace + [0])
            self.trace.append(1)
            self.add(e)
            self.model = None
            return True
        other = ne if v else e
        r = self.check(other)
        if r == z3.unsat:
            self.trace.append(3 if v else 2)
            return v
        self.alts.append(self.trace + [0 if v else 1])
        self.trace.append(1 if v else 0)
        self.add(e if v else ne)
        return v

    def choose(self, n, name=None):
        """fork over 0..n-1 (a concrete, unconstrained choice)."""
        if n <= 1:
            return 0
        x = self.int(name or f"choice{self.n}", 0, n - 1)
        return int(x)

    # -- variables
    def real(self, name, lo=None, hi=None):
        v = z3.Real(name)
        self.vars[name] = v
        if lo is not None:
            self.assume(v >= zconst(to_frac(lo)))
        if hi is not None:
            self.assume(v <= zconst(to_frac(hi)))
        return R(v)

    def int(self, name, lo, hi):
        self.n += 1
        if name in self.vars:
            name = f"{name}#{self.n}"
        v = z3.Int(name)
        self.vars[name] = v
        self.assume(z3.And(v >= lo, v <= hi))
        return R(v, "i")

    def bool(self, name):
        v = z3.Bool(name)
        self.vars[name] = v
        return SB(v)

    def assume(self, e):
        e = zb(e) if not isinstance(e, z3.ExprRef) else e
        e = z3.simplify(e)
        if z3.is_true(e):
            return
        if z3.is_false(e):
            raise PathAbort
        self.add(e)
        v = self._model_val(e)
        if v is not True:
            self.model = None
            if len(self.trace) >= len(self.prefix):
                r = self.check()
                if r == z3.unsat:
                    raise PathAbort
                if r == z3.sat:
                    self.model = self.solver.model()

    def concretize_int(self, x):
        """fork over the feasible integer values of x"""
        e = x.e
        if isinstance(e, Fraction):
            return int(e)
        if not z3.is_int(e):
            # python int(): truncation towards zero
            e = z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e))
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        key = ("ci", e.get_id())
        if key in self.memo and len(self.trace) >= len(self.prefix):
            self.trace.append(("i", self.memo[key][1]))
            return self.memo[key][1]
        while True:
            i = len(self.trace)
            if i < len(self.prefix):
                d = self.prefix[i]
                self.trace.append(d)
                # encoded ("=", v) or ("!", v)
                if d[0] == "=":
                    self.add(e == d[1])
                    self.model = None
                    v = d[1]
                    break
                if d[0] == "i":
                    v = d[1]
                    break
                self.add(e != d[1])
                self.model = None
                continue
            if self.model is None:
                r = self.check()
                if r != z3.sat:
                    if r == z3.unsat:
                        raise PathAbort
                    raise Unsupported("unknown while concretising an integer")
                self.model = self.solver.model()
            v = self.model.eval(e, model_completion=True).as_long()
            r = self.check(e != v)
            if r == z3.unsat:
                self.trace.append(("i", v))
            else:
                self.alts.append(self.trace + [("!", v)])
                self.trace.append(("=", v))
                self.add(e == v)
            break
        self.memo[key] = (e, v)
        return v

    def sym_hash(self, x):
        # constant per-explorer: dict/set membership then decided by __eq__
        return 0x5EED

    def stash(self, x):
        self.stashed.append(x)
        return len(self.stashed) - 1

    # -- uninterpreted helpers
    def div(self, x, y):
        x = z3.simplify(x)
        y = z3.simplify(y)
        key = ("div", x.get_id(), y.get_id())
        hit = self.memo.get(key)
        if hit is None:
            hit = (x, y, R(x / y))
            self.memo[key] = hit
        return hit[2]

    def fresh(self, base, sort="r"):
        self.n += 1
        nm = f"{base}!{self.n}"
        return z3.Real(nm) if sort == "r" else z3.Int(nm)

    def fresh_sqrt(self, x):
        if x.is_const and isinstance(x.e, float):
            return R(math.sqrt(x.e) if x.e == x.e and x.e > 0 else NAN)
        if bool(x < 0):
            return R(NAN)
        e = z3.simplify(ze(x))
        key = ("sqrt", e.get_id())
        hit = self.memo.get(key)
        if hit is None:
            s = self.fresh("sqrt")
            # a definition: does not restrict the other variables, added when the root occurs in a query
            self.lazy[s.get_id()] = (s, z3.And(s >= 0, s * s == e))
            poly.sqrt_of(s, e)
            self.bounds.root(s, e)
            hit = (e, R(s))
            self.memo[key] = hit
        return hit[1]

    def fun(self, name, x):
        if x.is_const:
            v = float(x.e)
            if name == "exp":
                return R(math.exp(v)) if v != 0 else R(1)
            if name == "log":
                if v == 1:
                    return R(0)
                return R(math.log(v) if v > 0 else (-math.inf if v == 0 else NAN))
        e = z3.simplify(ze(x))
        key = (name, e.get_id())
        hit = self.memo.get(key)
        if hit is None:
            f = z3.Function(name, z3.RealSort(), z3.RealSort())
            r = f(e)
            if name == "exp":
                self.add(r > 0)
                self.add(z3.Implies(e < 0, r < 1))
                self.add(z3.Implies(e == 0, r == 1))
                self.add(z3.Implies(e > 0, r > 1))
                self.model = None
            hit = (e, R(r))
            self.memo[key] = hit
        return hit[1]

    def log2(self, x):
        if x.is_const and isinstance(x.e, Fraction):
            from . import logs
            return logs.log2(self, x.e)
        return self.fun("log2", x)
