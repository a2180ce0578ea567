"""Harness contexts.  The same harness function runs symbolically (SymCx) and
concretely against the real build (RealCx)."""
from __future__ import annotations

import math
import os
import random
from fractions import Fraction

import numpy as np

TOL = 1e-7
WEAK = "1/50000"     # smallest violation looked for when none exceeds 1/1000


class Violation(Exception):
    def __init__(self, label, detail=""):
        super().__init__(f"{label}: {detail}")
        self.label = label
        self.detail = detail


class SkipPath(BaseException):
    pass


def _dense(cx, x):
    """anything matrix-like -> list-of-lists shaped ndarray"""
    if hasattr(x, "to_full_mat"):
        x = x.to_full_mat()
    if hasattr(x, "toarray"):
        x = x.toarray()
    if hasattr(x, "arr") and type(x).__name__ == "MV":
        x = x.arr
    return cx.np.asarray(x)


class Base:
    def dense(self, x):
        return _dense(self, x)

    def reals(self, name, n, lo=None, hi=None):
        return [self.real(f"{name}{i}", lo, hi) for i in range(n)]

    def int(self, name, lo, hi):
        raise NotImplementedError

    def choose(self, name, opts):
        opts = list(opts)
        if len(opts) == 1:
            return opts[0]
        return opts[self.int(name, 0, len(opts) - 1)]

    def flag(self, name):
        return bool(self.int(name, 0, 1))

    def mod(self, name):
        raise NotImplementedError

    def eq(self, label, a, b):
        raise NotImplementedError

    def call(self, label, fn, *a, raises=(), **k):
        return fn(*a, **k)

    _dirs = ()

    def scratch(self):
        """a new empty directory, removed at the end of the path"""
        import os
        import tempfile
        base = os.environ.get("FSV_SCRATCH") or tempfile.gettempdir()
        d = tempfile.mkdtemp(prefix="fsv-", dir=base)
        self._dirs = (*self._dirs, d)
        return d

    def drop_scratch(self):
        import shutil
        for d in self._dirs:
            shutil.rmtree(d, ignore_errors=True)
        self._dirs = ()


# ------------------------------------------------------------------ symbolic
class SymCx(Base):
    sym = True

    def __init__(self, ex, known=()):
        from . import symnp, symload
        import scipy.sparse as sp
        self.ex = ex
        self.np = symnp.NP
        self.sp = sp
        self._load = symload.load
        self.results = []      # (label, status, model|None)
        self.notes = []
        self.nchecks = 0
        self.ncheck_solver = 0
        self.known = set(known)

    def mod(self, name):
        return self._load("flowstab." + name)

    def cy(self, name):
        from . import symload
        return symload.load_cy(name)

    def variant(self, name, without=(), consts=()):
        """the module as it is when the optional packages ``without`` are not installed, with integer
        constants ``consts`` = ((module, old, new), ...) read as other values (size thresholds)"""
        from . import symload
        return symload.load_variant("flowstab." + name, without, consts)

    def script(self, name, argv):
        """the command-line script, freshly loaded with these arguments"""
        import sys
        from . import symload
        full = "flowstab.scripts." + name
        symload.LOADED.pop(full, None)
        sys.modules.pop(full, None)
        old = sys.argv
        sys.argv = [name, *argv]
        try:
            return self._load(full)
        except SystemExit as e:
            raise ValueError(f"arguments refused: {e}") from None
        finally:
            sys.argv = old

    def text(self, x):
        """a number as the text of a command-line argument"""
        from .symload import Text
        return Text.of(x)

    def no_ties(self, eps):
        """context in which no two computed numbers that are compared for equality are within eps"""
        import contextlib

        @contextlib.contextmanager
        def ctx():
            self.ex.noties = zq(str(Fraction(eps)))
            try:
                yield
            finally:
                self.ex.noties = None
        return ctx()

    def active(self, without=(), consts=()):
        """context in which the variant is the package other processes would import"""
        import contextlib
        return contextlib.nullcontext()

    def real(self, name, lo=None, hi=None):
        return self.ex.real(name, lo, hi)

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        return int(self.ex.int(name, lo, hi))

    def sint(self, name, lo, hi):
        return self.ex.int(name, lo, hi)

    def array(self, x):
        return self.np.array(x, dtype=np.float64)

    def assume(self, c):
        from .engine import zb
        if isinstance(c, (bool, np.bool_)):
            if not c:
                from .engine import PathAbort
                raise PathAbort
            return
        self.ex.assume(zb(c))

    def val(self, x):
        return x

    # -- assertions
    def _sat(self, neg, label, strong=None):
        import z3
        ex = self.ex
        self.ncheck_solver += 1
        neg = z3.simplify(neg)
        strong, weak = strong if isinstance(strong, tuple) else (strong, None)
        if z3.is_false(neg):
            return
        r = ex.check(neg, timeout=ex.timeout_ms * 3)
        if r == z3.unsat:
            return
        if r == z3.unknown:
            self.results.append((label, "unknown", None))
            # try to get a model at least of a strong violation with a fresh solver
            m = None
            if strong is not None and ex.check(strong, timeout=ex.timeout_ms) == z3.sat:
                m = self.model_of(ex.solver.model())
                self.results.append((label, "cex", m))
                raise CexFound(label)
            return
        m = ex.solver.model()
        if strong is not None:
            r2 = ex.check(strong)
            if r2 == z3.unsat and weak is not None:
                strong = weak
                r2 = ex.check(strong)
            if r2 == z3.sat:
                m = ex.solver.model()
            else:
                self.notes.append(f"{label}: only violated below the reporting tolerance")
                if r2 == z3.unsat:
                    ex.assume(z3.Not(neg))
                    return
        m0 = self.model_of(m)
        m = ex.robust_model(strong if strong is not None else neg)
        if m is not None:
            self.results.append((label, "cex", self.model_of(m)))
        self.results.append((label, "cex", m0))
        raise CexFound(label)

    def model_of(self, m):
        import z3
        out = {}
        for n, v in self.ex.vars.items():
            val = m.eval(v, model_completion=True)
            if z3.is_int_value(val):
                out[n] = str(val.as_long())
            elif z3.is_rational_value(val):
                f = val.as_fraction()
                out[n] = f"{f.numerator}/{f.denominator}"
            elif z3.is_algebraic_value(val):
                f = val.approx(20).as_fraction()
                out[n] = f"{f.numerator}/{f.denominator}"
            elif z3.is_true(val) or z3.is_false(val):
                out[n] = "1" if z3.is_true(val) else "0"
        return out

    def final_model(self):
        import z3
        ex = self.ex
        m = ex.robust_model()
        if m is not None:
            return self.model_of(m)
        if ex.model is None:
            if ex.check() != z3.sat:
                return None
            ex.model = ex.solver.model()
        return self.model_of(ex.model)

    def fail(self, label, detail=""):
        m = self.final_model()
        self.results.append((label, "cex" if m is not None else "unknown", m))
        raise CexFound(label)

    def check(self, label, c, detail=""):
        import z3
        from .engine import SB
        self.nchecks += 1
        if isinstance(c, (bool, np.bool_)):
            if not c:
                self.fail(label, detail)
            return
        if isinstance(c, SB):
            c = c.e
        self._sat(z3.Not(c), label)

    def _flat(self, x):
        from .engine import R
        if hasattr(x, "to_full_mat") or hasattr(x, "toarray") or type(x).__name__ == "MV":
            x = self.dense(x)
        if isinstance(x, np.ndarray):
            return tuple(x.shape), list(np.asarray(x.view(np.ndarray)).reshape(-1))
        if isinstance(x, (list, tuple)):
            a = self.np.asarray(x)
            return tuple(a.shape), list(np.asarray(a.view(np.ndarray)).reshape(-1))
        return (), [x]

    def eq(self, label, a, b, tol=None):
        """a == b elementwise, exactly over the reals."""
        import z3
        from . import poly
        from .engine import R, ze
        self.nchecks += 1
        sa, fa = self._flat(a)
        sb, fb = self._flat(b)
        if sa != sb:
            self.fail(label, f"shape {sa} != {sb}")
        neg, strong, weak = [], [], []
        for x, y in zip(fa, fb):
            x, y = R(x), R(y)
            if not x.finite or not y.finite:
                if x.is_const and y.is_const and (x.e == y.e or (x.e != x.e and y.e != y.e)):
                    continue
                self.fail(label, f"{x} vs {y}")
            d = z3.simplify(ze(x) - ze(y), som=True)
            if z3.is_rational_value(d):
                if abs(d.as_fraction()) <= Fraction(1, 10**10):   # rounding of concrete float constants
                    continue
                self.fail(label, f"{x} vs {y}")
            if poly.is_zero(ze(x) - ze(y)):
                continue
            neg.append(d != 0)
            strong.append(z3.Or(d > zq("1/1000"), d < zq("-1/1000")))
            weak.append(z3.Or(d > zq(WEAK), d < zq("-" + WEAK)))
        if not neg:
            return
        self._sat(z3.Or(*neg) if len(neg) > 1 else neg[0], label,
                  (z3.Or(*strong), z3.Or(*weak)))

    def le(self, label, a, b):
        import z3
        from .engine import R, ze
        self.nchecks += 1
        _, fa = self._flat(a)
        _, fb = self._flat(b)
        if len(fb) == 1:
            fb = fb * len(fa)
        if len(fa) == 1:
            fa = fa * len(fb)
        neg, strong, weak = [], [], []
        for x, y in zip(fa, fb):
            x, y = R(x), R(y)
            if not x.finite or not y.finite:
                if x.is_const and y.is_const and x.e <= y.e:
                    continue
                if not x.finite and x.e == -math.inf or not y.finite and y.e == math.inf:
                    continue
                self.fail(label, f"{x} vs {y}")
            if x.is_const and y.is_const:
                if x.e > y.e + Fraction(1, 10**10):
                    self.fail(label, f"{x} > {y}")
                continue
            d = ze(x) - ze(y)
            neg.append(d > 0)
            strong.append(d > zq("1/1000"))
            weak.append(d > zq(WEAK))
        if neg:
            self._sat(z3.Or(*neg), label, (z3.Or(*strong), z3.Or(*weak)))

    def ge(self, label, a, b):
        self.le(label, b, a)

    def raises(self, label, exc, fn, *a, **k):
        self.nchecks += 1
        try:
            fn(*a, **k)
        except exc:
            return
        except CexFound:
            raise
        self.fail(label, "no exception")

    # real-valued comparison in oracles: stays symbolic
    def ite(self, c, a, b):
        import z3
        from .engine import R, SB, ze
        if isinstance(c, SB):
            return R(z3.If(c.e, ze(a), ze(b)))
        return a if c else b

    def And(self, *cs):
        import z3
        from .engine import zb, mk_bool
        return mk_bool(z3.simplify(z3.And(*[zb(c) for c in cs])))

    def Or(self, *cs):
        import z3
        from .engine import zb, mk_bool
        return mk_bool(z3.simplify(z3.Or(*[zb(c) for c in cs])))

    def Not(self, c):
        import z3
        from .engine import zb, mk_bool
        return mk_bool(z3.simplify(z3.Not(zb(c))))

    def Implies(self, a, b):
        return self.Or(self.Not(a), b)

    def holds(self, label, fn, margin="1/1000"):
        """fn(eps): the condition relaxed by eps.  Decided exactly (eps=0); counterexamples are
        looked for that violate it by a margin first, so that they survive rounding."""
        import z3
        from .engine import SB, zb
        self.nchecks += 1
        c = fn(0)
        if isinstance(c, (bool, np.bool_)):
            if not c:
                self.fail(label)
            return
        w = fn(Fraction(margin))
        self._sat(z3.Not(zb(c)), label, (z3.Not(zb(w)), z3.Not(zb(fn(Fraction(WEAK))))))

    def leq(self, a, b):
        return a <= b

    def close(self, a, b):
        return self.And(a <= b, a >= b)

    def truth(self, c):
        return bool(c)

    def lazy_minmax(self):
        """the smallest and largest entry of an array are terms, not case distinctions"""
        self.ex.lazy_minmax = True

    def script_rng(self, limit=None, per_seed=None, cycle=False):
        """every random draw (or the first ``limit`` index draws, or the first ``per_seed`` of every
        generator) is an input of the check"""
        self.ex.rng_limit = limit
        self.ex.rng_per_seed = per_seed
        self.ex.rng_cycle = cycle

    def expon(self, fn):
        from . import symnp
        symnp.STUBS["scipy.stats.expon.rvs"] = fn

    def expm(self, A):
        """the matrix exponential (its contract; see stubs_expm)"""
        from . import stubs_expm, symnp
        return stubs_expm.expm(symnp.tosym(np.array(A, dtype=object)))

    def log2(self, a, b=1):
        """log2(a/b) of integers"""
        from .engine import R
        return R(Fraction(a, b)).log2()

    def stub(self, name, fn):
        from . import symnp
        symnp.STUBS[name] = fn


class CexFound(BaseException):
    pass


_ZQ = {}


def zq(s):
    import z3
    if s not in _ZQ:
        _ZQ[s] = z3.RealVal(s)
    return _ZQ[s]


_VARIANTS = {}


class _Rescaled:
    """imports modules of the package with some integer constants replaced"""

    def __init__(self, consts):
        self.c = {}
        for m, old, new in consts:
            self.c.setdefault("flowstab." + m, {})[old] = new

    def find_spec(self, name, path=None, target=None):
        if name not in self.c:
            return None
        import importlib.machinery
        spec = importlib.machinery.PathFinder.find_spec(name, path)
        consts = self.c[name]

        class Loader(importlib.machinery.SourceFileLoader):
            def source_to_code(self, data, path, *, _optimize=-1):
                from .rescale import rescale
                return rescale(data, path, consts)

            def get_code(self, fullname):
                p = self.get_filename(fullname)
                return self.source_to_code(self.get_data(p), p)
        spec.loader = Loader(name, spec.origin)
        return spec


# ------------------------------------------------------------------ concrete
class RealCx(Base):
    sym = False

    def __init__(self, model=None, rng=None):
        import scipy.sparse as sp
        self.model = model or {}
        self.rng = rng
        self.np = np
        self.sp = sp
        self.vals = {}
        self.nchecks = 0
        self.notes = []
        self.cnt = {}

    def _get(self, name):
        return self.model.get(name)

    def mod(self, name):
        import importlib
        return importlib.import_module("flowstab." + name)

    def cy(self, name):
        import importlib
        return importlib.import_module(name)

    def script(self, name, argv):
        import importlib
        import sys
        full = "flowstab.scripts." + name
        sys.modules.pop(full, None)
        old = sys.argv
        sys.argv = [name, *argv]
        try:
            return importlib.import_module(full)
        except SystemExit as e:
            raise ValueError(f"arguments refused: {e}") from None
        finally:
            sys.argv = old

    def text(self, x):
        return repr(float(x))

    def no_ties(self, eps):
        import contextlib
        return contextlib.nullcontext()

    def active(self, without=(), consts=()):
        import contextlib
        import sys
        mods = _VARIANTS[(tuple(sorted(without)), tuple(consts))]

        @contextlib.contextmanager
        def ctx():
            keep = {k: v for k, v in sys.modules.items() if k == "flowstab" or k.startswith("flowstab.")}
            for k in keep:
                sys.modules.pop(k)
            sys.modules.update(mods)
            try:
                yield
            finally:
                for k in [k for k in sys.modules if k == "flowstab" or k.startswith("flowstab.")]:
                    sys.modules.pop(k)
                sys.modules.update(keep)
        return ctx()

    def variant(self, name, without=(), consts=()):
        import importlib
        import importlib.util
        import sys
        mods = _VARIANTS.setdefault((tuple(sorted(without)), tuple(consts)), {})

        def mine(k):
            return k == "flowstab" or k.startswith("flowstab.")
        full = "flowstab." + name
        if full not in mods:
            keep = {k: v for k, v in sys.modules.items() if mine(k)}
            find = importlib.util.find_spec
            try:
                for k in keep:
                    sys.modules.pop(k)
                sys.modules.update(mods)
                importlib.util.find_spec = lambda n, *a: None if n in without else find(n, *a)
                if consts:
                    sys.meta_path.insert(0, _Rescaled(consts))
                importlib.import_module(full)
            finally:
                sys.meta_path[:] = [f for f in sys.meta_path if not isinstance(f, _Rescaled)]
                importlib.util.find_spec = find
                for k in [k for k in sys.modules if mine(k)]:
                    mods[k] = sys.modules.pop(k)
                sys.modules.update(keep)
        return mods[full]

    def real(self, name, lo=None, hi=None):
        v = self._get(name)
        if v is None:
            if self.rng is not None:
                l = float(lo) if lo is not None else -2.0
                h = float(hi) if hi is not None else max(l + 2.0, 2.0)
                x = l + (h - l) * self.rng.randrange(0, 65) / 64.0
            else:
                x = float(lo) if lo is not None else 0.0
        else:
            x = float(Fraction(v))
        self.vals[name] = x
        return x

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        # names are made unique in the same way as the explorer does
        v = self._get(name)
        if v is None:
            x = self.rng.randint(lo, hi) if self.rng is not None else lo
        else:
            x = int(Fraction(v))
        x = min(max(x, lo), hi)
        self.vals[name] = x
        return x

    sint = int

    def array(self, x):
        return np.array(x, dtype=np.float64)

    def assume(self, c):
        if not bool(c):
            raise SkipPath

    def val(self, x):
        return x

    def fail(self, label, detail=""):
        raise Violation(label, detail)

    def check(self, label, c, detail=""):
        self.nchecks += 1
        if not bool(c):
            raise Violation(label, detail)

    def _arr(self, x):
        return np.asarray(self.dense(x), dtype=float)

    def eq(self, label, a, b, tol=None):
        self.nchecks += 1
        a, b = self._arr(a), self._arr(b)
        if a.shape != b.shape:
            raise Violation(label, f"shape {a.shape} != {b.shape}")
        t = tol or TOL
        if not np.allclose(a, b, rtol=t, atol=t, equal_nan=True):
            raise Violation(label, f"\n{a}\n!=\n{b}")

    def le(self, label, a, b):
        self.nchecks += 1
        a, b = self._arr(a), self._arr(b)
        if not np.all(a <= b + TOL * (1 + np.abs(b))):
            raise Violation(label, f"{a} > {b}")

    def ge(self, label, a, b):
        self.le(label, b, a)

    def raises(self, label, exc, fn, *a, **k):
        self.nchecks += 1
        try:
            fn(*a, **k)
        except exc:
            return
        raise Violation(label, "no exception raised")

    def ite(self, c, a, b):
        return a if c else b

    def And(self, *cs):
        return all(bool(c) for c in cs)

    def Or(self, *cs):
        return any(bool(c) for c in cs)

    def Not(self, c):
        return not bool(c)

    def Implies(self, a, b):
        return (not a) or bool(b)

    def holds(self, label, fn, margin=None):
        self.nchecks += 1
        if not bool(fn(TOL)):
            raise Violation(label, "")

    def leq(self, a, b):
        return float(a) <= float(b) + TOL * (1 + abs(float(b)))

    def close(self, a, b):
        return self.leq(a, b) and self.leq(b, a)

    def truth(self, c):
        return bool(c)

    undo = ()

    def patch(self, obj, name, val):
        self.undo = list(self.undo) + [(obj, name, getattr(obj, name))]
        setattr(obj, name, val)

    def cleanup(self):
        self.drop_scratch()
        for o, n, v in reversed(list(self.undo)):
            setattr(o, n, v)
        self.undo = ()

    def expon(self, fn):
        """scipy's exponential distribution draws fn(loc, scale)"""
        import scipy.stats
        self.patch(scipy.stats.expon, "rvs", lambda loc=0, scale=1, size=None, random_state=None: fn(loc, scale))

    def lazy_minmax(self):
        pass

    def script_rng(self, limit=None, per_seed=None, cycle=False):
        """numpy's generators replaced by one that plays back the inputs"""
        from .rng import make_rng
        cnt = [0]

        def pick(name, n):
            if per_seed is not None:
                k = int(name.split("_")[2])
                return (k % n if cycle else 0) if k >= per_seed else self.int(name, 0, n - 1)
            cnt[0] += 1
            return 0 if limit is not None and cnt[0] > limit else self.int(name, 0, n - 1)
        RS, glob = make_rng(pick, lambda name, lo, hi: self.real(name, lo, hi),
                            lambda xs: np.array(list(xs), dtype=float))
        un = [0]

        def urandom(k):
            un[0] += 1
            return un[0].to_bytes(k, "big")
        self.patch(os, "urandom", urandom)
        self.patch(np.random, "RandomState", RS)
        self.patch(np.random, "default_rng", RS)
        for n in ("seed", "choice", "shuffle", "permutation", "rand", "random", "randint", "random_sample",
                  "uniform", "exponential"):
            self.patch(np.random, n, getattr(glob, n))

    def expm(self, A):
        from scipy.linalg import expm
        return expm(np.array(A, dtype=float))

    def log2(self, a, b=1):
        return math.log2(a / b)

    def stub(self, name, fn):
        pass
