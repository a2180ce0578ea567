"""Interval bounds of terms on a path: decides comparisons whose answer follows
from the ranges of the variables without a (nonlinear) solver query."""
from __future__ import annotations

import math
from fractions import Fraction

import z3

INF = math.inf
TOP = (-INF, True, INF, True)        # lo, lo excluded, hi, hi excluded


def _num(e):
    if z3.Z3_get_ast_kind(e.ctx.ref(), e.ast) != z3.Z3_NUMERAL_AST:
        return None
    if z3.is_rational_value(e):
        return e.as_fraction()
    if z3.is_int_value(e):
        return Fraction(e.as_long())
    return None


def _mul1(a, b):
    if a == 0 or b == 0:
        return Fraction(0)
    return a * b


def _mul(x, y):
    c = []
    for a, ao in ((x[0], x[1]), (x[2], x[3])):
        for b, bo in ((y[0], y[1]), (y[2], y[3])):
            v = _mul1(a, b)
            # an excluded end point makes the product's end excluded, unless the other factor may be 0 there
            o = (ao or bo)
            if v == 0:
                o = (a == 0 and ao and (b != 0 or bo)) or (b == 0 and bo and (a != 0 or ao))
                if (a == 0 and not ao) or (b == 0 and not bo):
                    o = False
            c.append((v, o))
    lo = min(v for v, _ in c)
    hi = max(v for v, _ in c)
    lo_o = all(o for v, o in c if v == lo)
    hi_o = all(o for v, o in c if v == hi)
    # 0 inside a factor
    if lo == 0 and _has0(x, y):
        lo_o = False
    if hi == 0 and _has0(x, y):
        hi_o = False
    return (lo, lo_o, hi, hi_o)


def has0(x):
    lo, lo_o, hi, hi_o = x
    return (lo < 0 or (lo == 0 and not lo_o)) and (hi > 0 or (hi == 0 and not hi_o))


def _has0(x, y):
    return has0(x) or has0(y)


def _add(x, y):
    return (x[0] + y[0], x[1] or y[1], x[2] + y[2], x[3] or y[3])


def _neg(x):
    return (-x[2], x[3], -x[0], x[1])


def _meet(x, y):
    lo, lo_o = max((x[0], x[1]), (y[0], y[1]))
    hi, hn = min((x[2], not x[3]), (y[2], not y[3]))
    return (lo, lo_o, hi, not hn)


def _affine(e):
    k = e.decl().kind()
    if k == z3.Z3_OP_ADD:
        return all(_affine(c) for c in e.children())
    if k == z3.Z3_OP_MUL:
        return e.num_args() == 2 and _num(e.arg(0)) is not None and _affine(e.arg(1))
    if k == z3.Z3_OP_UNINTERPRETED:
        return e.num_args() == 0 and z3.is_real(e)
    return _num(e) is not None


def _linear(e):
    k = e.decl().kind()
    if k == z3.Z3_OP_NOT:
        return _linear(e.arg(0))
    if k == z3.Z3_OP_AND:
        return all(_linear(c) for c in e.children())
    if k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
        return _affine(e.arg(0)) and _affine(e.arg(1))
    if k == z3.Z3_OP_EQ:
        return z3.is_real(e.arg(0)) and _affine(e.arg(0)) and _affine(e.arg(1))
    return False


class Bounds:
    def __init__(self):
        self.b = {}
        self.memo = {}
        self.keep = []
        self.sq = {}
        self.lin = None          # solver holding the linear constraints of the path
        self.nlin = 0
        self.pending = []

    def note(self, e):
        """a constraint of the path; linear ones are used for affine forms"""
        self.pending.append(e)

    def _lin(self):
        for e in self.pending:
            if _linear(e):
                if self.lin is None:
                    self.lin = z3.SolverFor("QF_LRA")
                    self.lin.set("timeout", 300)
                self.lin.add(e)
        self.pending.clear()
        return self.lin

    def learn(self, e, pos=True, depth=0):
        if depth > 6:
            return
        k = e.decl().kind()
        if k == z3.Z3_OP_NOT:
            return self.learn(e.arg(0), not pos, depth + 1)
        if (k == z3.Z3_OP_AND and pos) or (k == z3.Z3_OP_OR and not pos):
            for c in e.children():
                self.learn(c, pos, depth + 1)
            return
        if k not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ):
            return
        a, b = e.arg(0), e.arg(1)
        if k == z3.Z3_OP_EQ and not (pos and z3.is_arith(a)):
            return
        va, vb = _num(a), _num(b)
        if (va is None) == (vb is None):
            return
        op = {z3.Z3_OP_LE: "<=", z3.Z3_OP_GE: ">=", z3.Z3_OP_LT: "<", z3.Z3_OP_GT: ">", z3.Z3_OP_EQ: "="}[k]
        if va is not None:
            a, vb = b, va
            op = {"<=": ">=", ">=": "<=", "<": ">", ">": "<", "=": "="}[op]
        if not pos:
            op = {"<=": ">", ">=": "<", "<": ">=", ">": "<="}[op]
        if op == "=":
            n = (vb, False, vb, False)
        elif op[0] == "<":
            n = (-INF, True, vb, op == "<")
        else:
            n = (vb, op == ">", INF, True)
        # -1*x <= c
        if a.decl().kind() == z3.Z3_OP_MUL and a.num_args() == 2:
            c = _num(a.arg(0))
            if c is not None and c != 0:
                n = _mul(n, (1 / c, False, 1 / c, False))
                a = a.arg(1)
        i = a.get_id()
        old = self.b.get(i, TOP)
        new = _meet(old, n)
        if new != old:
            self.b[i] = new
            self.keep.append(a)
            self.memo.clear()

    def learned(self, e):
        self.note(e)
        self.learn(e)
        self.memo.clear()

    def root(self, s, e):
        self.sq[s.get_id()] = e
        self.keep += [s, e]

    def of(self, e, depth=0):
        i = e.get_id()
        r = self.memo.get(i)
        if r is None:
            r = self._of(e, depth)
            if i in self.b:
                r = _meet(r, self.b[i])
            self.memo[i] = r
            self.keep.append(e)
        return r

    def _of(self, e, depth):
        v = _num(e)
        if v is not None:
            return (v, False, v, False)
        if depth > 40:
            return TOP
        k = e.decl().kind()
        if k == z3.Z3_OP_ADD:
            r = (Fraction(0), False, Fraction(0), False)
            for c in e.children():
                r = _add(r, self.of(c, depth + 1))
                if r[0] == -INF and r[2] == INF:
                    break
            if r[0] <= 0 <= r[2] and _affine(e) and self._lin() is not None:
                # sign of an affine form under the linear constraints
                zero = z3.RealVal(0)
                self.nlin += 2
                if self.lin.check(e <= zero) == z3.unsat:
                    r = _meet(r, (Fraction(0), True, INF, True))
                elif self.lin.check(e >= zero) == z3.unsat:
                    r = _meet(r, (-INF, True, Fraction(0), True))
            return r
        if k == z3.Z3_OP_SUB:
            c = e.children()
            r = self.of(c[0], depth + 1)
            for x in c[1:]:
                r = _add(r, _neg(self.of(x, depth + 1)))
            return r
        if k == z3.Z3_OP_UMINUS:
            return _neg(self.of(e.arg(0), depth + 1))
        if k == z3.Z3_OP_MUL:
            c = e.children()
            # equal factors are squares
            r = (Fraction(1), False, Fraction(1), False)
            n = 0
            while n < len(c):
                x = self.of(c[n], depth + 1)
                if n + 1 < len(c) and c[n].get_id() == c[n + 1].get_id():
                    sq = _mul(x, x)
                    x = _meet(sq, (Fraction(0), not has0(x), INF, True))
                    n += 1
                n += 1
                r = _mul(r, x)
            return r
        if k == z3.Z3_OP_DIV:
            a, b = self.of(e.arg(0), depth + 1), self.of(e.arg(1), depth + 1)
            if has0(b) or (b[0] < 0 < b[2]):
                return TOP
            if b[2] <= 0:
                a, b = _neg(a), _neg(b)
            inv = (Fraction(0) if b[2] == INF else 1 / Fraction(b[2]), b[3] or b[2] == INF,
                   INF if b[0] == 0 else 1 / Fraction(b[0]), b[1] or b[0] == 0)
            return _mul(a, inv)
        if k == z3.Z3_OP_TO_REAL:
            return self.of(e.arg(0), depth + 1)
        if k == z3.Z3_OP_ITE:
            x, y = self.of(e.arg(1), depth + 1), self.of(e.arg(2), depth + 1)
            lo, lo_o = min((x[0], x[1]), (y[0], y[1]))
            hi, hn = max((x[2], not x[3]), (y[2], not y[3]))
            return (lo, lo_o, hi, not hn)
        if e.get_id() in self.sq:
            x = self.of(self.sq[e.get_id()], depth + 1)
            return (Fraction(0), x[0] > 0 or (x[0] == 0 and x[1]), INF, True)
        return TOP

    def decide(self, e):
        """truth of a comparison, or None"""
        k = e.decl().kind()
        if k == z3.Z3_OP_NOT:
            r = self.decide(e.arg(0))
            return None if r is None else not r
        if k == z3.Z3_OP_AND or k == z3.Z3_OP_OR:
            want = k == z3.Z3_OP_OR
            rs = [self.decide(c) for c in e.children()]
            if want in rs:
                return want
            return (not want) if all(r is (not want) for r in rs) else None
        if k not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ):
            return None
        a, b = e.arg(0), e.arg(1)
        if not z3.is_arith(a):
            return None
        x, y = self.of(a), self.of(b)
        if k == z3.Z3_OP_GE or k == z3.Z3_OP_GT:
            x, y = y, x
            k = z3.Z3_OP_LE if k == z3.Z3_OP_GE else z3.Z3_OP_LT
        lt = x[2] < y[0] or (x[2] == y[0] and (x[3] or y[1]))        # always x < y
        gt = y[2] < x[0] or (y[2] == x[0] and (y[3] or x[1]))
        if k == z3.Z3_OP_EQ:
            return False if (lt or gt) else None
        if k == z3.Z3_OP_LT:
            if lt:
                return True
            return False if y[2] <= x[0] else None
        if x[2] <= y[0]:
            return True
        return False if gt else None
