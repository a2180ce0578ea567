"""Polynomial normal form of solver terms (z3's own simplifier does not always
reach it).  Non-polynomial operations are atoms."""
from __future__ import annotations

from fractions import Fraction

import z3

SMALL, BIG = 300, 6000     # monomials
LIMIT = SMALL
_memo: dict = {}
_keep: list = []
_inv: dict = {}      # polynomial -> negative id standing for its reciprocal
_sub: dict = {}     # id of a variable -> the polynomial it equals on this path
_var: set = set()    # ids of variables
_sq: dict = {}       # id of a square root -> its square (a term)


class TooBig(Exception):
    pass


def reset():
    _memo.clear()
    _keep.clear()
    _inv.clear()
    _sq.clear()
    _sub.clear()
    _var.clear()


def equation(e):
    """learns e == 0 on this path: a linear variable is replaced by the rest"""
    p = poly(e)
    if not p or len(p) > 12:
        return
    for m, c in p.items():
        if len(m) == 1 and m[0] in _var and not any(m[0] in k for k in p if k != m):
            if any(a < 0 for k in p for a in k):
                return
            _sub[m[0]] = {k: -v / c for k, v in p.items() if k != m}
            _memo.clear()
            return


def sqrt_of(s, e):
    """registers s*s == e"""
    _sq[s.get_id()] = e
    _keep.append(s)
    _keep.append(e)


def _inv_id(k):
    if k not in _inv:
        _inv[k] = -1 - len(_inv)
    return _inv[k]


def _reciprocal(p):
    """{monomial: coefficient} of 1/p"""
    if len(p) == 1:
        (m, c), = p.items()
        return {tuple(sorted(_inv_id((a,)) for a in m)): 1 / c}
    # normalised by its first coefficient
    it = sorted(p.items())
    c = it[0][1]
    return {(_inv_id(tuple((m, v / c) for m, v in it)),): 1 / c}


def _mono(m):
    """cancels x * 1/x in a monomial -> monomial"""
    if not m or m[0] >= 0:
        return m
    l = list(m)
    for a in m:
        if a >= 0:
            i = _inv.get((a,))
            if i is not None and i in l and a in l:
                l.remove(i)
                l.remove(a)
    return tuple(l)


def _times(p, q):
    if len(p) * len(q) > 4 * LIMIT:
        raise TooBig
    new = {}
    for m, v in p.items():
        for m2, v2 in q.items():
            t = _mono(tuple(sorted(m + m2)))
            new[t] = new.get(t, 0) + v * v2
    return _roots({m: v for m, v in new.items() if v})


def _roots(p):
    """s*s -> radicand"""
    if not _sq:
        return p
    for m in p:
        for a, b in zip(m, m[1:]):
            if a == b and a in _sq:
                v = p[m]
                l = list(m)
                l.remove(a)
                l.remove(a)
                rest = {k: x for k, x in p.items() if k != m}
                out = dict(_roots(rest))
                for k, x in _times({tuple(l): v}, _poly(_sq[a])).items():
                    out[k] = out.get(k, 0) + x
                return {k: x for k, x in out.items() if x}
    return p


def poly(e):
    """z3 term -> {monomial (sorted tuple of term ids): coefficient} or None if too big"""
    try:
        return _poly(e)
    except TooBig:
        return None


def _poly(e):
    i = e.get_id()
    r = _memo.get(i)
    if r is not None and not isinstance(r, int):
        return r
    if r is not None and r >= LIMIT:
        raise TooBig
    try:
        r = _calc(e, i)
        if len(r) > LIMIT:
            raise TooBig
    except TooBig:
        _memo[i] = LIMIT
        _keep.append(e)
        raise
    _memo[i] = r
    _keep.append(e)
    return r


def _calc(e, i):
    if z3.Z3_get_ast_kind(e.ctx.ref(), e.ast) == z3.Z3_NUMERAL_AST:
        f = e.as_fraction() if z3.is_rational_value(e) else Fraction(e.as_long())
        return {(): f} if f else {}
    k = e.decl().kind()
    if k == z3.Z3_OP_ADD or k == z3.Z3_OP_SUB:
        out = {}
        for q, c in enumerate(e.children()):
            sg = -1 if (k == z3.Z3_OP_SUB and q) else 1
            for m, v in _poly(c).items():
                t = out.get(m, 0) + sg * v
                if t:
                    out[m] = t
                else:
                    out.pop(m, None)
        return out
    if k == z3.Z3_OP_UMINUS:
        return {m: -v for m, v in _poly(e.children()[0]).items()}
    if k == z3.Z3_OP_MUL:
        out = {(): Fraction(1)}
        for c in e.children():
            out = _times(out, _poly(c))
        return out
    if k == z3.Z3_OP_DIV:
        a, b = e.children()
        p = _poly(b)
        if len(p) == 1 and () in p:
            return {m: v / p[()] for m, v in _poly(a).items()}
        if p:
            return _times(_poly(a), _reciprocal(p))
    if k == z3.Z3_OP_TO_REAL:
        return _poly(e.children()[0])
    if k == z3.Z3_OP_UNINTERPRETED and not e.num_args():
        _var.add(i)
        if i in _sub:
            return _resub(_sub[i])
    return {(i,): Fraction(1)}


def _resub(p):
    """replaces variables that were solved for later"""
    out = {}
    for m, v in p.items():
        t = {(): v}
        for a in m:
            t = _times(t, _resub(_sub[a]) if a in _sub else {(a,): Fraction(1)})
        for k, x in t.items():
            out[k] = out.get(k, 0) + x
    return {k: x for k, x in out.items() if x}


def const(e):
    """the value of a term that is constant as a polynomial, else None"""
    p = poly(e)
    if p is None:
        return None
    if not p:
        return Fraction(0)
    if len(p) == 1 and () in p:
        return p[()]
    return None


def _unkey(k):
    """polynomial whose reciprocal the key stands for"""
    if len(k) == 1 and not isinstance(k[0], tuple):
        return {(k[0],): Fraction(1)}
    return dict(k)


def cleared(p):
    """p multiplied by the denominators of its monomials (all non-zero where p is defined), or None if too big"""
    try:
        for _ in range(40):
            back = {i: k for k, i in _inv.items()}
            best = None
            for m in p:
                for a in m:
                    if a < 0:
                        n = m.count(a)
                        if best is None or a < best[0] or (a == best[0] and n > best[1]):
                            best = (a, n)        # newest reciprocals first: they may contain older ones
            if best is None:
                return p
            a, top = best
            q = _unkey(back[a])
            out = {}
            pw = [{(): Fraction(1)}]
            for _ in range(top):
                pw.append(_times(pw[-1], q))
            for m, v in p.items():
                n = m.count(a)
                rest = {tuple(x for x in m if x != a): v}
                for k, x in _times(rest, pw[top - n]).items():
                    t = out.get(k, 0) + x
                    if t:
                        out[k] = t
                    else:
                        out.pop(k, None)
            if len(out) > 4 * LIMIT:
                raise TooBig
            p = out
        return None
    except TooBig:
        return None


def is_zero(e, tol=Fraction(1, 10**10)):
    """the term is zero as a rational function (up to rounding of concrete float constants)"""
    global LIMIT
    LIMIT = BIG
    try:
        return _is_zero(e, tol)
    finally:
        LIMIT = SMALL


def _is_zero(e, tol):
    p = poly(e)
    if p is None:
        return False
    if all(abs(v) <= tol for v in p.values()):
        return True
    if any(a < 0 for m in p for a in m):
        p = cleared(p)
        return p is not None and all(abs(v) <= tol for v in p.values())
    return False
