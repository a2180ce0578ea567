"""expm as an uninterpreted function with its contract.

The argument is split into the blocks of weakly connected nodes; expm of a
block is a matrix of fresh variables, the same for equal blocks (compared as
polynomials, coefficients to 1e-9).  For a block whose rows all sum to zero (a
generator) every entry is positive and the rows sum to one.  Between blocks the
result is zero, and expm(0) = 1 for a single node without rate.
"""
from __future__ import annotations

from fractions import Fraction

import numpy as np
import z3

from . import engine, symnp
from .engine import R, Unsupported, ze
from .poly import poly

ROUND = 10 ** 9


def dense_of(A):
    if hasattr(A, "toarray"):
        return A.toarray()
    return symnp.p_asarray(A)


def clean(p):
    """coefficients rounded to 1e-9"""
    if p is None:
        raise Unsupported("argument of the matrix exponential too large")
    out = {}
    for m, v in p.items():
        r = Fraction(round(v * ROUND), ROUND)
        if r:
            out[m] = r
    return out


def norm(v):
    return tuple(sorted(clean(poly(z3.simplify(ze(R(v))))).items()))


def expm(A):
    ex = engine.cur()
    D = symnp.p_asarray(dense_of(A))
    n = D.shape[0]
    if D.shape != (n, n):
        raise ValueError("expected a square matrix")
    nz = [[bool(D[i, j] != 0) for j in range(n)] for i in range(n)]
    lab = list(range(n))
    for i in range(n):
        for j in range(n):
            if nz[i][j] and lab[i] != lab[j]:
                a, b = sorted((lab[i], lab[j]))
                lab = [a if x == b else x for x in lab]
    E = symnp.p_zeros((n, n))
    for c in sorted(set(lab)):
        ii = [i for i in range(n) if lab[i] == c]
        if len(ii) == 1 and not nz[ii[0]][ii[0]]:
            E[ii[0], ii[0]] = R(1)
            continue
        B = _block(ex, [[D[i, j] for j in ii] for i in ii])
        for a, i in enumerate(ii):
            for b, j in enumerate(ii):
                E[i, j] = B[a][b]
    return _like(A, E)


def _block(ex, D):
    n = len(D)
    key = tuple(norm(v) for r in D for v in r)
    memo = ex.__dict__.setdefault("expm_memo", {})
    if key in memo:
        return memo[key]
    idx = len(memo)
    gen = all(not clean(poly(sum((ze(R(v)) for v in r), z3.RealVal(0)))) for r in D)
    E = []
    for i in range(n):
        row, tot = [None] * n, R(0)
        for j in range(n):
            if gen and j == i:
                continue
            v = z3.Real(f"expm{idx}_{i}_{j}")
            ex.add(v > 0)
            row[j] = R(v)
            tot = tot + row[j]
        if gen:
            row[i] = R(1) - tot
            ex.add(ze(row[i]) > 0)
        E.append(row)
    ex.model = None
    memo[key] = E
    return E


def _like(A, E):
    import scipy.sparse as sp
    if sp.issparse(A):
        f = A.format if A.format in ("csr", "csc") else "csc"
        return sp.csr_matrix(E) if f == "csr" else sp.csc_matrix(E)
    return E.copy()


def install(S):
    S["scipy.sparse.linalg.expm"] = expm
    S["scipy.linalg.expm"] = expm
