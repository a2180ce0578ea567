"""Eigenvectors of a stochastic matrix: contract for irreducible chains.

The matrix given is the transpose of a row-stochastic matrix of a strongly
connected chain.  Its eigenvalue of largest real part is 1 and simple, with
eigenvector proportional (any non-zero factor, any sign) to the cofactors of
I - T (matrix-tree theorem).  Other eigenvalues are only known to lie in
[-1, 1); their vectors are arbitrary.
"""
from __future__ import annotations

import numpy as np
import z3

from . import engine, symnp
from .engine import R, Unsupported, ze
from .stubs_expm import dense_of


def det(M):
    if not M:
        return R(1)
    if len(M) == 1:
        return R(M[0][0])
    t = R(0)
    for j, x in enumerate(M[0]):
        m = det([[r[k] for k in range(len(r)) if k != j] for r in M[1:]])
        t = t + (R(x) * m if j % 2 == 0 else -(R(x) * m))
    return t


def stationary(At):
    D = symnp.p_asarray(dense_of(At))
    n = D.shape[0]
    nz = [[bool(D[i, j] != 0) for j in range(n)] for i in range(n)]
    reach = np.array(nz) | np.eye(n, dtype=bool)
    for k in range(n):
        reach |= np.outer(reach[:, k], reach[k, :])
    if not reach.all():
        raise Unsupported("eigenvectors of a chain that is not strongly connected")
    L = [[(R(1) if i == j else R(0)) - D[j, i] for j in range(n)] for i in range(n)]
    ex = engine.cur()
    for r in L:
        s = z3.simplify(sum((ze(x) for x in r), z3.RealVal(0)), som=True)
        from . import poly
        if not poly.is_zero(s) and ex.check(s != 0) != z3.unsat:
            raise Unsupported("eigenvectors of a matrix that is not stochastic")
    c = ex.real("eig_scale")
    ex.assume(z3.Or(ze(c) > z3.RealVal("1/100"), ze(c) < z3.RealVal("-1/100")))
    return n, [c * det([[L[i][j] for j in range(n) if j != k] for i in range(n) if i != k]) for k in range(n)], ex


def bipartite(At):
    """period 2: -1 is an eigenvalue of the same modulus"""
    D = symnp.p_asarray(dense_of(At))
    n = D.shape[0]
    col = {0: 0}
    for _ in range(n):
        for i in range(n):
            for j in range(n):
                if bool(D[i, j] != 0):
                    for a, b in ((i, j), (j, i)):
                        if a in col:
                            if col.setdefault(b, 1 - col[a]) == col[a]:
                                return False
    return True


def eigs(A, k=6, which="LM", **kw):
    if k != 1 or which not in ("LR", "LM"):
        raise Unsupported("eigs")
    n, v, ex = stationary(A)
    if which == "LM" and bipartite(A) and bool(ex.flag("eig_minus")):
        return (symnp.tosym(np.array([R(-1)], dtype=object)),
                symnp.tosym(np.array([ex.real(f"eig_v{i}", -1, 1) for i in range(n)], dtype=object).reshape(n, 1)))
    return symnp.tosym(np.array([R(1)], dtype=object)), symnp.tosym(np.array(v, dtype=object).reshape(n, 1))


def eig(A, *a, **k):
    n, v, ex = stationary(A)
    at = int(ex.int("eig_at", 0, n - 1)) if n > 1 else 0
    w, V = [], np.empty((n, n), dtype=object)
    for j in range(n):
        if j == at:
            w.append(R(1))
            V[:, j] = v
        else:
            x = ex.real(f"eig_w{j}", -1, None)
            ex.assume(ze(x) < z3.RealVal("99/100"))
            w.append(x)
            for i in range(n):
                V[i, j] = ex.real(f"eig_v{i}_{j}", -1, 1)
    return symnp.tosym(np.array(w, dtype=object)), symnp.tosym(V)


def install(S):
    S["scipy.sparse.linalg.eigs"] = eigs
    S["linalg.eig"] = eig
