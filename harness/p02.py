"""P02: conversions, normalisation, thresholding and the sparse helper products keep the matrix."""
from fsv.runner import Case
from .common import *

BUDGET = {"quick": 60, "thorough": 800}
BOUNDS = ["2-4 nodes, arbitrary or listed sparsity patterns with arbitrary real entries, arbitrary sets of active rows, "
          "arbitrary diagonal values and tolerances",
          "larger structures: 7-8 nodes with listed patterns, arbitrary values"]
OUTSIDE = ["given active rows that miss a non-diagonal row or column", "row normalisation of a compressed matrix with zero "
           "diagonal value", "for Gram and outer products the lower triangle may be left out (MKL)", "int64 index arrays"]


def stochastic(cx, name, n, pat, diag):
    """full size csr matrix: arbitrary entries on the pattern of active rows, diag elsewhere"""
    nz = subset(cx, name + "nz", n)
    rows_, cols, vals, D = [], [], [], [[0.0] * n for _ in range(n)]
    small = pattern(cx, name + "p", len(nz), len(nz), pat) if nz else []
    data, idx, ptr = [], [], [0]
    for i in range(n):
        if i in nz:
            a = nz.index(i)
            for b, j in enumerate(nz):
                if small[a][b]:
                    v = cx.real(f"{name}{i}_{j}")
                    if n >= WIDE:
                        cx.assume(cx.And(v > 0.01, v < 0.99))
                    D[i][j] = v
                    data.append(v)
                    idx.append(j)
        else:
            D[i][i] = diag
            if diag is not None and not (isinstance(diag, float) and diag == 0.0):
                data.append(diag)
                idx.append(i)
        ptr.append(len(idx))
    np = cx.np
    M = cx.sp.csr_matrix((cx.array(data), np.array(idx, dtype=np.int32), np.array(ptr, dtype=np.int32)), shape=(n, n))
    return M, D, nz


def roundtrip(cx, n, pat, diag):
    S = cx.mod("sparse_stoch_mat").SparseStochMat
    np = cx.np
    d = {"one": 1.0, "zero": 0.0}.get(diag)
    if d is None:
        d = cx.real("diag", -2, 2)
        cx.assume(cx.Or(d > 0.01, d < -0.01))
    M, D, nz = stochastic(cx, "M", n, pat, d)
    kw = dict(diag_val=d) if diag != "one" or cx.flag("say_diag") else {}
    how = cx.choose("active", ["found", "given", "more"])
    if how == "given":
        kw["nz_rowcols"] = np.array(nz, dtype=np.int32)
    elif how == "more":
        kw["nz_rowcols"] = np.array(sorted(set(nz) | {0, n - 1}), dtype=np.int32)
    A = S.from_full_csr_matrix(M, **kw)
    cx.check("shape", tuple(A.shape) == (n, n) and A.size == n)
    cx.eq("compressed and back", A.toarray(), D)
    cx.eq("csr", A.tocsr(), D)
    cx.eq("full matrix", A.to_full_mat(), D)
    cx.eq("the given matrix is unchanged", M, D)
    act = [int(i) for i in A.nz_rowcols]
    cx.check("active rows are sorted", act == sorted(set(act)))
    if how == "found":
        # only rows or columns that differ from the diagonal are active
        for i in act:
            cx.check("active rows differ from the diagonal",
                     cx.truth(cx.Or(*[D[i][j] != (d if i == j else 0.0) for j in range(n)],
                                    *[D[j][i] != 0.0 for j in range(n) if j != i])))
    cx.check("number of shared active rows", A.check_nz_intersect_len(A) == len(act))


def small(cx, n, pat):
    """from the small matrix, diagonal matrices, full-size rebuilding"""
    m = cx.mod("sparse_stoch_mat")
    S = m.SparseStochMat
    np = cx.np
    nz = subset(cx, "nz", n)
    k = len(nz)
    M, D = csr(cx, "m", pattern(cx, "p", k, k, pat)) if k else (cx.sp.csr_matrix((0, 0)), [])
    d = cx.real("diag", -2, 2)
    want = embed(n, nz, D, d)
    ix = np.array(nz, dtype=np.int32)
    A = S.from_small_csr_matrix(n, M, ix, d)
    cx.eq("from the small matrix", A.toarray(), want)
    cx.eq("rebuilt", m.rebuild_nnz_rowcol(M, ix, n, d), want)
    X = S.create_diag(n, d)
    cx.eq("diagonal matrix", X.toarray(), d_eye(n, d))
    cx.eq("identity", S.create_diag(n).toarray(), d_eye(n))
    if k:
        cx.raises("only csr", TypeError, lambda: S.from_small_csr_matrix(n, M.tocsc(), ix, d))
        cx.raises("only csr", TypeError, lambda: S.from_full_csr_matrix(M.tocsc()))


def removal(cx, n, pat):
    """removing empty rows and columns and putting them back"""
    T = cx.mod("temporal_network")
    S = cx.mod("sparse_stoch_mat")
    P = pattern(cx, "p", n, n, pat)
    M, D = csr(cx, "m", P)
    if cx.flag("csc"):
        M = M.tocsc()
    s, ix, size = T.remove_nnz_rowcol(M)
    keep = [i for i in range(n) if any(P[i]) or any(P[j][i] for j in range(n))]
    cx.check("kept rows", [int(i) for i in ix] == keep and int(size) == n)
    cx.eq("kept matrix", s, [[D[i][j] for j in keep] for i in keep]) if keep else cx.check("empty", tuple(s.shape) == (0, 0))
    s = s.tocsr()
    want = embed(n, keep, [[D[i][j] for j in keep] for i in keep], 1.0)
    if keep:
        cx.eq("rebuilt", S.rebuild_nnz_rowcol(s, ix, n), want)
        gone = cx.np.array([i for i in range(n) if i not in keep], dtype=cx.np.int32)
        da, di, dp, nr = T.numpy_rebuild_nnz_rowcol(s.data, s.indices, s.indptr, gone)
        cx.eq("rebuilt with numpy", cx.sp.csr_matrix((da, di, dp), shape=(nr, nr)), want)


def norm_rows(cx, D, P, target):
    out = []
    for i, r in enumerate(D):
        ks = [j for j in range(len(r)) if P[i][j]]
        s = total([r[j] for j in ks])
        t = target[i]
        if not ks or not cx.truth(s != 0):
            out.append(list(r))
        elif isinstance(t, float) and t == 0.0:
            out.append([r[j] - s / len(ks) if j in ks else 0.0 for j in range(len(r))])
        else:
            out.append([r[j] * t / s if j in ks else 0.0 for j in range(len(r))])
    return out


def normalize(cx, n, pat, kind, lo=None):
    m = cx.mod("sparse_stoch_mat")
    np = cx.np
    goal = cx.choose("goal", ["default", "value", "zero"] + (["array", "array0"] if kind == "csr" else []))
    if goal == "default":
        t, kw = 1.0, {}
    elif goal == "value":
        t = cx.real("sum", 0, 3)
        cx.assume(t > 0.1)
        kw = dict(row_sum=t)
    elif goal == "zero":
        t, kw = 0.0, dict(row_sum=0.0)
    else:
        v = [cx.real(f"sum{i}", 0, 3) for i in range(n)]
        for x in v:
            cx.assume(x > 0.1)
        if goal == "array0":
            v[n - 1] = 0.0
        t, kw = v, dict(row_sum=cx.array(v))
    if kind == "stoch":
        X, D = stoch(cx, "A", n, pat, lo=lo, diag=None, max_nz=2)
        cx.assume(cx.Or(X.diag_val > 0.01, X.diag_val < -0.01)) if cx.truth(True) else None
        nz = [int(i) for i in X.nz_rowcols]
        pt = [[False] * n for _ in range(n)]
        sm = X.T_small.copy()
        ip, ii = [int(x) for x in sm.indptr], [int(x) for x in sm.indices]
        for a, i in enumerate(nz):
            for q in range(ip[a], ip[a + 1]):
                pt[i][nz[ii[q]]] = True
        for i in range(n):
            if i not in nz:
                pt[i][i] = True
        ids = X.nz_rowcols
    else:
        pt = pattern(cx, "p", n, n, pat)
        X, D = csr(cx, "m", pt, lo=lo)
    want = norm_rows(cx, D, pt, t if isinstance(t, list) else [t] * n)
    f = m.inplace_csr_row_normalize
    if kind == "stoch" and cx.flag("method"):
        X.inplace_row_normalize(**kw)
    else:
        cx.check("in place", f(X, **kw) is None)
    cx.eq("normalised rows", X.toarray(), want)
    # still usable
    cx.eq("doubled", (X + X).toarray(), d_scale(want, 2))
    if kind == "csr":
        T = cx.mod("temporal_network")
        if goal == "default":
            Y, DY = csr(cx, "y", pt, lo=lo)
            cx.eq("csc version", T.csc_row_normalize(Y.tocsc()), norm_rows(cx, DY, pt, [1.0] * n))
            cx.eq("csc version copies", Y, DY)
        cx.raises("only sparse matrices", TypeError, lambda: f(D))
        cx.raises("only floats", TypeError, lambda: f(X, row_sum="1"))


def zeroes(cx, n, pat, kind):
    T = cx.mod("temporal_network")
    tol = cx.real("tol", 0, 1)
    rel, ab = cx.flag("relative"), cx.flag("absolute")
    if kind == "stoch":
        X, D = stoch(cx, "A", n, pat, max_nz=2, lo=-2, hi=2)
        nz = [int(i) for i in X.nz_rowcols]
        ent = [(i, j) for i in nz for j in nz]
        stored = []
        sm = X.T_small
        ip, ii = [int(x) for x in sm.indptr], [int(x) for x in sm.indices]
        for a, i in enumerate(nz):
            for q in range(ip[a], ip[a + 1]):
                stored.append((i, nz[ii[q]]))
    else:
        pt = pattern(cx, "p", n, n, pat)
        X, D = csr(cx, "m", pt, lo=-2, hi=2)
        if kind == "csc":
            X = X.tocsc()
        stored = [(i, j) for i in range(n) for j in range(n) if pt[i][j]]
    what = cx.choose("what", ["zeroes", "none", "ones"])
    want = [list(r) for r in D]
    if what == "none":
        T.set_to_zeroes(X, None)
        cx.eq("nothing to drop", X.toarray(), D)
        return
    if what == "ones":
        if kind == "stoch":
            return
        for i, j in stored:
            v = D[i][j]
            if cx.truth(cx.And(v - 1 <= tol, 1 - v <= tol)):
                want[i][j] = 1.0
        T.set_to_ones(X, tol)
        cx.eq("ones", X.toarray(), want)
        return
    lim = tol
    if rel and stored:
        mx = 0.0
        for i, j in stored:
            a = cx.ite(D[i][j] < 0, -D[i][j], D[i][j])
            mx = cx.ite(a > mx, a, mx)
        lim = tol * mx
    for i, j in stored:
        v = D[i][j]
        drop = cx.And(v <= lim, -v <= lim) if ab else v <= lim
        want[i][j] = cx.ite(drop, 0.0, v)
    if kind == "stoch" and cx.flag("method"):
        X.set_to_zeroes(tol, relative=rel, use_absolute_value=ab)
    else:
        T.set_to_zeroes(X, tol, relative=rel, use_absolute_value=ab)
    cx.eq("small values dropped", X.toarray(), want)
    cx.raises("only sparse matrices", TypeError, lambda: T.set_to_zeroes(D))


def scale(cx, n, pat):
    m = cx.mod("sparse_stoch_mat")
    X, D = csr(cx, "m", pattern(cx, "p", n, n, pat), shuffle=cx.flag("unsorted"))
    if cx.flag("csc"):
        X = X.tocsc()
    v = cx.reals("v", n)
    vec = cx.array([[x] for x in v]) if cx.flag("column") else cx.array(v)
    if cx.flag("left"):
        m.inplace_diag_matmul_csr(X, vec)
        want = [[v[i] * D[i][j] for j in range(n)] for i in range(n)]
    else:
        m.inplace_csr_matmul_diag(X, vec)
        want = [[D[i][j] * v[j] for j in range(n)] for i in range(n)]
    cx.eq("scaled", X, want)
    cx.eq("vector unchanged", cx.np.squeeze(vec), v)
    cx.raises("wrong size", AssertionError, lambda: m.inplace_csr_matmul_diag(X, cx.array(v + [1.0])))


def upper(cx, label, X, W):
    """a symmetric matrix, or only its upper triangle"""
    X = cx.dense(X)
    n = len(W)
    cx.eq(label, [[X[i][j] for j in range(i, n)] for i in range(n)][0], W[0])
    for i in range(n):
        for j in range(i, n):
            cx.eq(label, X[i][j], W[i][j])
        for j in range(i):
            cx.holds(label + ": lower triangle", lambda eps: cx.Or(
                cx.And(cx.leq(X[i][j], eps), cx.leq(-X[i][j], eps)),
                cx.And(cx.leq(X[i][j] - W[i][j], eps), cx.leq(W[i][j] - X[i][j], eps))))


def products(cx, n, pat):
    m = cx.mod("sparse_stoch_mat")
    A, DA = csr(cx, "a", pattern(cx, "p", n, n, pat))
    B, DB = csr(cx, "b", pattern(cx, "q", n, n, "coarse"))
    cx.eq("product", m.sparse_matmul(A, B), d_mul(DA, DB))
    upper(cx, "A A^T", m.sparse_gram_matrix(A, True), d_mul(DA, d_T(DA)))
    upper(cx, "A^T A", m.sparse_gram_matrix(A, False), d_mul(d_T(DA), DA))
    cx.eq("factors unchanged", A, DA)


def outer(cx, n):
    m = cx.mod("sparse_stoch_mat")
    np = cx.np
    on = subset(cx, "on", n, 1)
    v = [cx.real(f"v{i}", -2, 2) if i in on else 0.0 for i in range(n)]
    for i in on:
        cx.assume(cx.Or(v[i] > 0.01, v[i] < -0.01))
    order = on[::-1] if cx.flag("unsorted") else on
    p = cx.sp.csr_matrix((cx.array([v[i] for i in order]), np.array(order, dtype=np.int32),
                          np.array([0, len(on)], dtype=np.int32)), shape=(1, n))
    tri = cx.flag("triu")
    O = m.sparse_outer(p, triu=tri)
    if tri:
        cx.eq("outer product", O, [[v[i] * v[j] if j >= i else 0.0 for j in range(n)] for i in range(n)])
    else:
        upper(cx, "outer product", O, [[v[i] * v[j] for j in range(n)] for i in range(n)])
    cx.eq("vector unchanged", p, [v])


def cases(tier):
    q = tier == "quick"
    mods = ("sparse_stoch_mat", "temporal_network")

    def C(name, fn, keepz=False, **k):
        return Case(name, fn, k, mods, keepz=keepz)
    cs = [C("roundtrip-2", roundtrip, n=2, pat="any", diag="any"), C("roundtrip-3", roundtrip, n=3, pat="coarse", diag="one"),
          C("roundtrip-3-diag", roundtrip, n=3, pat="coarse", diag="any"), C("roundtrip-0", roundtrip, n=3, pat="coarse", diag="zero"),
          C("small-3", small, n=3, pat="coarse"), C("small-4", small, n=4, pat="coarse", keepz=True),
          C("removal-3", removal, n=3, pat="any"),
          C("normalize-csr-2", normalize, n=2, pat="any", kind="csr"), C("normalize-csr-3", normalize, n=3, pat="coarse", kind="csr", lo=0),
          C("normalize-stoch-3", normalize, n=3, pat="coarse", kind="stoch"),
          C("zeroes-csr", zeroes, n=2, pat="any", kind="csr"), C("zeroes-csc", zeroes, n=2, pat="any", kind="csc"),
          C("zeroes-stoch", zeroes, n=3, pat="coarse", kind="stoch"),
          C("scale-2", scale, n=2, pat="any"), C("scale-3", scale, n=3, pat="coarse", keepz=True),
          C("products-3", products, n=3, pat="coarse", keepz=True), C("outer-3", outer, n=3), C("outer-4", outer, n=4)]
    cs += [C("roundtrip-wide", roundtrip, n=7, pat="wide:steps", diag="one", keepz=True), C("small-wide", small, n=8, pat="wide", keepz=True),
           C("removal-wide", removal, n=8, pat="wide", keepz=True), C("normalize-wide", normalize, n=7, pat="wide:steps", kind="csr", lo=0.01),
           C("scale-wide", scale, n=7, pat="wide", keepz=True), C("products-wide", products, n=7, pat="wide", keepz=True),
           C("outer-wide", outer, n=8)]
    if not q:
        cs += [C("roundtrip-4", roundtrip, n=4, pat="coarse", diag="any"), C("roundtrip-3-any", roundtrip, n=3, pat="any", diag="one"),
               C("removal-4", removal, n=4, pat="coarse"), C("normalize-csr-3-any", normalize, n=3, pat="any", kind="csr", lo=0),
               C("normalize-stoch-4", normalize, n=4, pat="coarse", kind="stoch"), C("zeroes-3", zeroes, n=3, pat="coarse", kind="csr"),
               C("scale-3-any", scale, n=3, pat="any", keepz=True), C("products-4", products, n=4, pat="coarse", keepz=True)]
    return cs
