"""P03: the sparse autocovariance matrix is the covariance it stands for, in every view."""
from fsv.runner import Case
from .common import *

BUDGET = {"quick": 60, "thorough": 800}


def make(cx, n, how, kind, lo=0, gen=False):
    """an arbitrary sparse autocovariance matrix and its dense meaning"""
    np = cx.np
    A = cx.mod("sparse_stoch_mat").SparseAutocovMat
    pat = pattern(cx, "Tp", n, n, kind)
    T, D = csr(cx, "T", pat, lo, 1, shuffle=cx.flag("unsorted"))
    if how == "direct":
        p1 = cx.reals("p", n, 0, 1)
        p2 = cx.reals("q", n, 0, 1)
        return A(T, cx.array(p1), cx.array(p2)), d_add(D, outer(p1, p2), -1), D, p1, p2
    if how == "scalar":
        p = 1.0 / n
        return A(T, p, p), d_add(D, [[p * p] * n] * n, -1), D, [p] * n, [p] * n
    given = cx.choose("given", ["none", "p1", "both"]) if how in ("T", "fwd") else how
    p1 = [1.0 / n] * n
    kw = {}
    if given != "none":
        p1 = cx.reals("p", n, 0, 1)
        for x in p1:
            cx.assume(x > 0)
        kw["p1"] = cx.array(p1)
    if given == "both":
        p2 = cx.reals("q", n, 0, 1)
        for x in p2:
            cx.assume(x > 0.01)
        kw["p2"] = cx.array(p2)
    else:
        p2 = [total(p1[i] * D[i][j] for i in range(n)) for j in range(n)]
    if how == "T":
        return A.from_T(T, **kw), [[p1[i] * D[i][j] - p1[i] * p2[j] for j in range(n)] for i in range(n)], D, p1, p2
    # forward
    for i in range(n):
        for j in range(n):
            if pat[i][j]:
                cx.assume(D[i][j] > 0.01)
    inv = [1.0 / p2[k] if any(pat[i][k] for i in range(n)) else 0.0 for k in range(n)]
    W = [[p1[i] * total(D[i][k] * inv[k] * D[j][k] for k in range(n)) * p1[j] - p1[i] * p1[j] for j in range(n)] for i in range(n)]
    return A.from_T_forward(T, **kw), W, D, p1, p1


def outer(a, b):
    return [[x * y for y in b] for x in a]


def views(cx, n, how, kind, which):
    np = cx.np
    import array
    S, D, T, p1, p2 = make(cx, n, how, kind)
    cx.eq("dense form is the covariance", S.toarray(), D)
    if "elem" in which:
        i, j = node(cx, "i", n), node(cx, "j", n)
        cx.eq("single element", S.get_element(i, j), D[i][j])
    if "sums" in which:
        r = subset(cx, "r", n)
        c = subset(cx, "c", n)
        k = node(cx, "k", n)
        cx.eq("sum over a row", S.get_row_idx_sum(k, c), total(D[k][j] for j in c))
        cx.eq("sum over a column", S.get_col_idx_sum(k, r), total(D[i][k] for i in r))
        if r and c:
            cx.eq("sum over a submatrix", S.get_submat_sum(np.array(r, dtype=np.int32), np.array(c, dtype=np.int32)),
                  total(D[i][j] for i in r for j in c))
    if "copy" in which:
        C = S.copy()
        S.PT.data[:] = 0.0
        cx.eq("copy is independent", C.toarray(), D)


def arb_partition(cx, n, name="cl"):
    lab = [0]
    for i in range(1, n if n < WIDE else 1):
        lab.append(cx.int(f"{name}{i}", 0, max(lab) + 1))
    if n >= WIDE:
        lab = listed_partition(cx, n, name)
    return [[i for i in range(n) if lab[i] == c] for c in range(max(lab) + 1)]


def aggregate(cx, n, how, kind, twice=False):
    np = cx.np
    A = cx.mod("sparse_stoch_mat").SparseAutocovMat
    pat = pattern(cx, "Tp", n, n, kind)
    T, D = csr(cx, "T", pat, 0, 1)
    for i in range(n):
        for j in range(n):
            if pat[i][j]:
                cx.assume(D[i][j] > 0)
    if how == "scalar":
        p1 = p2 = [1.0 / n] * n
        S = A(T, 1.0 / n, 1.0 / n)
    else:
        p1, p2 = cx.reals("p", n - 1, 0, 1), cx.reals("q", n - 1, 0, 1)
        p1.append(1.0 - total(p1))
        p2.append(1.0 - total(p2))
        S = A(T, cx.array(p1), cx.array(p2))
    W = d_add(D, outer(p1, p2), -1)
    cl = arb_partition(cx, n)
    if cx.flag("reorder"):
        cl = cl[::-1]
    B = S.aggregate([list(c) for c in cl])
    WB = [[total(W[i][j] for i in a for j in b) for b in cl] for a in cl]
    cx.eq("aggregated covariance sums over cluster pairs", B.toarray(), WB)
    cx.eq("original unchanged", S.toarray(), W)
    k = len(cl)
    c2 = cx.int("row", 0, k - 1)
    cx.eq("column view of the aggregate", B.get_col_idx_sum(c2, list(range(k))), total(WB[a][c2] for a in range(k)))
    if twice and k > 1:
        C = B.aggregate([list(range(k))[1:], [0]])
        g = [list(range(k))[1:], [0]]
        cx.eq("aggregation composes", C.toarray(), [[total(WB[i][j] for i in a for j in b) for b in g] for a in g])


def allzero(cx, n, scalar):
    """is_all_zeros on normalised flows only when the covariance vanishes"""
    A = cx.mod("sparse_stoch_mat").SparseAutocovMat
    pat = pattern(cx, "Tp", n, n, "any")
    T, D = csr(cx, "T", pat, 0, 1)
    for i in range(n):
        for j in range(n):
            if pat[i][j]:
                cx.assume(D[i][j] > 0.01)
    if scalar:
        p1 = p2 = [1.0 / n] * n
    else:
        p1 = cx.reals("p", n, 0, 1)
        for x in p1:
            cx.assume(x > 0.1)
        cx.assume(cx.close(total(p1), 1.0))
        p2 = [total(D[i][j] for i in range(n)) for j in range(n)]
    for i in range(n):
        r = total(D[i][j] for j in range(n))
        cx.assume(cx.close(r, p1[i]))
    if scalar:
        for j in range(n):
            cx.assume(cx.close(total(D[i][j] for i in range(n)), p2[j]))
    S = A(T, p1[0], p1[0]) if scalar else A(T, cx.array(p1), cx.array(p2))
    z = bool(S.is_all_zeros())
    W = d_add(D, outer(p1, p2), -1)
    small = cx.And(*[cx.And(W[i][j] <= 1e-3, W[i][j] >= -1e-3) for i in range(n) for j in range(n)])
    if z:
        cx.check("reported zero only if numerically zero", small)
    else:
        cx.check("reported nonzero only if some entry is nonzero",
                 cx.Or(*[cx.Or(W[i][j] > 0, W[i][j] < 0) for i in range(n) for j in range(n)]))


def cases(tier):
    q = tier == "quick"
    mods = ("sparse_stoch_mat",)

    def C(name, fn, keepz=False, **k):
        return Case(name, fn, k, mods, keepz=keepz)
    cs = [C("direct-n3-elem", views, n=3, how="direct", kind="coarse", which=("elem", "copy")),
          C("direct-n2-any-sums", views, n=2, how="direct", kind="any", which=("elem", "sums")),
          C("direct-n3-sums", views, n=3, how="direct", kind="coarse", which=("sums",)),
          C("scalar-n3-sums", views, n=3, how="scalar", kind="coarse", which=("sums", "elem")),
          C("fromT-n2", views, n=2, how="T", kind="any", which=("elem", "copy")),
          C("fromT-n3", views, n=3, how="T", kind="coarse", which=("elem",)),
          C("forward-n2", views, n=2, how="fwd", kind="any", which=("elem", "copy")),
          C("forward-n2-sums", views, n=2, how="fwd", kind="coarse", which=("sums",)),
          C("forward-n3", views, n=3, how="fwd", kind="coarse", which=("copy",), keepz=True),
          C("aggregate-n3", aggregate, n=3, how="vec", kind="coarse", twice=True),
          C("aggregate-n2-any", aggregate, n=2, how="vec", kind="any"),
          C("aggregate-n3-scalar", aggregate, n=3, how="scalar", kind="coarse"),
          C("aggregate-n4", aggregate, n=4, how="vec", kind="full", twice=True),
          C("direct-wide", views, n=7, how="direct", kind="wide", which=("elem", "copy")),
          C("sums-wide", views, n=7, how="direct", kind="wide", which=("sums",)),
          C("fromT-wide", views, n=7, how="T", kind="wide", which=("copy",)),
          C("forward-wide", views, n=7, how="fwd", kind="wide", which=("copy",), keepz=True),
          C("aggregate-wide", aggregate, n=8, how="vec", kind="wide", twice=True),
          C("allzero-n2", allzero, n=2, scalar=False),
          C("allzero-n2-scalar", allzero, n=2, scalar=True)]
    if not q:
        cs += [C("direct-n4-sums", views, n=4, how="direct", kind="coarse", which=("sums",)),
               C("direct-n3-any", views, n=3, how="direct", kind="any", which=("elem",)),
               C("forward-n4", views, n=4, how="fwd", kind="coarse", which=("copy",), keepz=True),
               C("aggregate-n4-coarse", aggregate, n=4, how="vec", kind="coarse", twice=True),
               C("aggregate-n3-any", aggregate, n=3, how="vec", kind="any", twice=True)]
    return cs

BOUNDS = ['2-4 nodes, arbitrary or listed sparsity patterns, arbitrary non-negative entries and densities (vectors or the scalar 1/N), arbitrary cluster maps and index sets; aggregation applied once or twice',
          "larger structures: 7-8 nodes with listed patterns and partitions (up to 8 clusters), arbitrary values"]
OUTSIDE = ['scalar densities other than 1/N', 'negative transition entries', 'the exact tolerance of the zero test (numpy allclose)']
ASSUMPTIONS = ['exact real arithmetic in place of float64']
