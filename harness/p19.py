"""P19: the compiled kernels keep to the memory they are given and return what they are defined to return."""
from fsv.runner import Case
from fsv.ctx import SkipPath
from .common import *

BUDGET = {"quick": 45, "thorough": 600}
BOUNDS = ["matrices of up to 3 (thorough: 4) rows with arbitrary or listed patterns: empty rows and columns, no rows at all, stored "
          "zeros, columns in ascending or descending order; arbitrary real values; arbitrary index sets, clusters and nodes",
          "larger structures: 7-8 rows with listed patterns and partitions, arbitrary values"]
OUTSIDE = ["arguments that are not well-formed CSR/CSC arrays (column or row numbers outside the matrix, decreasing pointers)",
           "cython_nvi_parallel (threads update a shared, uninitialised buffer; not called by the package) and "
           "cython_inplace_csr_row_normalize_triu (calls scipy's C routines; not called by the package)",
           "rows of negative and positive values adding up to zero in the normalisation"]
ASSUMPTIONS = ["the kernels are called with the argument lists documented in their source"]
STOCH, FAST = "_cython_sparse_stoch", "_cython_fast_funcs"


def kernel(cx, mod, name):
    f = getattr(cx.cy(mod), name, None)
    if f is None:
        raise SkipPath()
    return f


def call(cx, mod, name, *a):
    """a kernel that is gone or takes other arguments is not judged here"""
    f = kernel(cx, mod, name)
    try:
        return f(*a)
    except TypeError as e:
        if "argument" in str(e) and ("takes" in str(e) or "positional" in str(e) or "keyword" in str(e)):
            raise SkipPath()
        raise


def i32(cx, x):
    return cx.np.array(list(x), dtype=cx.np.int32)


def i64(cx, x):
    return cx.np.array(list(x), dtype=cx.np.int64)


def to_dense(cx, data, idx, ptr, r, c):
    """meaning of CSR arrays that may be longer than needed"""
    ptr = [int(x) for x in ptr]
    cx.check("pointers are sound", ptr[0] == 0 and all(a <= b for a, b in zip(ptr, ptr[1:])) and ptr[-1] <= len(data)
             and len(ptr) == r + 1, str(ptr))
    d = [[0.0] * c for _ in range(r)]
    for i in range(r):
        for k in range(ptr[i], ptr[i + 1]):
            j = int(idx[k])
            cx.check("columns are inside", 0 <= j < c)
            d[i][j] = d[i][j] + data[k]
    return d


class Same:
    """the arguments are unchanged afterwards"""

    def __init__(self, cx, *arrays):
        self.cx, self.a = cx, [(x, list(x)) for x in arrays]

    def done(self):
        for x, old in self.a:
            self.cx.eq("arguments unchanged", list(x), old)


def parts(cx, name, r, c, kind, lo=-1, hi=1, order=True):
    pat = pattern(cx, name + "p", r, c, kind)
    data, idx, ptr, dense = csr_parts(cx, name, pat, lo, hi, shuffle=order and cx.flag(name + "desc"))
    return cx.array(data) if data else cx.np.zeros(0), idx, ptr, dense


def addsub(cx, n, ka, kb):
    op = cx.choose("op", ["add", "sub"])
    A, B = [], []
    for nm, kind, out in (("A", ka, A), ("B", kb, B)):
        nz = subset(cx, nm + "nz", n)
        d, i, p, small = parts(cx, nm, len(nz), len(nz), kind)
        dv = cx.real(nm + "d", -1, 1)
        out += [d, i32(cx, i), i32(cx, p), i32(cx, nz), dv, embed(n, nz, small, dv)]
    s = Same(cx, *A[:4], *B[:4])
    size, data, idx, ptr, nz, dv = call(cx, STOCH, "stoch_mat_" + op, n, *A[:5], *B[:5])
    s.done()
    nz = [int(x) for x in nz]
    cx.check("size", int(size) == n)
    cx.check("active rows", nz == sorted(set(list(map(int, A[3])) + list(map(int, B[3])))))
    small = to_dense(cx, data, idx, ptr, len(nz), len(nz))
    cx.eq("result", embed(n, nz, small, dv), d_add(A[5], B[5], 1 if op == "add" else -1))


def rebuild(cx, n, kind):
    nz = subset(cx, "nz", n)
    d, i, p, small = parts(cx, "T", len(nz), len(nz), kind)
    dv = 0.0 if cx.flag("zero_diagonal") else cx.real("dv", 0.1, 1)
    a = [d, i64(cx, i), i64(cx, p), i64(cx, nz)]
    s = Same(cx, *a)
    data, idx, ptr, size = call(cx, STOCH, "rebuild_nnz_rowcol", *a, n, dv)
    s.done()
    cx.check("size", int(size) == n)
    cx.eq("result", to_dense(cx, data, idx, ptr, n, n), embed(n, nz, small, dv))
    cx.check("no unused places", int(list(ptr)[-1]) == len(data) == len(idx))


def compress(cx, n, kind):
    """rows and columns to keep, the others with nothing but a diagonal value or stored zeros"""
    nz = subset(cx, "nz", n)
    pat = pattern(cx, "Tp", n, n, kind)
    data, idx, ptr, dense = [], [], [0], [[0.0] * n for _ in range(n)]
    dv = cx.real("dv", -1, 1)
    desc = cx.flag("desc")
    for i in range(n):
        cols = [j for j in range(n) if pat[i][j] or (i == j and i not in nz)]
        for j in (cols[::-1] if desc else cols):
            v = cx.real(f"T{i}_{j}", -1, 1) if i in nz and j in nz else (dv if i == j else 0.0)
            dense[i][j] = v
            data.append(v)
            idx.append(j)
        ptr.append(len(idx))
    a = [i32(cx, nz), cx.array(data) if data else cx.np.zeros(0), i32(cx, idx), i32(cx, ptr)]
    s = Same(cx, *a)
    size, sd, si, sp, snz, sdv = call(cx, STOCH, "sparse_stoch_from_full_csr", *a, dv)
    s.done()
    cx.check("size", int(size) == n)
    cx.check("active rows", [int(x) for x in snz] == nz)
    cx.eq("diagonal", sdv, dv)
    small = to_dense(cx, sd, si, sp, len(nz), len(nz))
    cx.eq("result", embed(n, nz, small, sdv), dense)


def normalize(cx, r, kind):
    d, i, p, dense = parts(cx, "X", r, r, kind, lo=0.0)
    per_row = cx.flag("per_row")
    want = [0.0 if cx.flag(f"zero{k}") else cx.real(f"s{k}", 0.1, 2) for k in range(r if per_row else 1)]
    sums = [total(x) for x in dense]
    for x in sums:
        cx.assume(cx.Or(x == 0.0, x > 0.01))
    ptr = i64(cx, p)
    s = Same(cx, ptr)
    stored = [p[k + 1] - p[k] for k in range(r)]
    if per_row:
        call(cx, STOCH, "inplace_csr_row_normalize_array", d, ptr, r, cx.array(want))
    else:
        call(cx, STOCH, "inplace_csr_row_normalize", d, ptr, r, want[0])
    s.done()
    got = to_dense(cx, d, i, p, r, r)
    for k in range(r):
        w = want[k] if per_row else want[0]
        if not stored[k] or cx.truth(sums[k] == 0.0):
            cx.eq("rows adding up to zero stay", got[k], dense[k])
        elif isinstance(w, float) and w == 0.0:
            held = set(i[p[k]:p[k + 1]])
            cx.eq("shifted row", got[k], [dense[k][j] - sums[k] / stored[k] if j in held else 0.0 for j in range(r)])
        else:
            cx.eq("scaled row", got[k], [x * w / sums[k] for x in dense[k]])


def submat(cx, n, kind):
    d, i, p, dense = parts(cx, "A", n, n, kind)
    rows, cols = subset(cx, "r", n), subset(cx, "c", n)
    a = [d, i32(cx, i), i32(cx, p), i32(cx, rows[::-1]), i32(cx, cols)]
    s = Same(cx, *a)
    cx.eq("sum", call(cx, STOCH, "get_submat_sum", *a), total(dense[x][y] for x in rows for y in cols))
    s.done()


def clusters_of(cx, n):
    lab = []
    for k in range(n if n < WIDE else 0):
        lab.append(cx.int(f"l{k}", 0, max(lab, default=-1) + 1))
    if n >= WIDE:
        lab = listed_partition(cx, n, "l")
    cl = [[k for k in range(n) if lab[k] == c] for c in range(max(lab) + 1)]
    return lab, cl


def aggregate(cx, n, kind):
    which = cx.choose("kernel", ["aggregate_csr_mat", "aggregate_csr_mat_2"])
    d, i, p, dense = parts(cx, "A", n, n, kind, lo=0.0 if n < WIDE else 0.01)
    lab, cl = clusters_of(cx, n)
    if cx.flag("reversed"):
        cl = cl[::-1]
    ptr = [0]
    for c in cl:
        ptr.append(ptr[-1] + len(c))
    a = [d, i32(cx, i), i32(cx, p), i32(cx, [x for c in cl for x in c]), i32(cx, ptr)]
    s = Same(cx, *a)
    data, rows, cols, size = call(cx, STOCH, which, *a)
    s.done()
    m = len(cl)
    cx.check("size", int(size) == m)
    out = [[0.0] * m for _ in range(m)]
    cx.check("triples", len(data) == len(rows) == len(cols))
    for v, x, y in zip(data, rows, cols):
        cx.check("inside", 0 <= int(x) < m and 0 <= int(y) < m)
        out[int(x)][int(y)] = out[int(x)][int(y)] + v
    cx.eq("block sums", out, [[total(dense[x][y] for x in a for y in b) for b in cl] for a in cl])


def gains(cx, n, kind):
    d, i, p, dense = parts(cx, "P", n, n, kind, order=False)
    cd, ci, cp = [], [], [0]
    for j in range(n):
        for x in range(n):
            if j in i[p[x]:p[x + 1]]:
                cd.append(dense[x][j])
                ci.append(x)
        cp.append(len(ci))
    k = node(cx, "k", n)
    S = [x for x in subset(cx, "x", n) if x != k]
    p1, p2 = cx.reals("p", n, 0, 1), cx.reals("q", n, 0, 1)
    a = [d, i32(cx, i), i32(cx, p), cx.array(cd) if cd else cx.np.zeros(0), i32(cx, ci), i32(cx, cp)]
    idx_in, idx_out = i32(cx, S), i32(cx, S + [k])
    v1, v2 = cx.array(p1), cx.array(p2)
    s = Same(cx, *a, idx_in, idx_out, v1, v2)
    pt = total(dense[k][x] + dense[x][k] for x in S) + dense[k][k]
    pp = total(p1[k] * p2[x] + p1[x] * p2[k] for x in S) + p1[k] * p2[k]
    cx.eq("flow in", call(cx, STOCH, "compute_delta_PT_moveto", *a, k, idx_in), pt)
    cx.eq("flow out", call(cx, STOCH, "compute_delta_PT_moveout", *a, k, idx_out), -1.0 * pt)
    cx.eq("gain in", call(cx, STOCH, "compute_delta_S_moveto", *a, k, idx_in, v1, v2), pt - pp)
    cx.eq("gain out", call(cx, STOCH, "compute_delta_S_moveout", *a, k, idx_out, v1, v2), pp - pt)
    s.done()


def dense_kernels(cx, n):
    S = [[cx.real(f"S{i}{j}", -1, 1) for j in range(n)] for i in range(n)]
    k = node(cx, "k", n)
    ix = [i for i in subset(cx, "x", n) if i != k]
    a = cx.array(S)
    p0, pt = cx.reals("p", n, 0, 1), cx.reals("q", n, 0.01, 1)
    v0, vt = cx.array(p0), cx.array(pt)
    s = Same(cx, v0, vt, *[a[r] for r in range(n)])
    given = list(ix)
    cx.eq("move in", call(cx, FAST, "sum_Sto", a, k, ix), total(S[k][i] + S[i][k] for i in ix) + S[k][k])
    cx.eq("move out", call(cx, FAST, "sum_Sout", a, k, ix + [k]), -1.0 * (total(S[k][i] + S[i][k] for i in ix) + S[k][k]))
    cx.check("cluster unchanged", ix == given)
    cx.eq("covariance", call(cx, FAST, "compute_S", v0, vt, a), [[p0[i] * S[i][j] - p0[i] * pt[j] for j in range(n)] for i in range(n)])
    cx.eq("round-trip covariance", call(cx, FAST, "compute_S_0t0", v0, vt, a),
          [[total(p0[i] * S[i][l] * (1 / pt[l]) * S[j][l] * p0[j] for l in range(n)) - p0[i] * p0[j] for j in range(n)] for i in range(n)])
    s.done()


def measures(cx, n):
    """the variants of the variation of information agree with its definition"""
    def part(nm):
        lab = []
        for k in range(n if n < WIDE else 0):
            lab.append(cx.int(f"{nm}{k}", 0, max(lab, default=-1) + 1))
        if n >= WIDE:
            lab = listed_partition(cx, n, nm)
        return [[k for k in range(n) if lab[k] == c] for c in range(max(lab) + 1)]
    A, B = part("a"), part("b")
    cl = {"cython_nvi": set, "cython_nvi_mat": set, "cython_nvi_vectors": lambda c: i32(cx, c[::-1])}
    want = 0.0
    for x in A:
        for y in B:
            m = len(set(x) & set(y))
            if m:
                want = want - m * cx.log2(m * m, len(x) * len(y))
    for name, f in cl.items():
        got = call(cx, FAST, name, [f(c) for c in A], [f(c) for c in B], n)
        cx.eq(name, got * (n * cx.log2(n)), want)


def cases(tier):
    mods = (STOCH, FAST)

    def C(name, fn, keepz=True, **k):
        return Case(name, fn, k, mods, keepz=keepz)
    cs = [C("addsub-2", addsub, n=2, ka="any", kb="coarse"), C("addsub-3", addsub, n=3, ka="coarse", kb="full"),
          C("addsub-3b", addsub, n=3, ka="full", kb="coarse"),
          C("rebuild-2", rebuild, n=2, kind="any"), C("rebuild-3", rebuild, n=3, kind="coarse"),
          C("compress-2", compress, n=2, kind="any"), C("compress-3", compress, n=3, kind="coarse"),
          C("normalize-2", normalize, r=2, kind="any"), C("normalize-3", normalize, r=3, kind="coarse"),
          C("submatrix-2", submat, n=2, kind="any"), C("submatrix-3", submat, n=3, kind="coarse"),
          C("aggregate-2", aggregate, n=2, kind="any"), C("aggregate-3", aggregate, n=3, kind="coarse"),
          C("gains-2", gains, n=2, kind="any"), C("gains-3", gains, n=3, kind="coarse"),
          C("dense-2", dense_kernels, n=2), C("dense-3", dense_kernels, n=3), C("nvi-3", measures, n=3)]
    cs += [C("addsub-wide", addsub, n=8, ka="wide", kb="wide:steps"), C("rebuild-wide", rebuild, n=8, kind="wide"),
           C("compress-wide", compress, n=8, kind="wide"), C("submatrix-wide", submat, n=7, kind="wide"),
           C("aggregate-wide", aggregate, n=7, kind="wide:steps"), C("gains-wide", gains, n=7, kind="wide"),
           C("dense-wide", dense_kernels, n=7), C("nvi-wide", measures, n=8)]
    if tier != "quick":
        cs += [C("addsub-3-any", addsub, n=3, ka="any", kb="coarse"), C("addsub-4", addsub, n=4, ka="coarse", kb="full"),
               C("rebuild-3-any", rebuild, n=3, kind="any"), C("rebuild-4", rebuild, n=4, kind="coarse"),
               C("compress-3-any", compress, n=3, kind="any"), C("compress-4", compress, n=4, kind="coarse"),
               C("normalize-3-any", normalize, r=3, kind="any"), C("submatrix-3-any", submat, n=3, kind="any"),
               C("aggregate-3-any", aggregate, n=3, kind="any"), C("aggregate-4", aggregate, n=4, kind="coarse"),
               C("gains-3-any", gains, n=3, kind="any"), C("gains-4", gains, n=4, kind="coarse"),
               C("dense-4", dense_kernels, n=4), C("nvi-4", measures, n=4), C("nvi-5", measures, n=5)]
    return cs
