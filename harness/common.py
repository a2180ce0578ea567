"""Shared builders for the harnesses (run symbolically and concretely)."""


WIDE = 7      # sizes from which structure is listed and only values are arbitrary


def subset(cx, name, n, min_size=0, max_size=None):
    """an arbitrary subset of range(n) (sorted list); a listed one for WIDE or more"""
    if n >= WIDE:
        ls = [[], [n - 1], list(range(0, n, 2)), list(range(1, n - 1)), list(range(n))]
        ls = [x if max_size is None else x[-max_size:] for x in ls]
        return cx.choose(name, [x for x in ls if len(x) >= min_size])
    max_size = n if max_size is None else max_size
    out = []
    for i in range(n):
        left = n - i
        if len(out) >= max_size:
            break
        if len(out) + left <= min_size:
            out.append(i)
        elif cx.flag(f"{name}{i}"):
            out.append(i)
    return out


def pattern(cx, name, r, c, kind="any"):
    """an arbitrary r x c sparsity pattern; kind: any|full|coarse|wide"""
    if kind.startswith("wide"):
        f = WIDE_F[kind[5:] or cx.choose(name + "w", list(WIDE_F))]
        return [[f(i, j, r, c) for j in range(c)] for i in range(r)]
    if kind == "full":
        return [[True] * c for _ in range(r)]
    if kind == "coarse":
        k = cx.int(name + "k", 0, 4)
        f = [lambda i, j: True, lambda i, j: False, lambda i, j: i == j, lambda i, j: j > i or (i == r - 1 and j == 0),
             lambda i, j: i != 0][k]
        return [[f(i, j) for j in range(c)] for i in range(r)]
    return [[cx.flag(f"{name}{i}_{j}") for j in range(c)] for i in range(r)]


WIDE_F = {
    "ring": lambda i, j, r, c: j in ((i + 1) % c, (i - 1) % c),
    "blocks": lambda i, j, r, c: i // 3 == j // 3 and i != 1,
    "star": lambda i, j, r, c: i == 2 or j == 2 or i == j == r - 1,
    "steps": lambda i, j, r, c: i not in (0, r - 2) and (j == i or j == c - 1 - i or j == 0),
}


def node(cx, name, n):
    return cx.int(name, 0, n - 1) if n < WIDE else cx.choose(name, [0, n // 2, n - 1])


def listed_partition(cx, n, name):
    """listed partitions of many nodes: labels in order of appearance"""
    ls = [[i for i in range(n)], [0] * n, [i // 2 for i in range(n)], [i % 2 for i in range(n)],
          [0 if i in (1, n - 1) else i for i in range(n)], [min(i, 4) for i in range(n)], [i % 5 for i in range(n)],
          [(i * i) % (n + 1) for i in range(n)], [i if i < 3 else 3 + (i > n - 3) for i in range(n)],
          [i if i < 3 else 3 + (i > 3) for i in range(n)]]
    lab = cx.choose(name + "w", ls)
    seen = []
    for x in lab:
        if x not in seen:
            seen.append(x)
    return [seen.index(x) for x in lab]


def csr_parts(cx, name, pat, lo=None, hi=None, shuffle=False):
    """symbolic values on a pattern -> (data, indices, indptr, dense rows)"""
    data, idx, ptr, dense = [], [], [0], []
    for i, row in enumerate(pat):
        d = [0.0] * len(row)
        cols = [j for j, b in enumerate(row) if b]
        if shuffle:
            cols = cols[::-1]
        for j in cols:
            v = cx.real(f"{name}{i}_{j}", lo, hi)
            d[j] = v
            data.append(v)
            idx.append(j)
        ptr.append(len(idx))
        dense.append(d)
    return data, idx, ptr, dense


def csr(cx, name, pat, lo=None, hi=None, shuffle=False, itype=None):
    np = cx.np
    data, idx, ptr, dense = csr_parts(cx, name, pat, lo, hi, shuffle)
    it = itype or np.int32
    m = cx.sp.csr_matrix((cx.array(data), np.array(idx, dtype=it), np.array(ptr, dtype=it)),
                         shape=(len(pat), len(pat[0]) if pat else 0))
    return m, dense


def embed(n, nz, small, diag):
    d = [[0.0] * n for _ in range(n)]
    for i in range(n):
        d[i][i] = diag
    for a, i in enumerate(nz):
        for b, j in enumerate(nz):
            d[i][j] = small[a][b]
    return d


def stoch(cx, name, n, kind="any", max_nz=None, min_nz=0, diag=None, lo=None, hi=None, shuffle=False):
    """arbitrary SparseStochMat and its dense meaning"""
    np = cx.np
    S = cx.mod("sparse_stoch_mat").SparseStochMat
    nz = subset(cx, name + "nz", n, min_nz, max_nz)
    m = len(nz)
    pat = pattern(cx, name + "p", m, m, kind)
    data, idx, ptr, small = csr_parts(cx, name + "v", pat, lo, hi, shuffle)
    dv = cx.real(name + "d", lo, hi) if diag is None else diag
    A = S(n, cx.array(data), np.array(idx, dtype=np.int32), np.array(ptr, dtype=np.int32),
          np.array(nz, dtype=np.int32), dv)
    return A, embed(n, nz, small, dv)


def d_add(a, b, sb=1):
    return [[x + sb * y for x, y in zip(r, s)] for r, s in zip(a, b)]


def d_mul(a, b):
    n, k, m = len(a), len(b), len(b[0])
    return [[sum((a[i][l] * b[l][j] for l in range(k)), 0.0) for j in range(m)] for i in range(n)]


def d_scale(a, s):
    return [[x * s for x in r] for r in a]


def d_T(a):
    return [list(r) for r in zip(*a)]


def d_eye(n, v=1.0):
    return [[v if i == j else 0.0 for j in range(n)] for i in range(n)]


def total(xs):
    t = 0.0
    for x in xs:
        t = t + x
    return t
