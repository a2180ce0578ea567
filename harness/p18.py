"""P18: clustering of static networks."""
from fsv.runner import Case
from .common import *
from .p06 import arb_partition, valid_partition, stab

BUDGET = {"quick": 45, "thorough": 800}
BOUNDS = ["2-4 nodes, arbitrary positive weights (matrix powers and linearised) or listed weights (exponential) on "
          "arbitrary or listed edge sets, isolated nodes, self-loops; Markov time 0-3 (powers) or an arbitrary positive real",
          "2 repetitions of Louvain with arbitrary draws",
          "larger structures: 7 nodes on listed graphs with two arbitrary weights"]
OUTSIDE = ["directed networks that are not strongly connected (documented)", "single-node networks", "numerical accuracy of "
           "eigenvectors"]


def graph(cx, n, kind, weights, directed, ones=False):
    A = [[0.0] * n for _ in range(n)]
    sc = []
    if directed:
        # a directed cycle (strongly connected) plus arbitrary extra edges
        sc = [(i, (i + 1) % n) for i in range(n)]
        extra = [(i, j) for i in range(n) for j in range(n) if (i, j) not in sc]
    else:
        extra = [(i, j) for i in range(n) for j in range(i, n)]
    if kind == "no-loops":
        extra = [(i, j) for i, j in extra if i != j]
    if kind == "wide":
        # a ring, a star with a loop, or groups, one of them a single isolated node
        f = cx.choose("graph", [lambda i, j: j == i + 1 or (i, j) == (0, n - 1), lambda i, j: i == 1 or j == 1,
                                lambda i, j: i // 3 == j // 3 and i != j])
        if directed:
            f = lambda i, j: (i, j) in ((0, 3), (2, 2), (4, 1))
        sc, extra = sc + [(i, j) for i, j in extra if f(i, j)], []
    if kind == "cycle":
        extra = [(0, 2)]
    E = list(sc)
    for i, j in extra:
        if cx.flag(f"e{i}{j}"):
            E.append((i, j))
    for k, (i, j) in enumerate(E):
        if weights == "two":        # two arbitrary ones, the others given
            A[i][j] = cx.real(f"w{i}{j}", 0.1, 3) if k in (1, 4) else float(1 + k % 3)
            if not directed:
                A[j][i] = A[i][j]
            continue
        w = cx.real(f"w{i}{j}", 0.1, 3) if weights == "any" else weights[0] if len(weights) == 1 else cx.choose(f"w{i}{j}", weights)
        A[i][j] = w
        if not directed:
            A[j][i] = w
    return A, E


def static(cx, n, kind, fmt, mode, weights="any", directed=False, tmax=3):
    N = cx.mod("network_clustering")
    np = cx.np
    A, E = graph(cx, n, kind, weights, directed)
    M = cx.array(A)
    if fmt == "csr":
        M = cx.sp.csr_matrix(M) if not cx.sym else csr_of(cx, A)
    deg = [total(r) for r in A]
    kw = {}
    if mode == "power":
        t = cx.int("t", 0, tmax)
        kw = dict(discrete_time_rw=True, t=t)
    elif mode == "lin":
        kw = dict(linearized=True)
        t = 1
        if cx.flag("say_t"):
            t = kw["t"] = cx.real("t", 0.1, 1)
    else:
        t = 1
        if cx.flag("say_t"):
            t = kw["t"] = cx.real("t", 0.1, 3)
    if directed:
        kw["directed"] = True
    if not E:
        cx.raises("a network without edges is refused", ValueError, N.static_clustering, M, **kw)
        return
    c = N.static_clustering(M, rnd_seed=3, **kw)
    T = [[A[i][j] / deg[i] if any(a == i for a, _ in E) or (not directed and any(b == i for _, b in E)) else
          (1.0 if i == j else 0.0) for j in range(n)] for i in range(n)]
    if mode == "power":
        P = d_eye(n)
        for _ in range(t):
            P = d_mul(P, T)
    elif mode == "lin":
        P = [[(1.0 if i == j else 0.0) * (1 - t) + t * T[i][j] for j in range(n)] for i in range(n)]
    else:
        P = cx.dense(cx.expm([[t * (T[i][j] - (1.0 if i == j else 0.0)) for j in range(n)] for i in range(n)]))
    cx.eq("transition matrix", c.T, P)
    p = cx.dense(c.p1)
    if directed:
        cx.eq("stationary density sums to one", total(list(p)), 1.0)
        cx.eq("stationary density", [total(p[i] * T[i][j] for i in range(n)) for j in range(n)], p)
        for x in p:
            cx.holds("stationary density is not negative", lambda e: x >= -e)
    else:
        cx.eq("stationary density", p, [d / total(deg) for d in deg])
    cx.eq("stationary at both ends", c.p2, p)
    lab, cl = arb_partition(cx, n)
    S = [[p[i] * P[i][j] - p[i] * p[j] for j in range(n)] for i in range(n)]
    c2 = c.__class__(p1=c.p1, p2=c.p2, T=c.T, S=c._S, cluster_list=[set(x) for x in cl])
    cx.eq("stability of a partition", c2.compute_stability(), stab(S, cl))
    cx.eq("the adjacency matrix is unchanged", M, A)


def csr_of(cx, A):
    n = len(A)
    np = cx.np
    data, idx, ptr = [], [], [0]
    for r in A:
        for j, v in enumerate(r):
            if not (isinstance(v, float) and v == 0.0):
                data.append(v)
                idx.append(j)
        ptr.append(len(idx))
    return cx.sp.csr_matrix((cx.array(data), np.array(idx, dtype=np.int32), np.array(ptr, dtype=np.int32)), shape=(n, n))


def multi(cx, n, sparse, repeats):
    """repeated searches"""
    cx.script_rng(3)
    N = cx.mod("network_clustering")
    A = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i, n):
            A[i][j] = A[j][i] = cx.choose(f"w{i}{j}", [0.0, 1.0, 5.0] if j > i else [0.0])
    if not any(any(r) for r in A):
        return
    M = cx.array(A)
    c = N.static_clustering(cx.sp.csr_matrix(M) if sparse else M, t=1, linearized=True)
    before = [sorted(map(int, x)) for x in c.partition.cluster_list]
    loops, lists, stabs, seeds = N.run_multi_louvain(c, repeats)
    cx.check("one result per repetition", len(loops) == len(lists) == len(stabs) == len(seeds) == repeats)
    S = cx.dense(c._S.toarray() if sparse else c._S)
    for cl, s, seed in zip(lists, stabs, seeds):
        valid_partition(cx, cl, n)
        cx.eq("stability of the partition", s, stab(S, cl))
        r = c.__class__(p1=c.p1, p2=c.p2, T=c.T, rnd_seed=seed)
        r.find_louvain_clustering()
        cx.check("the seed reproduces the partition", sorted(sorted(map(int, x)) for x in cl) ==
                 sorted(sorted(map(int, x)) for x in r.partition.cluster_list))
    cx.check("the given clustering is unchanged", [sorted(map(int, x)) for x in c.partition.cluster_list] == before)


def cases(tier):
    q = tier == "quick"
    mods = ("network_clustering",)
    cs = []

    def C(name, fn, keepz=False, **k):
        cs.append(Case(name, fn, k, mods, keepz=keepz))
    for fmt in ("dense", "csr"):
        C(f"power-2-{fmt}", static, n=2, kind="loops", fmt=fmt, mode="power", tmax=2 if q else 3)
        C(f"power-3-{fmt}", static, n=3, kind="no-loops", fmt=fmt, mode="power", tmax=2, weights=[1.0, 3.0] if q else "any")
        C(f"lin-3-{fmt}", static, n=3, kind="no-loops", fmt=fmt, mode="lin")
        C(f"lin-2-{fmt}", static, n=2, kind="loops", fmt=fmt, mode="lin")
        C(f"expm-2-{fmt}", static, n=2, kind="loops", fmt=fmt, mode="expm", weights=[1.0, 2.0])
        C(f"expm-3-{fmt}", static, n=3, kind="no-loops", fmt=fmt, mode="expm", weights=[1.0, 3.0])
        C(f"directed-2-{fmt}", static, n=2, kind="loops", fmt=fmt, mode="power", tmax=2, directed=True)
        C(f"directed-3-{fmt}", static, n=3, kind="no-loops", fmt=fmt, mode="lin", weights=[1.0] if q else [1.0, 2.0], directed=True)
        C(f"directed-3-expm-{fmt}", static, n=3, kind="no-loops", fmt=fmt, mode="expm", weights=[1.0] if q else [1.0, 2.0], directed=True)
        C(f"directed-3-any-{fmt}", static, n=3, kind="cycle", fmt=fmt, mode="lin", directed=True)
        C(f"power-wide-{fmt}", static, n=7, kind="wide", fmt=fmt, mode="power", tmax=2, weights="two")
        C(f"lin-wide-{fmt}", static, n=7, kind="wide", fmt=fmt, mode="lin", weights="two")
        C(f"expm-wide-{fmt}", static, n=7, kind="wide", fmt=fmt, mode="expm", weights=[2.0])
        C(f"multi-{fmt}", multi, n=3, sparse=fmt == "csr", repeats=2)
        C(f"power-4-{fmt}", static, n=4, kind="no-loops", fmt=fmt, mode="power", tmax=2)
        if not q:
            C(f"directed-3-loops-{fmt}", static, n=3, kind="loops", fmt=fmt, mode="power", directed=True)
            C(f"directed-4-{fmt}", static, n=4, kind="no-loops", fmt=fmt, mode="power", weights=[1.0, 2.0], directed=True)
        if not q or fmt == "csr":
            C(f"multi-4-{fmt}", multi, n=4, sparse=fmt == "csr", repeats=2)
    return cs
