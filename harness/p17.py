"""P17: parallel computations give what the serial ones give."""
import itertools

from fsv.runner import Case
from .common import *
from .p06 import arb_partition, valid_partition, stab
from .p07 import info
from .p09 import weighted, to_sparse, neg_scaled

BUDGET = {"quick": 45, "thorough": 800}
BOUNDS = ["2-4 nodes (up to 4 components), arbitrary weighted random-walk Laplacians, factors, thresholds",
          "pools of 1-3 workers, every assignment of tasks to workers, every worker starting from the state at the fork",
          "the component size from which columns are computed separately (1000) is read as 2 or 3",
          "2 repetitions of Louvain with the first draws of each seed arbitrary; all partitions of 3 nodes for NVI",
          "larger structures: 7-8 nodes on listed graphs"]
OUTSIDE = ["simultaneous writes of workers to shared arrays (workers are run one task at a time)",
           "start methods other than fork", "accuracy of scipy's expm_multiply"]
ASSUMPTIONS = ["multiprocessing.Pool.map returns the results in task order; RawArray memory is shared"]
BIG = (("parallel_expm", 1000, 3), ("temporal_network", 1000, 2))
BIG2 = (("parallel_expm", 1000, 2), ("temporal_network", 1000, 2))


def thresholded(cx, E, r, n, per_col):
    def mx(vals):
        m = vals[0]
        for v in vals[1:]:
            m = cx.ite(v > m, v, m)
        return m
    if r is None:
        return E
    if per_col:
        ms = [mx([E[i][j] for i in range(n)]) for j in range(n)]
    else:
        ms = [mx([E[i][j] for i in range(n) for j in range(n)])] * n
    return [[cx.ite(E[i][j] * r < ms[j], 0.0, E[i][j]) for j in range(n)] for i in range(n)]


def compare(cx, X, K, norm, n):
    X = cx.dense(X)
    for i in range(n):
        s = total(K[i])
        for j in range(n):
            if norm and cx.truth(s != 0):
                cx.eq("exponential, normalised", X[i][j] * s, K[i][j])
            else:
                cx.eq("exponential", X[i][j], K[i][j])


def expm(cx, n, which, thresh=False, big=None, zeros=True, fmts=("csc",), fixed=False, simple=False):
    if big:
        P = cx.variant("parallel_expm", consts=big)
    else:
        P = cx.mod("parallel_expm")
    if fixed:
        L, adj = listed(cx, n)
    else:
        L, adj = weighted(cx, n)
    f = cx.real("fact", 0, 4)
    cx.assume(f > 0.1)
    A = -f * to_sparse(cx, L, fmts[0] if len(fmts) == 1 else cx.choose("fmt", list(fmts)),
                       zeros=zeros and cx.flag("zeros"))
    kw = {}
    r = None
    if thresh:
        r = cx.real("ratio", 1, 100)
        cx.assume(r > 1.1)
        kw["thresh_ratio"] = r
    norm = True
    if not simple and cx.flag("say_norm"):
        norm = kw["normalize_rows"] = cx.flag("normalise")
    E = cx.dense(cx.expm(neg_scaled(L, f)))
    if which == "subspace" and not simple and cx.flag("labels"):
        lab = {}
        for i in range(n):
            c = i
            for j in range(i):
                if reach(adj, n, i, j):
                    c = j
                    break
            lab[i] = lab[c] if c != i else len(set(lab.values()))
        kw.update(n_comp=len(set(lab.values())), comp_labels=cx.np.array([lab[i] for i in range(n)]))
    nproc = 2 if simple else cx.choose("nproc", [1, 2])
    fn = P.compute_parallel_expm if which == "columns" else P.compute_subspace_expm_parallel
    import contextlib
    with (cx.active(consts=big) if big else contextlib.nullcontext()):
        X = fn(A, nproc=nproc, verbose=False, **kw)
    cx.check("csr matrix", X.format == "csr" and X.shape == (n, n))
    compare(cx, X, thresholded(cx, E, r, n, which == "columns"), norm, n)
    cx.eq("the argument is unchanged", A, neg_scaled(L, f))
    cx.check("shared state is cleaned up", not P.var_dict)


def reach(adj, n, a, b):
    R = {a}
    for _ in range(n):
        R |= {j for i in R for j in range(n) if adj[i][j] or adj[j][i]}
    return b in R


def listed(cx, n):
    """Laplacians of graphs with unequal weights"""
    adj = [[0] * n for _ in range(n)]
    if n >= WIDE:
        rest = [i for i in range(n) if i not in (1, 4)]
        apart = {frozenset(e) for e in zip(rest, rest[1:] + rest[:1])} | {frozenset((1, 4))}
        f = dict(WIDE_F, apart=lambda i, j, r, c: frozenset((i, j)) in apart)[
            cx.choose("graph", ["ring", "blocks", "star", "steps", "apart"])]
        adj = [[int(i != j and (f(i, j, n, n) or f(j, i, n, n))) for j in range(n)] for i in range(n)]
    for i in range(n):
        for j in range(i + 1, n if n < WIDE else 0):
            if cx.flag(f"e{i}{j}"):
                adj[i][j] = adj[j][i] = 1
    L = []
    for i in range(n):
        w = [adj[i][j] * (1 + i + 2 * j) for j in range(n)]
        s = sum(w)
        L.append([(1.0 if i == j else 0.0) - w[j] / s if s else 0.0 for j in range(n)])
        L[i] = [0.0 if x == 0 else x for x in L[i]]
    return L, adj


def lapl(cx, n):
    """the route of the random walk on large networks"""
    T = cx.variant("temporal_network", consts=BIG)
    L, adj = listed(cx, n)
    f = cx.real("fact", 0, 4)
    cx.assume(f > 0.1)
    M = to_sparse(cx, L, cx.choose("fmt", ["csc", "csr"]))
    nproc = cx.choose("nproc", [1, 2])
    with cx.active(consts=BIG):
        X = T.sparse_lapl_expm(M, f, dense_expm=False, nproc=nproc)
    cx.eq("exponential", X, cx.expm(neg_scaled(L, f)))
    cx.eq("the Laplacian is left unchanged", M, L)


MATS = {"symmetric": [[0.5, 0.5, 0.0], [0.5, 0.3, 0.2], [0.0, 0.2, 0.8]],
        "cycle": [[0.1, 0.9, 0.0], [0.0, 0.1, 0.9], [0.9, 0.0, 0.1]],
        "drift": [[0.2, 0.8, 0.0], [0.0, 0.4, 0.6], [0.0, 0.1, 0.9]],
        "blocks": [[0.5, 0.5, 0.0], [0.4, 0.6, 0.0], [0.0, 0.0, 1.0]]}


def clust(cx, sparse, repeats=2, draws=2, nproc=(2,), few=False):
    cx.script_rng(per_seed=draws)
    PC = cx.mod("parallel_clustering")
    N = cx.mod("network_clustering")
    np = cx.np
    n = 3
    T = MATS[cx.choose("T", list(MATS))]
    p1 = cx.choose("p1", [[0.6, 0.3, 0.1], [1 / 3, 1 / 3, 1 / 3]][:1 if few else 2])
    p2 = [sum(p1[i] * T[i][j] for i in range(n)) for j in range(n)]
    S = [[p1[i] * T[i][j] - p1[i] * p2[j] for j in range(n)] for i in range(n)]

    def mk(seed=None):
        M = cx.array(T)
        return (N.SparseClustering(T=cx.sp.csr_matrix(M), p1=cx.array(p1), rnd_seed=seed) if sparse
                else N.Clustering(T=M, p1=cx.array(p1), rnd_seed=seed))
    c = mk(7)
    kw = {}
    if cx.flag("limits"):
        kw = dict(n_meta_iter_max=1 if few else cx.choose("meta", [1, 2]), n_sub_iter_max=1 if few else cx.choose("sub", [1, 2]))
    before = [sorted(map(int, x)) for x in c.partition.cluster_list]
    res = PC.compute_parallel_clustering(c, num_repeat=repeats, nproc=cx.choose("nproc", list(nproc)) if len(nproc) > 1
                                         else nproc[0], verbose=False, **kw)
    cx.check("three lists", len(res) == 3 and all(len(x) == repeats for x in res))
    cx.check("different seeds", len(set(res[2])) == repeats)
    for cl, s, seed in zip(*res):
        valid_partition(cx, cl, n)
        cx.eq("stability of the partition", s, stab(S, cl))
        r = mk(seed)
        r.find_louvain_clustering(**kw)
        cx.check("same as the serial search with that seed", sorted(sorted(map(int, x)) for x in cl) ==
                 sorted(sorted(map(int, x)) for x in r.partition.cluster_list))
    cx.eq("the matrix is unchanged", c._S.PT if sparse else c._S,
          [[p1[i] * T[i][j] for j in range(n)] for i in range(n)] if sparse else S)
    cx.check("the clustering is unchanged", [sorted(map(int, x)) for x in c.partition.cluster_list] == before)
    cx.check("shared state is cleaned up", not PC.var_dict)


def nvi(cx, n, k, few=False):
    PC = cx.mod("parallel_clustering")
    cx.script_rng(per_seed=2)
    ps = [arb_partition(cx, n, "abcd"[i])[1] for i in range(k)]
    prs = list(itertools.combinations(range(k), 2))
    m = cx.choose("samples", [None] + list(range(1, len(prs) if few else len(prs) + 2)))
    vs = []
    for i, j in prs:
        N, Ha, Hb, Hab = info(cx, ps[i], ps[j])
        vs.append((2 * Hab - Ha - Hb) / (N * cx.log2(N)))
    x = PC.compute_parallel_nvi([[set(c) for c in p] for p in ps], n, nproc=2 if few else cx.choose("nproc", [1, 2]),
                                verbose=False, num_varinf_samples=m)
    q = len(prs) if m is None else min(m, len(prs))
    cx.check("number of samples", len(x) == q)
    cx.holds("values of different pairs, in order", lambda eps: cx.Or(*[
        cx.And(*[cx.And(cx.leq(x[a] - vs[i], eps), cx.leq(vs[i] - x[a], eps)) for a, i in enumerate(s)])
        for s in itertools.combinations(range(len(prs)), q)]))


def cases(tier):
    q = tier == "quick"
    cs = []

    def C(name, fn, mods=("parallel_expm",), keepz=False, **k):
        cs.append(Case(name, fn, k, mods, keepz=keepz))
    C("columns-2", expm, n=2, which="columns", fmts=("csc", "csr"))
    C("columns-3", expm, n=3, which="columns", fixed=True, zeros=False)
    C("columns-threshold", expm, n=2, which="columns", thresh=True)
    C("subspace-2", expm, n=2, which="subspace", fmts=("csc", "csr"))
    C("subspace-3", expm, n=3, which="subspace", zeros=False)
    C("subspace-4", expm, n=4, which="subspace", fixed=True, zeros=False, simple=q)
    C("subspace-threshold", expm, n=2, which="subspace", thresh=True, zeros=not q)
    C("subspace-big-2", expm, n=3, which="subspace", big=BIG2, fixed=True, zeros=False)
    C("subspace-big-3", expm, n=4, which="subspace", big=BIG, fixed=True, zeros=False, simple=q)
    C("laplacian", lapl, n=4, mods=("temporal_network",))
    C("columns-wide", expm, n=7, which="columns", fixed=True, zeros=False, simple=True)
    C("subspace-wide", expm, n=8, which="subspace", fixed=True, zeros=False)
    C("subspace-wide-big", expm, n=7, which="subspace", big=BIG, fixed=True, zeros=False, simple=True)
    C("laplacian-wide", lapl, n=8, mods=("temporal_network",))
    for s in (False, True):
        C(f"louvain-{'sparse' if s else 'dense'}", clust, sparse=s, few=q, mods=("parallel_clustering",))
    C("nvi-3", nvi, n=3, k=3, few=q, mods=("parallel_clustering",))
    if not q:
        C("columns-3-any", expm, n=3, which="columns")
        C("subspace-threshold-3", expm, n=3, which="subspace", thresh=True)
        C("louvain-dense-3", clust, sparse=False, repeats=3, nproc=(1, 2, 3), mods=("parallel_clustering",))
        C("louvain-sparse-3", clust, sparse=True, repeats=3, nproc=(1, 2, 3), mods=("parallel_clustering",))
        C("nvi-4", nvi, n=3, k=4, mods=("parallel_clustering",))
    return cs
