"""P04: the gain attributed to a move is the change of stability it causes."""
from fsv.runner import Case
from .common import *
from .p06 import arb_partition, stab

BUDGET = {"quick": 60, "thorough": 800}


def scenario(cx, n, k_max=None):
    """an arbitrary partition, an arbitrary node and an arbitrary other cluster (possibly empty)"""
    lab, cl = arb_partition(cx, n)
    k = node(cx, "k", n)
    dst = cx.int("dst", 0, len(cl))       # len(cl): a cluster of its own
    cx.assume(dst != lab[k])
    cl = [set(c) for c in cl]
    new = [set(c) for c in cl] + [set()]
    new[lab[k]].discard(k)
    new[dst].add(k)
    out = [set(c) for c in cl]
    out[lab[k]].discard(k)
    return lab, cl, k, dst, new, out


def check_moves(cx, c, S, lab, cl, k, dst, new, out, n):
    """out: k removed from its cluster, contributing nothing"""
    s0 = stab(S, cl)
    s_out = stab(S, out)
    s_new = stab(S, new)
    cx.eq("stability of the partition", c.compute_stability(), s0)
    c.partition.cluster_list.append(set())
    r_out = c._compute_delta_stab_moveout(k, lab[k])
    cx.eq("gain of taking the node out", r_out, s_out - s0)
    r_in = c._compute_delta_stab_moveto(k, dst)
    cx.eq("gain of putting the node in", r_in, s_new - s_out)
    c.partition.move_node(k, dst)
    c.partition.remove_empty_clusters()
    cx.eq("stability after the move", c.compute_stability(), s_new)
    cx.eq("gains add up to the stability change", r_out + r_in, c.compute_stability() - s0)


def dense(cx, n, src, cy=True, thr=False, p2g=False, lo=0):
    N = cx.mod("network_clustering")
    lab, cl, k, dst, new, out = scenario(cx, n)
    S = [[cx.real(f"S{i}{j}", -1, 1) for j in range(n)] for i in range(n)]
    kw = {}
    if src == "T":
        T = []
        for i in range(n):
            r = [cx.real(f"T{i}{j}", lo, 1) for j in range(n - 1)]
            r.append(1.0 - total(r))
            cx.assume(r[-1] >= lo)
            T.append(r)
        p1 = cx.reals("p", n, 0, 1)
        p2 = [total(p1[i] * T[i][j] for i in range(n)) for j in range(n)]
        if p2g:
            p2 = cx.reals("q", n, 0, 1)
            kw["p2"] = cx.array(p2)
        S = [[p1[i] * T[i][j] - p1[i] * p2[j] for j in range(n)] for i in range(n)]
        kw.update(T=cx.array(T), p1=cx.array(p1))
    else:
        kw["S"] = cx.array(S)
    if thr:
        # entries of a size below the threshold count as zero
        t = cx.real("thr", 0.05, 0.5)
        kw["S_threshold"] = t
        for r in S:
            for x in r:
                for y in (x, -x):
                    cx.assume(cx.Or(y < t - 1e-6, y > t + 1e-6))
        S = [[0.0 if cx.truth(cx.And(x < t, x > -t)) else x for x in r] for r in S]
    if not thr and cx.flag("as_mapping"):
        part = dict(node_to_cluster_dict=dict(enumerate(lab)))
    else:
        part = dict(cluster_list=[set(x) for x in cl])
    c = N.Clustering(rnd_seed=1, **part, **kw)
    check_moves(cx, c, S, lab, cl, k, dst, new, out, n)


def sparse(cx, n, kind, scalar=False, sym=False):
    """sparse autocovariance: arbitrary flow matrix and probabilities"""
    N = cx.mod("network_clustering")
    A = cx.mod("sparse_stoch_mat").SparseAutocovMat
    lab, cl, k, dst, new, out = scenario(cx, n)
    pat = pattern(cx, "Pp", n, n, kind)
    if sym:
        pat = [[pat[min(i, j)][max(i, j)] for j in range(n)] for i in range(n)]
        vals = {}
        D = [[0.0] * n for _ in range(n)]
        for i in range(n):
            for j in range(n):
                if pat[i][j]:
                    key = (min(i, j), max(i, j))
                    if key not in vals:
                        vals[key] = cx.real(f"P{key[0]}{key[1]}", 0, 1)
                        cx.assume(vals[key] > 0)
                    D[i][j] = vals[key]
        PT = cx.sp.csr_matrix(cx.array(D))
    else:
        PT, D = csr(cx, "P", pat, 0, 1, shuffle=cx.flag("unsorted"))
    if scalar:
        p1 = p2 = [1.0 / n] * n
        S = A(PT, 1.0 / n, 1.0 / n, PT_symmetric=sym)
    else:
        p1 = cx.reals("p", n, 0, 1)
        p2 = p1 if sym else cx.reals("q", n, 0, 1)
        S = A(PT, cx.array(p1), cx.array(p2), PT_symmetric=sym)
    W = [[D[i][j] - p1[i] * p2[j] for j in range(n)] for i in range(n)]
    c = N.SparseClustering(S=S, p1=cx.array(p1), p2=cx.array(p2), cluster_list=[set(x) for x in cl], rnd_seed=1)
    check_moves(cx, c, W, lab, cl, k, dst, new, out, n)


def twoside(cx, n, src="S"):
    """clustered covariance of independent source and target partitions under moves"""
    np = cx.np
    N = cx.mod("network_clustering")
    S = [[cx.real(f"S{i}{j}", -1, 1) for j in range(n)] for i in range(n)]
    ls, cs = arb_partition(cx, n, "s")
    lt, ct = arb_partition(cx, n, "t")
    k = node(cx, "k", n)
    kw = dict(S=cx.array(S))
    if src == "T":
        # any transition matrix with any densities
        p1, p2, T = cx.reals("p", n, 0, 1), cx.reals("q", n, 0, 1), []
        for i in range(n):
            r = [cx.real(f"T{i}{j}", 0, 1) for j in range(n - 1)]
            r.append(1.0 - total(r))
            cx.assume(r[-1] >= 0)
            T.append(r)
        S = [[p1[i] * T[i][j] - p1[i] * p2[j] for j in range(n)] for i in range(n)]
        kw = dict(T=cx.array(T), p1=cx.array(p1), p2=cx.array(p2))
    c = N.BaseClustering(**kw, source_cluster_list=[set(x) for x in cs], target_cluster_list=[set(x) for x in ct], rnd_seed=1)

    def clustered(a, b):
        return [[total(S[i][j] for i in x for j in y) for y in b] for x in a]
    cx.eq("clustered covariance", c._compute_clustered_autocov(), clustered(cs, ct))
    if n < WIDE:
        ds, dt = cx.int("ds", 0, len(cs) - 1), cx.int("dt", 0, len(ct) - 1)
    else:
        ds, dt = 0, len(ct) - 1
    o_s = [set(x) - {k} for x in cs]
    o_t = [set(x) - {k} for x in ct]
    R1 = c._compute_new_R_moveout(k, (ls[k], lt[k]))
    cx.eq("after taking the node out", R1, clustered(o_s, o_t))
    n_s, n_t = [set(x) for x in o_s], [set(x) for x in o_t]
    n_s[ds].add(k)
    n_t[dt].add(k)
    R2 = c._compute_new_R_moveto(k, (ls[k], lt[k]), (ds, dt), R1)
    cx.eq("after putting the node in", R2, clustered(n_s, n_t))


def kernels(cx, n):
    """the compiled kernels on arbitrary inputs"""
    np = cx.np
    F = cx.cy("_cython_fast_funcs")
    S = [[cx.real(f"S{i}{j}", -1, 1) for j in range(n)] for i in range(n)]
    k = node(cx, "k", n)
    ix = [i for i in subset(cx, "x", n) if i != k]
    a = cx.array(S)
    cx.eq("move in", F.sum_Sto(a, k, ix), total(S[k][i] + S[i][k] for i in ix) + S[k][k])
    cx.eq("move out", F.sum_Sout(a, k, ix + [k]), -1.0 * (total(S[k][i] + S[i][k] for i in ix) + S[k][k]))
    p0, pt = cx.reals("p", n, 0, 1), cx.reals("q", n, 0, 1)
    for x in pt:
        cx.assume(x > 0.01)
    T = S
    cx.eq("covariance", F.compute_S(cx.array(p0), cx.array(pt), a), [[p0[i] * T[i][j] - p0[i] * pt[j] for j in range(n)] for i in range(n)])
    cx.eq("round-trip covariance", F.compute_S_0t0(cx.array(p0), cx.array(pt), a),
          [[total(p0[i] * T[i][l] * (1 / pt[l]) * T[j][l] * p0[j] for l in range(n)) - p0[i] * p0[j] for j in range(n)] for i in range(n)])


def cases(tier):
    q = tier == "quick"
    mods = ("network_clustering",)

    def C(name, fn, keepz=False, **k):
        return Case(name, fn, k, mods, keepz=keepz)
    cs = [C("dense-S-n3", dense, n=3, src="S"), C("dense-S-n4", dense, n=4, src="S"), C("dense-T-n3", dense, n=3, src="T", lo=0.01),
          C("dense-T-n2", dense, n=2, src="T"), C("dense-T-n2-target", dense, n=2, src="T", p2g=True),
          C("dense-T-n3-target", dense, n=3, src="T", p2g=True, lo=0.01), C("dense-S-threshold", dense, n=2, src="S", thr=True),
          C("dense-T-threshold", dense, n=2, src="T", thr=True, lo=0.01),
          C("sparse-n2-any", sparse, n=2, kind="any"), C("sparse-n3", sparse, n=3, kind="coarse"),
          C("sparse-n4-full", sparse, n=4, kind="full"), C("sparse-n3-scalar", sparse, n=3, kind="coarse", scalar=True),
          C("sparse-n3-sym", sparse, n=3, kind="coarse", sym=True), C("sparse-n3-sym-scalar", sparse, n=3, kind="coarse", sym=True, scalar=True),
          C("twoside-n2", twoside, n=2), C("twoside-n3", twoside, n=3), C("twoside-T", twoside, n=2, src="T"), C("kernels-n2", kernels, n=2), C("kernels-n3", kernels, n=3)]
    cs += [C("dense-S-n5", dense, n=5, src="S"), C("sparse-n4", sparse, n=4, kind="coarse"), C("twoside-n4", twoside, n=4)]
    cs += [C("dense-wide", dense, n=7, src="S"), C("sparse-wide", sparse, n=7, kind="wide"), C("twoside-wide", twoside, n=7),
           C("kernels-wide", kernels, n=7)]
    if not q:
        cs += [C("sparse-n3-any", sparse, n=3, kind="any"), C("sparse-n5-full", sparse, n=5, kind="full")]
    return cs

BOUNDS = ['2-4 nodes, arbitrary real covariance entries (dense), arbitrary or listed sparsity patterns with arbitrary entries and densities (sparse), every partition, node and target cluster, one- and two-sided clusterings',
          "larger structures: 7 nodes with listed partitions (up to 7 clusters) and patterns, arbitrary values"]
OUTSIDE = ['node and cluster indices outside the matrix']
ASSUMPTIONS = ['exact real arithmetic in place of float64']
