"""P09: inter-event transition matrices are the exponentials (or linear
approximations) of the Laplacians, row stochastic."""
from fsv.runner import Case
from .common import *
from .nets import *

BUDGET = {"quick": 60, "thorough": 800}


def neg_scaled(L, f):
    return [[-f * x if isinstance(x, float) is False or x != 0 else 0.0 for x in r] for r in L]


def stationary(A):
    """random walk at stationarity: proportional to the degree in the component"""
    n = len(A)
    lab = components(A)
    P = [[0.0] * n for _ in range(n)]
    for i in range(n):
        comp = [j for j in range(n) if lab[j] == lab[i]]
        if len(comp) == 1:
            P[i][i] = 1.0
            continue
        tot = sum(sum(A[j]) for j in comp)
        for j in comp:
            P[i][j] = sum(A[j]) / tot
    return P


def lin_oracle(cx, A, x, ts, Pi=None):
    """piecewise interpolation between I, T and Pi (x concrete branch decided by the caller)"""
    n = len(A)
    L = laplacian(A)
    T = [[(1.0 if i == j else 0.0) - L[i][j] for j in range(n)] for i in range(n)]
    Pi = Pi or stationary(A)
    if cx.truth(x <= 1):
        return [[(1 - x) * (1.0 if i == j else 0.0) + x * T[i][j] for j in range(n)] for i in range(n)]
    if cx.truth(x < ts):
        return [[((ts - x) * T[i][j] + (x - 1) * Pi[i][j]) / (ts - 1) for j in range(n)] for i in range(n)]
    return Pi


def check_rows(cx, label, M):
    D = cx.dense(M)
    for i in range(len(D)):
        cx.eq(label, total(list(D[i])), 1.0)


def build(cx, n, m, K, cls="ContTempNetwork", fixed=None, how="list", win=None, idle=True):
    inst = cls == "ContTempInstNetwork"
    t = timeline(cx, K)
    ev = some_events(cx, n, m, K, fixed=fixed, orient=False)
    if inst:
        ss = sorted({e[2] for e in ev})
        t = t + [t[ss[-1]] + 1]
        nxt = {a: b for a, b in zip(ss, ss[1:] + [K])}
        ev = [(u, v, s, nxt[s]) for u, v, s, _ in ev]
    net, idx = network(cx, ev, t, how, cls=cls)
    ks = used_times(ev)
    if win:
        a = cx.int("from", 0, len(ks) - 1)
        b = cx.int("to", a, len(ks) - 1)
        kw = dict(t_start=t[ks[a]], t_stop=t[ks[b]])
        sel = ks[a:b + 1]
        if len(sel) == 1:
            sel = []
    else:
        kw, sel = {}, ks
    steps = [(adjacency(ev, idx, k, inst), 1.0 if inst else t[sel[i + 1]] - t[k]) for i, k in enumerate(sel[:-1])]
    if win and not steps:
        # no step in the window: nobody moves
        N = len(idx)
        steps = [([[0] * N for _ in range(N)], 0.0)]
    ut = [t[k] for k in ks]
    return net, idx, steps, kw, ut


def median_gap(cx, ut):
    d = [b - a for a, b in zip(ut, ut[1:])]
    for i in range(len(d)):
        for j in range(len(d) - 1 - i):
            if cx.truth(d[j] > d[j + 1]):
                d[j], d[j + 1] = d[j + 1], d[j]
    h = len(d) // 2
    return d[h] if len(d) % 2 else (d[h - 1] + d[h]) / 2


def inter(cx, lam="sym", win=False, order="direct", **b):
    net, idx, steps, kw, ut = build(cx, win=win, **b)
    fmt = cx.choose("format", ["dense", "sparse", "stoch-dense", "stoch-sparse"])
    opt = dict(use_sparse_stoch=fmt.startswith("stoch"), dense_expm=fmt.endswith("dense"))
    if lam == "sym":
        la = cx.real("lamda", 0, 4)
        cx.assume(la > 0.1)
        given = la
    else:
        given, la = None, 1 / median_gap(cx, ut)
    if order == "laplacians":
        net.compute_laplacian_matrices(**kw)
        net.compute_inter_transition_matrices(lamda=given, **opt)
    else:
        net.compute_inter_transition_matrices(lamda=given, **kw, **opt)
    keys = list(net.inter_T.keys())
    cx.check("one rate", len(keys) == 1)
    cx.eq("rate", keys[0], la)
    Ts = net.inter_T[keys[0]]
    cx.check("one matrix per step", len(Ts) == len(steps))
    for T, (A, tau) in zip(Ts, steps):
        check_rows(cx, "rows sum to one", T)
        cx.eq("exponential of the Laplacian over the step", T, cx.expm(neg_scaled(laplacian(A), tau * la)))
        if opt["use_sparse_stoch"]:
            cx.check("compressed format", type(T).__name__ == "SparseStochMat")


def lin(cx, lam="sym", win=False, ts="default", hi=20, **b):
    net, idx, steps, kw, ut = build(cx, win=win, **b)
    stoch = cx.flag("compressed")
    la = cx.real("lamda", 0, hi)
    cx.assume(la > 0.1)
    if ts == "default":
        t_s, kt = 10, {}
    else:
        t_s = cx.real("t_s", 1, 20)
        cx.assume(t_s > 1.1)
        kt = dict(t_s=t_s)
    given = la
    if lam is None:
        given, la = None, 1 / median_gap(cx, ut)
    net.compute_lin_inter_transition_matrices(lamda=given, use_sparse_stoch=stoch, **kw, **kt)
    keys = list(net.inter_T_lin.keys())
    cx.check("one rate", len(keys) == 1)
    cx.eq("rate", keys[0], la)
    k2 = list(net.inter_T_lin[keys[0]].keys())
    cx.check("one stationarity time", len(k2) == 1)
    cx.eq("stationarity time", k2[0], t_s)
    Ts = net.inter_T_lin[keys[0]][k2[0]]
    cx.check("one matrix per step", len(Ts) == len(steps))
    for T, (A, tau) in zip(Ts, steps):
        check_rows(cx, "rows sum to one", T)
        cx.eq("interpolation of the transition matrix over the step", T, lin_oracle(cx, A, tau * la, t_s))


def weighted(cx, n, name="w"):
    """random-walk Laplacian with arbitrary transition probabilities along the edges of an arbitrary graph"""
    adj = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1, n):
            if cx.flag(f"{name}e{i}{j}"):
                adj[i][j] = adj[j][i] = 1
    L = []
    for i in range(n):
        nb = [j for j in range(n) if adj[i][j]]
        row = [0.0] * n
        if nb:
            row[i] = 1.0
            rest = 1.0
            for j in nb[:-1]:
                w = cx.real(f"{name}{i}{j}", 0, 1)
                cx.assume(w > 0.05)
                row[j] = -w
                rest = rest - w
            if len(nb) > 1:
                cx.assume(rest > 0.05)
            row[nb[-1]] = -rest
        L.append(row)
    return L, adj


def to_sparse(cx, L, fmt, zeros=False):
    """sparse matrix of the entries (stored zeros on the diagonal of empty rows if asked)"""
    np = cx.np
    data, idx, ptr = [], [], [0]
    n = len(L)
    for i in range(n):
        for j in range(n):
            if not (isinstance(L[i][j], float) and L[i][j] == 0.0) or (zeros and i == j):
                data.append(L[i][j])
                idx.append(j)
        ptr.append(len(idx))
    M = cx.sp.csr_matrix((cx.array(data), np.array(idx, dtype=np.int32), np.array(ptr, dtype=np.int32)), shape=(n, n))
    return M.tocsc() if fmt == "csc" else M


def lapl_expm(cx, n, sub):
    L, adj = weighted(cx, n)
    f = cx.real("fact", 0, 4)
    cx.assume(f > 0.1)
    T = cx.mod("temporal_network")
    M = to_sparse(cx, L, cx.choose("fmt", ["csc", "csr"]))
    E = cx.expm(neg_scaled(L, f))
    if sub:
        A = (-f * M).tocsc()
        X = T.compute_subspace_expm(A)
    else:
        X = T.sparse_lapl_expm(M, f, dense_expm=cx.flag("dense"))
    cx.eq("exponential", X, E)
    cx.eq("the Laplacian is left unchanged", M, L)
    check_rows(cx, "rows sum to one", X)


def sub_thresh(cx, n):
    """values below max/ratio are dropped, rows sum to one when normalised"""
    L, adj = weighted(cx, n)
    f = cx.real("fact", 0, 4)
    r = cx.real("ratio", 1, 100)
    cx.assume(cx.And(f > 0.1, r > 1.1))
    norm = cx.flag("normalise")
    T = cx.mod("temporal_network")
    A = (-f * to_sparse(cx, L, "csc")).tocsc()
    X = cx.dense(T.compute_subspace_expm(A, thresh_ratio=r, normalize_rows=norm))
    E = cx.dense(cx.expm(neg_scaled(L, f)))
    mx = E[0][0]
    for i in range(n):
        for j in range(n):
            mx = cx.ite(E[i][j] > mx, E[i][j], mx)
    K = [[cx.ite(E[i][j] * r < mx, 0.0, E[i][j]) for j in range(n)] for i in range(n)]
    for i in range(n):
        s = total(K[i])
        if norm and cx.truth(s != 0):
            for j in range(n):
                cx.eq("thresholded and normalised", X[i][j] * s, K[i][j])
        else:
            for j in range(n):
                cx.eq("thresholded", X[i][j], K[i][j])


def lin_direct(cx, n, stoch=False):
    T = cx.mod("temporal_network")
    A = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1, n):
            if cx.flag(f"e{i}{j}"):
                A[i][j] = A[j][i] = 1
    L = laplacian(A)
    P = [[(1.0 if i == j else 0.0) - L[i][j] for j in range(n)] for i in range(n)]
    x = cx.real("t", -1, 30)
    ts = cx.real("t_s", 1, 20)
    cx.assume(ts > 1.1)
    M = to_sparse(cx, P, "csr", zeros=cx.flag("stored_zeros"))
    PD = stationary(A)
    give = cx.choose("pi", ["none", "own", "other"] + (["compressed"] if stoch else []))
    if give in ("other", "compressed"):      # the matrix given is the one used
        PD = [[0.5 * PD[i][j] + 0.5 * P[i][j] for j in range(n)] for i in range(n)]
    Pi = None if give == "none" else cx.sp.csr_matrix(cx.np.array(PD))
    if give == "compressed":
        Pi = cx.mod("sparse_stoch_mat").SparseStochMat.from_full_csr_matrix(Pi)
    f = T.sparse_lin_approx if stoch else T.lin_approx_trans_matrix
    if cx.truth(x < 0):
        cx.raises("negative time refused", ValueError, lambda: f(M, x, Pi=Pi, t_s=ts))
        return
    X = f(M, x, Pi=Pi, t_s=ts)
    cx.eq("interpolation", X, lin_oracle(cx, A, x, ts, PD))
    check_rows(cx, "rows sum to one", X)
    cx.eq("stationary transition", T.sparse_stationary_trans(M) if stoch else T.compute_stationary_transition(M.copy()),
          stationary(A))
    cx.eq("argument unchanged", M, P)
    if Pi is not None:
        cx.eq("stationary matrix given unchanged", Pi.toarray(), PD)


def cases(tier):
    q = tier == "quick"
    mods = ("temporal_network",)

    def C(name, fn, keepz=False, **k):
        return Case(name, fn, k, mods, keepz=keepz)
    F2 = [(0, 2), (1, 3)]
    cs = [C("n2-m2", inter, n=2, m=2, K=4),
          C("n3-m2", inter, n=3, m=2, K=4, fixed=F2),
          C("n4-m2", inter, n=4, m=2, K=4, fixed=[(0, 1), (2, 3)]),
          C("n4-m3", inter, n=4, m=3, K=3, fixed=[(0, 2), (0, 1), (0, 2)]),
          C("n3-m2-table", inter, n=3, m=2, K=3, fixed=[(0, 1), (1, 2)], how="table", order="laplacians"),
          C("n3-m2-default-rate", inter, n=3, m=2, K=4, fixed=F2, lam=None),
          C("n3-m2-window", inter, n=3, m=2, K=4, fixed=F2, win=True),
          C("n3-m2-window-lapl", inter, n=3, m=2, K=4, fixed=F2, win=True, order="laplacians"),
          C("inst", inter, n=3, m=2, K=3, cls="ContTempInstNetwork"),
          C("lin-n3-m2", lin, n=3, m=2, K=4, fixed=F2),
          C("lin-n4-m3", lin, n=4, m=3, K=3, fixed=[(0, 2), (0, 1), (0, 2)], ts="sym"),
          C("lin-window", lin, n=3, m=2, K=4, fixed=F2, win=True),
          C("lin-inst", lin, n=3, m=2, K=3, cls="ContTempInstNetwork", fixed=[(0, 1), (1, 2)]),
          C("lin-default-rate", lin, n=3, m=2, K=4, fixed=F2, lam=None, ts="sym"),
          C("laplacian-expm-3", lapl_expm, n=3, sub=False),
          C("laplacian-expm-4", lapl_expm, n=4, sub=False),
          C("subspace-3", lapl_expm, n=3, sub=True),
          C("subspace-4", lapl_expm, n=4, sub=True),
          C("subspace-threshold", sub_thresh, n=2),
          C("lin-direct-3", lin_direct, n=3),
          C("lin-direct-stoch-3", lin_direct, n=3, stoch=True)]
    cs += [C("wide", inter, n=7, m=None, K=8), C("lin-wide", lin, n=7, m=None, K=8, hi=0.24, keepz=True)]
    if not q:
        cs += [C("wide-window", inter, n=7, m=None, K=8, win=True), C("n3-m3", inter, n=3, m=3, K=4), C("n4-m4", inter, n=4, m=4, K=4, fixed=[(0, 2), (1, 2), (1, 3), (0, 1)]),
               C("n4-m3-window", inter, n=4, m=3, K=4, fixed=[(0, 2), (1, 3), (1, 2)], win=True),
               C("lin-n4-m4", lin, n=4, m=4, K=4, fixed=[(0, 2), (1, 2), (1, 3), (0, 1)], ts="sym"),
               C("lin-direct-4", lin_direct, n=4), C("lin-direct-stoch-4", lin_direct, n=4, stoch=True),
               C("subspace-threshold-3", sub_thresh, n=3)]
    return cs

BOUNDS = ['2-4 nodes, 1-3 contacts, 2-4 times; rates and stationarity times arbitrary positive reals; windows arbitrary; every format',
          "larger structures: 7 nodes, 8-10 listed contacts at 8 arbitrary times"]
OUTSIDE = ["numerical accuracy of scipy's matrix exponential", 'components above the parallel size threshold (see P17)']
ASSUMPTIONS = ["expm is an uninterpreted function of its argument with the contract: block structure of the argument, rows of a Laplacian's exponential sum to one, entries non-negative, expm(0)=I"]
