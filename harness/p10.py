"""P10: transition matrices over several steps are the ordered products of the
inter-event matrices, row stochastic."""
from fsv.runner import Case
from .common import *
from .nets import *

BUDGET = {"quick": 75, "thorough": 800}


def rows(cx, name, n, edges, lo=0.02):
    """stochastic rows: arbitrary probabilities along the given edges"""
    M = []
    for i in range(n):
        cols = [j for j in range(n) if j == i or (i, j) in edges or (j, i) in edges]
        r = [0.0] * n
        rest = 1.0
        for j in cols:
            if j == i:
                continue
            v = cx.real(f"{name}_{i}{j}", 0, 1)
            cx.assume(v > lo)
            r[j] = v
            rest = rest - v
        r[i] = rest
        if len(cols) > 1:
            cx.assume(rest > lo)
        M.append(r)
    return M


def as_format(cx, M, edges, fmt):
    """csr or compressed matrix with these entries"""
    np = cx.np
    n = len(M)
    act = sorted({x for e in edges for x in e})
    nz = act if fmt == "stoch" else list(range(n))
    data, idx, ptr = [], [], [0]
    for i in nz:
        for b, j in enumerate(nz):
            if not (isinstance(M[i][j], float) and M[i][j] == 0.0):
                data.append(M[i][j])
                idx.append(b if fmt == "stoch" else j)
        ptr.append(len(idx))
    d, ix, pt = cx.array(data), np.array(idx, dtype=np.int32), np.array(ptr, dtype=np.int32)
    if fmt == "stoch":
        return cx.mod("sparse_stoch_mat").SparseStochMat(n, d, ix, pt, np.array(nz, dtype=np.int32))
    return cx.sp.csr_matrix((d, ix, pt), shape=(n, n))


def some_net(cx, n):
    T = cx.mod("temporal_network")
    return T.ContTempNetwork(source_nodes=list(range(n - 1)), target_nodes=list(range(1, n)),
                             starting_times=[0.0] * (n - 1), ending_times=[1.0] * (n - 1))


def thresholded(cx, M, tol, act=None, normalise=True):
    """entries up to tol times the largest one (of the active nodes) dropped"""
    n = len(M)
    mx = None
    for i, r in enumerate(M):
        for j, v in enumerate(r):
            if isinstance(v, float) and v == 0.0 or (act is not None and not (i in act and j in act)):
                continue
            if mx is None or cx.truth(v > mx):
                mx = v
    out = []
    for r in M:
        if mx is None:
            out.append(list(r))
            continue
        q = [0.0 if (isinstance(v, float) and v == 0.0) or cx.truth(v <= tol * mx) else v for v in r]
        s = total(q)
        if normalise and not (isinstance(s, float) and s == 0.0):
            q = [x if isinstance(x, float) and x == 0.0 else x / s for x in q]
        out.append(q)
    return out


def product(cx, n, steps, edges, fmt="csr", lin=False, tol=False, inter=None, force=None, again=False):
    """steps matrices; edges: list of possible edge sets per step"""
    es = [cx.choose(f"edges{k}", edges[k]) for k in range(steps)]
    Ms = [rows(cx, f"p{k}", n, es[k]) for k in range(steps)]
    if fmt == "choose":
        fmt = cx.choose("format", ["csr", "stoch"])
    Xs = [as_format(cx, M, e, fmt) for M, e in zip(Ms, es)]
    net = some_net(cx, n)
    la, ts = 0.5, 7
    rev = cx.flag("reverse")
    keep = cx.flag("intermediate") if inter is None else inter
    kw = dict(save_intermediate=keep, reverse_time=rev)
    t = None
    if lin:
        net.inter_T_lin = {la: {ts: list(Xs)}}
    else:
        net.inter_T = {la: list(Xs)}
        if tol:
            t = cx.real("tol", 0, 1)
            cx.assume(cx.And(t > 0.001, t < 0.3))   # below 1/n no row can be dropped altogether
            kw["tol"] = t
        f = cx.flag("force") if force is None else force
        if f:
            kw["force_csr"] = True
    order = list(range(steps))
    if rev:
        order = order[::-1]
    if lin:
        if again:
            net.compute_lin_transition_matrices(lamda=la, t_s=ts, save_intermediate=keep, reverse_time=not rev)
        net.compute_lin_transition_matrices(lamda=la, t_s=ts, **kw)
        res = net.T_lin[la][ts]
    else:
        if again:
            net.compute_transition_matrices(lamda=la, save_intermediate=keep, reverse_time=not rev)
        net.compute_transition_matrices(lamda=la, **kw)
        res = net.T[la]
    def active(ks):
        return {x for k in ks for e in es[k] for x in e} if fmt == "stoch" and not kw.get("force_csr") else None

    cur = Ms[order[0]] if t is None else thresholded(cx, Ms[order[0]], t, active(order[:1]))
    want = [cur]
    done = order[:1]
    for k in order[1:]:
        F = Ms[k] if t is None else thresholded(cx, Ms[k], t, {x for e in es[k] for x in e} if fmt == "stoch" else None)
        done = done + [k]
        cur = d_mul(cur, F)
        if t is not None:
            cur = thresholded(cx, cur, t, active(done))
        want.append(cur)
    if keep:
        cx.check("one matrix per step", len(res) == steps)
        for R, W in zip(res, want):
            cx.eq("product of the matrices up to the step", R, W)
    else:
        cx.check("a single matrix", not isinstance(res, list))
        res, want = [res], want[-1:]
        cx.eq("product of all matrices", res[0], want[0])
    for R in res:
        D = cx.dense(R)
        for i in range(n):
            cx.eq("rows sum to one", total(list(D[i])), 1.0)
        if kw.get("force_csr"):
            cx.check("csr format", R.__class__.__name__ == "csr_matrix")
    # the inter-event matrices are still what they were
    left = net.inter_T_lin[la][ts] if lin else net.inter_T[la]
    cx.check("inter-event matrices kept", len(left) == steps)
    for X, M in zip(left, Ms):
        cx.eq("inter-event matrices unchanged", X, M)


def missing(cx):
    net = some_net(cx, 2)
    cx.raises("no inter-event matrices", Exception, lambda: net.compute_transition_matrices(lamda=1.0))
    cx.raises("no linear inter-event matrices", Exception, lambda: net.compute_lin_transition_matrices(lamda=1.0))
    M = rows(cx, "p", 2, [(0, 1)])
    net.inter_T = {1.0: [as_format(cx, M, [(0, 1)], "csr")]}
    net.inter_T_lin = {1.0: {5: [as_format(cx, M, [(0, 1)], "csr")]}}
    cx.raises("other rate", Exception, lambda: net.compute_transition_matrices(lamda=2.0))
    cx.raises("other linear rate", Exception, lambda: net.compute_lin_transition_matrices(lamda=2.0, t_s=5))
    cx.raises("other stationarity time", Exception, lambda: net.compute_lin_transition_matrices(lamda=1.0, t_s=6))
    net.compute_transition_matrices(lamda=1.0)
    cx.eq("single step", net.T[1.0][0], M)


def pipeline(cx, n, m, K, fixed, lin=False):
    """from the events to the transition matrices"""
    t = timeline(cx, K)
    ev = some_events(cx, n, m, K, fixed=fixed, orient=False)
    net, idx = network(cx, ev, t)
    ks = used_times(ev)
    la = cx.real("lamda", 0, 4)
    cx.assume(la > 0.1)
    st = cx.flag("compressed")
    rev = cx.flag("reverse")
    from .p09 import lin_oracle, neg_scaled
    cur = None
    seq = list(zip(ks, ks[1:]))
    steps = []
    if lin:
        net.compute_lin_inter_transition_matrices(lamda=la, use_sparse_stoch=st)
    else:
        net.compute_inter_transition_matrices(lamda=la, use_sparse_stoch=st)
    for a, b in seq:
        A = adjacency(ev, idx, a)
        x = la * (t[b] - t[a])
        steps.append(lin_oracle(cx, A, x, 10) if lin else [list(r) for r in cx.dense(cx.expm(neg_scaled(laplacian(A), x)))])
    if rev:
        steps = steps[::-1]
    if lin:
        net.compute_lin_transition_matrices(lamda=la, reverse_time=rev)
        res = net.T_lin[la][10]
    else:
        net.compute_transition_matrices(lamda=la, reverse_time=rev)
        res = net.T[la]
    cx.check("one matrix per step", len(res) == len(steps))
    for R, S in zip(res, steps):
        cur = S if cur is None else d_mul(cur, S)
        cx.eq("ordered product of the exponentials", R, cur)


def cases(tier):
    q = tier == "quick"
    mods = ("temporal_network",)

    def C(name, fn, keepz=False, **k):
        return Case(name, fn, k, mods, keepz=keepz)
    e01, e12, e02 = [(0, 1)], [(1, 2)], [(0, 2)]
    full3 = [(0, 1), (1, 2), (0, 2)]
    some = [e01, e12, [], full3]
    cs = [C("n2-3steps", product, n=2, steps=3, edges=[[e01], [e01, []], [e01]], fmt="choose", keepz=True),
          C("n2-2steps", product, n=2, steps=2, edges=[[e01, []], [e01, []]], fmt="choose"),
          C("n3-2steps-any", product, n=3, steps=2, edges=[some, some], fmt="csr"),
          C("n3-2steps-any-stoch", product, n=3, steps=2, edges=[some, some], fmt="stoch", keepz=True),
          C("n3-3steps", product, n=3, steps=3, edges=[[e01], [e12], [e02, []]], fmt="choose"),
          C("n3-4steps", product, n=3, steps=4, edges=[[e01], [e12], [e02], [e01]], fmt="choose", force=False, keepz=True),
          C("lin-n3-3steps", product, n=3, steps=3, edges=[[e01], [e12], [e02, []]], fmt="choose", lin=True),
          C("lin-n3-2steps-any", product, n=3, steps=2, edges=[some, some], fmt="choose", lin=True, inter=True, keepz=True),
          C("tol-n2-1step", product, n=2, steps=1, edges=[[e01, []]], fmt="choose", tol=True),
          C("tol-n3-1step", product, n=3, steps=1, edges=[[full3, e01]], fmt="choose", tol=True, force=False, inter=True),
          C("tol-n2-2steps", product, n=2, steps=2, edges=[[e01], [e01]], fmt="stoch", tol=True, force=False, inter=True, keepz=True),
          C("tol-n3-2steps", product, n=3, steps=2, edges=[[e01], [e12]], fmt="choose", inter=False, tol=True, force=False, keepz=True),
          C("again-n3-2steps", product, n=3, steps=2, edges=[[e01], [e12]], fmt="choose", again=True),
          C("again-lin-n3-2steps", product, n=3, steps=2, edges=[[e01], [e12]], fmt="choose", again=True, lin=True),
          C("missing", missing),
          C("pipeline-n3", pipeline, n=3, m=2, K=3, fixed=[(0, 1), (1, 2)]),
          C("pipeline-n3-overlap", pipeline, n=3, m=2, K=4, fixed=[(0, 2), (1, 3)], keepz=True),
          C("pipeline-lin-n3", pipeline, n=3, m=2, K=3, fixed=[(0, 1), (1, 2)], lin=True)]
    many = [[(0, 1), (2, 3)], [(1, 2), (4, 5)], [(0, 5), (3, 4)], [(2, 6)], [], [(0, 6), (1, 3)]]
    cs += [C("wide-n7-6steps", product, n=7, steps=6, edges=[[e] for e in many], fmt="choose", keepz=True),
           C("wide-lin-n7-6steps", product, n=7, steps=6, edges=[[e] for e in many], fmt="choose", lin=True, keepz=True)]
    if not q:
        cs += [C("n3-3steps-any", product, n=3, steps=3, edges=[some, some, some], fmt="choose", inter=True),
               C("n4-3steps", product, n=4, steps=3, edges=[[[(0, 1), (2, 3)]], [e12], [[(0, 3)], full3]], fmt="choose"),
               C("n2-5steps", product, n=2, steps=5, edges=[[e01]] * 5, fmt="choose"),
               C("tol-n3-3steps", product, n=3, steps=3, edges=[[e01], [e12], [e02]], fmt="choose", tol=True),
               C("n2-3steps-zeros", product, n=2, steps=3, edges=[[e01], [e01, []], [e01]], fmt="choose"),
               C("pipeline-n4", pipeline, n=4, m=3, K=4, fixed=[(0, 2), (1, 3), (1, 2)])]
    return cs

BOUNDS = ['2-4 nodes, 1-4 steps, arbitrary stochastic matrices on listed edge sets; tolerance arbitrary below 0.3; every format, direction and intermediate option',
          "larger structures: 7 nodes, 6 steps on listed edge sets"]
OUTSIDE = ['tolerances of 0.3 and more', 'non-stochastic inter-event matrices']
ASSUMPTIONS = ['exact real arithmetic in place of float64']
