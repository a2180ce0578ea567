"""P11: FlowIntegralClustering clusters the time integral of the covariance."""
from fsv.runner import Case
from .common import *
from .p10 import rows, as_format
from .p06 import arb_partition

BUDGET = {"quick": 50, "thorough": 800}


def d_diag_cols(M, v):
    return [[M[i][j] * v[j] for j in range(len(v))] for i in range(len(M))]


def oracle(cx, Ms, p1, t, g):
    """covariance integrated over the first g steps (Ms: inter-event matrices in the direction of time)"""
    n = len(p1)
    acc = [[0.0] * n for _ in range(n)]
    cur = None
    for k in range(g):
        cur = Ms[k] if cur is None else d_mul(cur, Ms[k])
        dt = t[k + 1] - t[k]
        pk = [total([p1[i] * cur[i][j] for i in range(n)]) for j in range(n)]
        pk = [1.0 if isinstance(x, float) and x == 0.0 else x for x in pk]   # nothing flows there
        for i in range(n):
            for j in range(n):
                for l in range(n):
                    a, b = cur[i][l], cur[j][l]
                    if isinstance(a, float) and a == 0.0 or isinstance(b, float) and b == 0.0:
                        continue
                    acc[i][j] = acc[i][j] + dt * (a * b) / pk[l]
    T = t[g] - t[0]
    return [[p1[i] * acc[i][j] * p1[j] / T - p1[i] * p1[j] for j in range(n)] for i in range(n)]


def density(cx, n, kind):
    if kind == "uniform":
        return [1.0 / n] * n
    if kind == "zeros":     # some nodes start empty
        s = cx.choose("support", [[i for i in range(n) if m >> i & 1] for m in range(1, 2 ** n - 1)])
        return [1.0 / len(s) if i in s else 0.0 for i in range(n)]
    p, rest = [], 1.0
    for i in range(n - 1):
        v = cx.real(f"p{i}", 0, 1)
        cx.assume(v > 0.05)
        p.append(v)
        rest = rest - v
    cx.assume(rest > 0.05)
    return p + [rest]


def times(cx, K, how):
    if how == "unit":
        return None, [float(k) for k in range(K + 1)]
    if how == "fixed":
        t = [0.0, 1.5, 2.0, 5.0][:K + 1]
        return t, t
    t = [cx.real("t0", -2, 2)]
    for i in range(K):
        g = cx.real(f"g{i}", 0, 4)
        cx.assume(g > 0.1)
        t.append(t[-1] + g)
    return list(t), t


def as_input(cx, M, e, fmt):
    if fmt == "dense":
        return cx.array([list(r) for r in M])
    return as_format(cx, M, e, fmt)


def integral(cx, n, steps, edges, fmt, how="fixed", dens="any", give="inter", grid=None, rtol=None, louvain=False,
             conc=False):
    """edges: edge set of every step"""
    NC = cx.mod("network_clustering")
    if conc:
        C = [0.5, 0.25, 0.125, 0.75]
        Ms = []
        for k, e in enumerate(edges):
            M = [[0.0] * n for _ in range(n)]
            for i in range(n):
                cols = [j for j in range(n) if (i, j) in e or (j, i) in e]
                for q, j in enumerate(cols):
                    M[i][j] = C[(i + k + q) % 3] / len(cols)
                M[i][i] = 1.0 - sum(M[i])
            Ms.append(M)
    else:
        Ms = [rows(cx, f"m{k}", n, e) for k, e in enumerate(edges)]
    if fmt == "choose":
        fmt = cx.choose("format", ["dense", "csr", "stoch"])
    p1 = density(cx, n, dens)
    given_t, t = times(cx, steps, how)
    rev = cx.flag("reverse")
    order = list(range(steps))[::-1] if rev else list(range(steps))
    tt = [-x for x in t[::-1]] if rev else t     # time runs backward
    seq = [Ms[k] for k in order]
    kw = dict(reverse_time=rev, rtol=rtol)
    if dens != "uniform":
        kw["p1"] = cx.array(p1)
    if given_t is not None:
        kw["time_list"] = given_t
    X = [as_input(cx, M, e, fmt) for M, e in zip(Ms, edges)]
    if give == "inter":
        kw["T_inter_list"] = X
    else:
        cur, L = None, []
        es = set()
        for k in order:
            cur = Ms[k] if cur is None else d_mul(cur, Ms[k])
            es |= set(edges[k])
            L.append(as_input(cx, cur, sorted(es), fmt))
        kw["T_list"] = L
    gs = [steps]
    if grid is not None:
        # times until which to integrate: arbitrary, in either order
        ks = [cx.choose(f"grid{i}", list(range(steps + 1))) for i in range(grid)]
        off = []
        for i, k in enumerate(ks):
            if k < steps and cx.flag(f"between{i}"):
                f = cx.real(f"frac{i}", 0, 1)
                cx.assume(cx.And(f > 0.1, f < 0.9))
                off.append(tt[k] + f * (tt[k + 1] - tt[k]))
            else:
                off.append(tt[k])
        cx.assume(all(a < b for a, b in zip(ks, ks[1:])))
        if rev:
            off = [-x for x in off]
        if grid > 1 and cx.flag("given_backwards"):
            off = off[::-1]
            back = True
        else:
            back = False
        kw["integral_time_grid"] = list(off)
        gs = [k for k in ks if k > 0]
    c = NC.FlowIntegralClustering(**kw)
    cx.check("one integral per grid time", len(c.I_list) == len(gs))
    if grid is not None:
        cx.eq("grid in the direction of time", list(c.integral_time_grid), off[::-1] if back else off)
        cx.eq("given grid unchanged", list(kw["integral_time_grid"]), off)
    if given_t is not None:
        cx.eq("given times unchanged", list(kw["time_list"]), t)
    if dens != "uniform":
        cx.eq("given density unchanged", kw["p1"], p1)
    Os = []
    for I, g in zip(c.I_list, gs):
        O = oracle(cx, seq, p1, tt, g)
        Os.append(O)
        D = I.toarray() if hasattr(I, "toarray") else I
        if rtol is None:
            cx.eq("integral of the covariance", D, O)
        else:
            for a, b in zip(cx.dense(D), O):
                for x, y in zip(a, b):
                    cx.holds("integral of the covariance up to the tolerance",
                             lambda eps: cx.And(cx.leq(x - y, 1e-6 + eps), cx.leq(y - x, 1e-6 + eps)))
    for X0, M in zip(kw.get("T_inter_list", []), Ms):
        cx.eq("given matrices unchanged", X0, M)
    if louvain:
        cx.script_rng(1)
        k = cx.int("which", 0, len(gs) - 1) if gs else None
        if k is None:
            return
        c.find_louvain_clustering(k=k, rnd_seed=1)
        cl = [set(x) for x in c.partition[k].cluster_list]
        cx.check("every node in exactly one cluster", sorted(x for q in cl for x in q) == list(range(n)))
        got = c.clustering[k].compute_stability()
        want = total([Os[k][i][j] for q in cl for i in q for j in q])
        cx.eq("stability of the integral", got, want)


def refused(cx):
    NC = cx.mod("network_clustering")
    cx.raises("nothing given", ValueError, lambda: NC.FlowIntegralClustering())
    cx.raises("no matrices", TypeError, lambda: NC.FlowIntegralClustering(T_list=[3]))
    cx.raises("no inter matrices", TypeError, lambda: NC.FlowIntegralClustering(T_inter_list=["a"]))


def cases(tier):
    q = tier == "quick"
    mods = ("network_clustering",)

    def C(name, fn, keepz=True, **k):
        return Case(name, fn, k, mods, keepz=keepz)
    e01, e12, e02 = [(0, 1)], [(1, 2)], [(0, 2)]
    cs = [C("n2-1step", integral, n=2, steps=1, edges=[e01], fmt="choose", how="any"),
          C("n2-2steps", integral, n=2, steps=2, edges=[e01, e01], fmt="choose", how="fixed", dens="uniform"),
          C("n2-2steps-any-p", integral, n=2, steps=2, edges=[e01, []], fmt="choose", how="any"),
          C("n3-2steps", integral, n=3, steps=2, edges=[e01, e12], fmt="choose", how="fixed", dens="uniform"),
          C("n3-2steps-any-times", integral, n=3, steps=2, edges=[e01, e12], fmt="choose", how="any", conc=True),
          C("n3-3steps-any-p", integral, n=3, steps=3, edges=[e01, e12, e02], fmt="choose", how="any", conc=True),
          C("n2-2steps-T", integral, n=2, steps=2, edges=[e01, e01], fmt="choose", how="unit", give="T", dens="uniform"),
          C("n3-2steps-T", integral, n=3, steps=2, edges=[e01, e12], fmt="choose", how="any", give="T", conc=True),
          C("grid1", integral, n=2, steps=2, edges=[e01, e01], fmt="choose", how="any", conc=True, grid=1, dens="uniform"),
          C("grid2", integral, n=2, steps=2, edges=[e01, e01], fmt="choose", how="any", conc=True, grid=2, dens="uniform"),
          C("grid3", integral, n=2, steps=3, edges=[e01, [], e01], fmt="csr", how="fixed", conc=True, grid=3),
          C("zero-density", integral, n=3, steps=2, edges=[e01, e12], fmt="choose", how="any", conc=True, dens="zeros"),
          C("zero-density-n2", integral, n=2, steps=2, edges=[e01, []], fmt="choose", how="fixed", dens="zeros"),
          C("tolerance", integral, n=2, steps=2, edges=[e01, e01], fmt="choose", how="any", conc=True, rtol=1e-8, dens="uniform"),
          C("louvain-n2", integral, n=2, steps=2, edges=[e01, e01], fmt="choose", how="any", conc=True, louvain=True,
            dens="uniform"),
          C("louvain-grid", integral, n=2, steps=2, edges=[e01, e01], fmt="choose", how="fixed", conc=True, louvain=True,
            grid=2, dens="uniform"),
          C("n3-3steps", integral, n=3, steps=3, edges=[e01, e12, e02], fmt="choose", how="fixed", dens="uniform"),
          C("n4-2steps", integral, n=4, steps=2, edges=[[(0, 1), (2, 3)], e12], fmt="choose", how="any", conc=True),
          C("louvain-n3-u", integral, n=3, steps=2, edges=[e01, e12], fmt="choose", how="any", conc=True, louvain=True,
            dens="uniform"),
          C("refused", refused)]
    cs += [C("n3-4steps", integral, n=3, steps=4, edges=[e01, e12, e02, e01], fmt="choose", how="unit", dens="uniform"),
           C("grid3-any", integral, n=3, steps=3, edges=[e01, e12, e02], fmt="choose", how="any", conc=True, grid=2)]
    many = [[(0, 1), (2, 3)], [(1, 2)], [(3, 4)], [(0, 4), (1, 3)], [], [(2, 4)]]
    cs += [C("wide-6steps", integral, n=5, steps=6, edges=many, fmt="choose", how="any", conc=True, dens="uniform"),
           C("wide-grid", integral, n=5, steps=4, edges=many[:4], fmt="choose", how="any", conc=True, grid=2, dens="uniform")]
    if not q:
        cs += [C("louvain-n3", integral, n=3, steps=2, edges=[e01, e12], fmt="choose", how="fixed", conc=True, louvain=True)]
    return cs

BOUNDS = ['2-4 nodes, 1-3 steps, arbitrary stochastic matrices on listed edge sets (or listed values with arbitrary times), densities arbitrary, uniform or with zeros, grids of up to 3 arbitrary times, both directions, three formats',
          "larger structures: 5 nodes, 6 steps with listed matrices at arbitrary times"]
OUTSIDE = ['parallel computation of the integral']
ASSUMPTIONS = ['square roots are eliminated exactly (y>=0, y*y=x)']
