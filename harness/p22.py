"""P22: the command line computes the covariance integral between any two points of the grid."""
import os
import shutil

from fsv.runner import Case
from .common import *
from .p10 import rows, as_format

BUDGET = {"quick": 75, "thorough": 800}


def matrices(cx, n, kind, nm, e):
    if kind == "sym":
        return rows(cx, nm, n, e)
    if kind == "drain":      # everything leaves one end of every edge
        M = [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]
        for i, j in e:
            M[i] = [1.0 if k == j else 0.0 for k in range(n)]
        return M
    C = [0.5, 0.25, 0.125, 0.75]
    k = int(nm[1:])
    M = [[0.0] * n for _ in range(n)]
    for i in range(n):
        cols = [j for j in range(n) if (i, j) in e or (j, i) in e]
        for q, j in enumerate(cols):
            M[i][j] = C[(i + k + q) % 3] / len(cols)
        M[i][i] = 1.0 - sum(M[i])
    return M


def write_slices(cx, d, name, n, shape, times, mats, edges, taus, kinds, fmt, ts, trans=True, gz=False):
    """files of the inter-event matrices of every slice, written by the package"""
    import pandas as pd
    T = cx.mod("temporal_network")
    off = 0
    for s, steps in enumerate(shape):
        net = object.__new__(T.ContTempNetwork)
        net.times = pd.Series(list(times))
        net.num_nodes = n
        net._compute_times = {}
        net._k_start_laplacians, net._k_stop_laplacians = off, off + steps
        net._t_start_laplacians, net._t_stop_laplacians = times[off], times[off + steps]
        for tau, la in taus:
            stem = os.path.join(d, f"{name}_tau_w{float(tau):.3e}_int{s:06d}_")
            for kind in kinds:
                L = "lin_" if kind == "lin" else ""
                Ms = mats[tau, kind][off:off + steps]
                es = edges[off:off + steps]
                if not Ms:
                    Ms, es = [d_eye(n)], [[]]
                X = [as_format(cx, M, e, fmt) for M, e in zip(Ms, es)]
                kw = dict(lamda=la, round_zeros=True, tol=0, compressed=gz, save_delta=fmt == "csr")
                if kind == "lin":
                    net.inter_T_lin = {la: {ts: X}}
                    net.save_inter_T_lin(f"{stem}_lin_inter_trans_mat", **kw)
                else:
                    net.inter_T = {la: X}
                    net.save_inter_T(f"{stem}_inter_trans_mat", **kw)
                if not trans:
                    continue
                for rev in (False, True):
                    seq = Ms[::-1] if rev else Ms
                    P = seq[0]
                    for M in seq[1:]:
                        P = d_mul(P, M)
                    P = as_format(cx, P, sorted({x for e in es for x in e}) if len(es) < 2 else [(i, j) for i in range(n) for j in range(i + 1, n)], fmt)
                    f = f"{stem}{'_reversed' if rev else ''}_{L}trans_mat.pickle"
                    if kind == "lin":
                        net.T_lin = {la: {ts: P}}
                        net.save_T_lin(f, round_zeros=True, tol=0, compressed=gz)
                    else:
                        net.T = {la: P}
                        net.save_T(f, round_zeros=True, tol=0, compressed=gz)
        off += steps


def oracle(cx, n, shape, times, Ms, a, b):
    """integral from the start of slice a to the start of slice b, its duration"""
    sl = list(range(a, b)) if a < b else list(range(a - 1, b - 1, -1))
    first = [sum(shape[:s]) for s in range(len(shape) + 1)]
    acc = [[0.0] * n for _ in range(n)]
    cur, dur = None, 0.0
    p1 = [1.0 / n] * n
    for s in sl:
        ks = list(range(first[s], first[s + 1]))
        if a > b:
            ks = ks[::-1]
        for k in ks:
            cur = Ms[k] if cur is None else d_mul(cur, Ms[k])
            dt = times[k + 1] - times[k]
            dur = dur + dt
            pk = [total([p1[i] * cur[i][j] for i in range(n)]) for j in range(n)]
            pk = [1.0 if isinstance(x, float) and x == 0.0 else x for x in pk]
            for i in range(n):
                for j in range(i, n):
                    for l in range(n):
                        x, y = cur[i][l], cur[j][l]
                        if isinstance(x, float) and x == 0.0 or isinstance(y, float) and y == 0.0:
                            continue
                        acc[i][j] = acc[i][j] + dt * (x * y) / pk[l]
    return acc, dur, cur is not None


SEL = {"all": [], "start": ["--only_from_start"], "finish": ["--only_from_finish"], "ends": ["--only_from_start_and_finish"],
       "one": ["--only_one_interval"]}


def wanted(grid, sel, direction):
    m = len(grid)
    fw = {(i, j) for i in range(m) for j in range(i + 1, m)}
    bw = {(i, j) for i in range(m) for j in range(i)}
    if sel == "start":
        w = {(i, j) for i, j in fw if i == 0}
    elif sel == "finish":
        w = {(i, j) for i, j in bw if i == m - 1}
    else:
        if sel == "ends":
            fw, bw = {x for x in fw if x[0] == 0}, {x for x in bw if x[0] == m - 1}
        if sel == "one":
            fw, bw = {(i, j) for i, j in fw if j == i + 1}, {(i, j) for i, j in bw if j == i - 1}
        w = (fw if direction != "backward" else set()) | (bw if direction != "forward" else set())
    return {(grid[i], grid[j]) for i, j in w}


def integrals(cx, n, shape, edges, values="conc", kinds=("expm",), fmt="choose", taus=("2",), sels=("all",), dirs=("both",),
              grids=("1",), names=("nn",), again=None, ncpu=1, gz=False, how="any", tols=("0",)):
    cx.lazy_minmax()
    d = cx.scratch()
    data, out = os.path.join(d, "data"), os.path.join(d, "out")
    os.mkdir(data)
    os.mkdir(out)
    K = sum(shape)
    t = [0.0]
    if how == "any":
        t = [cx.real("t0", -2, 2)]
    for i in range(K):
        g = 0.5 + i
        if how == "any":
            g = cx.real(f"g{i}", 0, 4)
            cx.assume(g > 0.1)
        t.append(t[-1] + g)
    name = cx.choose("name", list(names))
    taus = [(x, 1 / float(x)) for x in taus]
    ts = 10.0
    mats = {}
    for q, (tau, _) in enumerate(taus):
        for r, kind in enumerate(kinds):
            mats[tau, kind] = [matrices(cx, n, values, f"m{k + K * (r + 2 * q)}", e) for k, e in enumerate(edges)]
    if fmt == "choose":
        fmt = cx.choose("format", ["csr", "stoch"])
    z = gz and cx.flag("gz")
    write_slices(cx, data, name, n, shape, t, mats, edges, taus, kinds, fmt, ts, trans=again is not None, gz=z)
    S = len(shape)
    g = cx.choose("grid", list(grids))
    if g[0] == "p":
        args = ["--num_points", g[1:]]
        grid = list(range(0, S + 1, S // int(g[1:])))
    elif g[0] == "l":
        args = ["--int_list", *g[1:].split(",")]
        grid = [int(x) for x in g[1:].split(",")]
    else:
        args = ["--int_length", g]
        grid = list(range(0, S + 1, int(g)))
    sel = cx.choose("which", list(sels))
    direction = cx.choose("direction", list(dirs))
    tol = cx.choose("tol", list(tols))
    base = ["--datadir", data, "--savedir", out, "--net_name", name, "--ncpu", str(ncpu), *([] if tol == "default" else ["--tol", tol]),
            "--time_direction", direction, *args, *SEL[sel]]
    if len(kinds) == 1:
        base += ["--only_lin_transmats" if kinds[0] == "lin" else "--only_expm_transmats"]
    if again == "temp":
        base += ["--save_intermediate"]

    def run():
        cx.script("run_cov_integrals", base).main()
    run()
    W = wanted(grid, sel, direction)
    import pandas as pd
    want, notthere = {}, set()
    for tau, _ in taus:
        for kind in kinds:
            for a, b in sorted(W):
                f = f"{name}_tau_w{float(tau):.3e}_PT_{'lin_' if kind == 'lin' else ''}{a:06d}_to_{b:06d}.pickle"
                I, dur, some = oracle(cx, n, shape, t, mats[tau, kind], a, b)
                if some:
                    want[f] = (I, dur)

    def verify(what):
        files = {f for f in os.listdir(out) if "_temp_" not in f}
        cx.check(what + "one file per integral", files == set(want), f"{sorted(files ^ set(want))}")
        for f, (I, dur) in want.items():
            D = pd.read_pickle(os.path.join(out, f))
            cx.eq(what + "duration of " + f[len(name):], D["integration_time"], dur)
            if tol in ("0", "default"):
                cx.eq(what + "integral " + f[len(name):], D["ITPT"], I)
                continue
            # whatever was dropped, the rows of the transition matrices are normalised: the stationary direction is exact
            X = D["ITPT"].toarray()
            for j in range(n):
                cx.eq(what + f"the integral {f[len(name):]} sends the uniform distribution to the duration, column {j}",
                      total([X[min(i, j)][max(i, j)] for i in range(n)]), n * dur)
    verify("")
    if again is None:
        return
    # part of the results lost: running again restores them
    for f in sorted(want):
        if cx.flag("lose " + f[-26:-7]):
            os.remove(os.path.join(out, f))
    if again == "temp":
        for f in sorted(os.listdir(out)):
            if "_temp_" in f and cx.flag("lose temp " + f[-23:-7]):
                os.remove(os.path.join(out, f))
    run()
    verify("after running again: ")


def cases(tier):
    q = tier == "quick"
    mods = ("temporal_network",)

    def C(name, fn=integrals, keepz=True, **k):
        return Case(name, fn, k, mods, keepz=keepz)
    a, b, c = [(0, 1)], [(1, 2)], [(0, 2)]
    ALL, DIRS = tuple(SEL), ("both", "forward", "backward")
    cs = [C("n2-sym", n=2, shape=[1, 1], edges=[a, a], values="sym", how="fixed"),
          C("n2-any-times", n=2, shape=[1], edges=[a], values="sym"),
          C("n3", n=3, shape=[1, 2], edges=[a, b, c]),
          C("n3-lin", n=3, shape=[1, 2], edges=[a, b, c], kinds=("lin",)),
          C("n3-both", n=3, shape=[2, 0, 1], edges=[a, b, c], kinds=("expm", "lin"), fmt="stoch", names=("nn", "wild_mice")),
          C("n3-sym", n=3, shape=[1, 1], edges=[a, b], values="sym", how="fixed", dirs=DIRS[1:]),
          C("n3-3slices", n=3, shape=[2, 1, 1], edges=[a, b, c, a], grids=("1", "2"), fmt="stoch"),
          C("n4", n=4, shape=[1, 1], edges=[[(0, 1), (2, 3)], [(1, 2)]]),
          C("drain", n=3, shape=[1, 1], edges=[a, b], values="drain", fmt="csr"),
          C("select", n=3, shape=[1, 1, 1], edges=[a, b, c], sels=ALL, dirs=DIRS, fmt="stoch"),
          C("grids", n=3, shape=[1, 1, 0, 1], edges=[a, b, c], grids=("1", "2", "3", "p1", "p2", "p4", "l0,1,3", "l1,2,4"), fmt="csr"),
          C("taus", n=3, shape=[1, 1], edges=[a, b], taus=("2", "0.123456"), fmt="stoch", gz=True, sels=("ends",), ncpu=2),
          C("again-lost", n=3, shape=[2, 1, 2], edges=[a, b, c, a, b], again="lost", sels=("start", "finish")),
          C("again-lost-lin", n=3, shape=[2, 1, 2], edges=[a, b, c, a, b], again="lost", sels=("start", "finish"), kinds=("lin",)),
          C("again-temp", n=3, shape=[1, 1], edges=[a, b], again="temp", sels=("start", "finish")),
          C("again-temp3", n=3, shape=[1, 1, 1], edges=[a, b, c], again="temp", sels=("start", "finish"), grids=("3", "l0,2,3"), fmt="csr"),
          C("tol-default", n=3, shape=[1, 2], edges=[a, b, c], kinds=("expm", "lin"), tols=("default",)),
          C("tol", n=3, shape=[1, 2], edges=[a, b, c], kinds=("expm", "lin"), tols=("0.2", "0.4")),
          C("tol-again", n=3, shape=[1, 1, 1], edges=[a, b, c], again="lost", sels=("start", "finish"), kinds=("lin",), tols=("0.4",)),
          C("tol-again-expm", n=3, shape=[1, 1, 1], edges=[a, b, c], again="lost", sels=("start", "finish"), tols=("0.4",), fmt="csr"),
          C("again-sym", n=2, shape=[1, 1], edges=[a, a], values="sym", how="fixed", again="lost", sels=("start", "finish")),
          C("wide", n=5, shape=[2, 1, 0, 2, 1, 2], edges=[[(0, 1), (2, 3)], b, [(3, 4)], [(0, 4), (1, 3)], c, [(2, 4)], a, [(1, 4)]],
            grids=("1", "2", "3"), fmt="stoch"),
          C("wide-lin", n=5, shape=[1, 3, 1, 1], edges=[[(0, 1), (2, 3)], b, [(3, 4)], [(0, 4), (1, 3)], c, [(2, 4)]],
            grids=("1", "2"), fmt="csr", kinds=("lin",)),
          ]
    if not q:
        cs += [C("n3-sym2", n=3, shape=[1, 2], edges=[a, b, c], values="sym", how="fixed", dirs=DIRS[1:]),
               C("n4-3slices", n=4, shape=[1, 2, 1], edges=[[(0, 1), (2, 3)], [(1, 2)], [(0, 3)], [(0, 1)]], grids=("1", "2", "3"),
                 kinds=("expm", "lin"), sels=ALL),
               C("select-4", n=3, shape=[1, 0, 2, 1], edges=[a, b, c, a], sels=ALL, dirs=DIRS, grids=("1", "2", "p2", "l0,1,3")),
               C("taus-all", n=3, shape=[1, 1], edges=[a, b], taus=("2", "0.123456", "7"), gz=True, sels=ALL, ncpu=3,
                 kinds=("expm", "lin")),
               C("again-temp4", n=3, shape=[1, 1, 1, 1], edges=[a, b, c, a], again="temp", sels=("start", "finish"), grids=("2", "4")),
               C("again-sym-temp", n=2, shape=[1, 1, 1], edges=[a, a, a], values="sym", how="fixed", again="temp",
                 sels=("start", "finish"))]
    return cs


BOUNDS = ["2-4 nodes, 1-4 slices of 0-2 steps each; times arbitrary reals; matrices arbitrary stochastic for 2-3 nodes and up to "
          "2 steps (thorough: 3), listed ones otherwise",
          "all grids of int_length 1-3, num_points 1, 2, 4 and lists of points; all five selections of integrals and both "
          "directions; exponential and linear matrices; csr and sparse stochastic files; 1-2 (thorough: 3) values of tau",
          "any subset of the results (and of the intermediate files) lost, then the script run again",
          "larger structures: 5 nodes, 6 slices with listed matrices at arbitrary times"]
OUTSIDE = ["--num_points larger than the number of slices (refused)", "two values of tau equal to 4 digits (same file name)",
           "tolerances that empty a row of a transition matrix (a tolerance other than 0 is checked through what it conserves)", "restarting without the slice transition matrices, or with exponential and linear "
           "integrals together (both refused)", "killing the script while it writes a file", "files in hickle format"]
ASSUMPTIONS = ["the files of the first step are written by the package's own save methods",
               "the script is loaded with its arguments and main() is called; workers as in P21"]
