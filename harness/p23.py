"""P23: the command line clusters every covariance integral and reports what it found."""
import itertools
import os

from fsv.runner import Case
from .common import *
from .p06 import stab
from .p07 import info

BUDGET = {"quick": 75, "thorough": 800}


def integral(cx, n, edges, p, T, values, balanced, nm=""):
    """symmetric integral of the autocovariance with the given support; rows sum to n*n*p*T when balanced"""
    M = [[0.0] * n for _ in range(n)]
    for q, (i, j) in enumerate(edges):
        w = 0.125 * (1 + q % 3) * T * p[i] * p[j] * n * n if values == "conc" else cx.real(f"w{nm}{i}{j}", 0, 2)
        if values != "conc":
            cx.assume(w > 0.01)
        M[i][j] = M[j][i] = w
    for i in range(n):
        if p[i] == 0:
            continue
        if balanced:
            M[i][i] = n * n * p[i] * T - total(M[i])
        else:
            M[i][i] = 0.5 + i if values == "offdiag" else cx.real(f"d{nm}{i}", 0, n)
        if not isinstance(M[i][i], float):
            cx.assume(M[i][i] > 0.01)
    return M


def components(n, M):
    lab = list(range(n))
    for i in range(n):
        for j in range(n):
            if not (isinstance(M[i][j], float) and M[i][j] == 0.0):
                a, b = lab[i], lab[j]
                lab = [a if x == b else x for x in lab]
    ids = sorted(set(lab))
    return [ids.index(x) for x in lab]


def covers(cx, what, cl, nodes):
    cx.check(what + ": every node in exactly one cluster", sorted(int(x) for c in cl for x in c) == sorted(nodes))
    cx.check(what + ": no empty cluster", all(len(c) > 0 for c in cl))


def nvi(cx, a, b, n):
    a, b = [set(map(int, c)) for c in a], [set(map(int, c)) for c in b]
    N, Ha, Hb, Hab = info(cx, a, b)
    return (2 * Hab - Ha - Hb) / (n * cx.log2(n))


def canon(cl):
    return tuple(sorted(tuple(sorted(int(x) for x in c)) for c in cl))


def clusterings(cx, n, edges, values="sym", norm=True, comps=("none",), repeats=2, draws=1, nproc=(1,), p1=None,
                directions=(None,), again=None, samples=None, files=("2",), fmt="coo", rtol=None, niter=10, extra=(), symT=False, static=None, only_static=False):
    cx.lazy_minmax()
    cx.script_rng(per_seed=draws, cycle=True)
    d = cx.scratch()
    data, out = os.path.join(d, "data"), os.path.join(d, "out")
    os.mkdir(data)
    os.mkdir(out)
    import pickle
    direction = directions[0] if len(directions) == 1 else cx.choose("direction", list(directions))
    comp = comps[0] if len(comps) == 1 else cx.choose("components", list(comps))
    k = nproc[0] if len(nproc) == 1 else cx.choose("processes", list(nproc))
    T = cx.real("T", 1, 4) if symT else 2.0
    p = p1 or [1.0 / n] * n
    base = ["--datadir", data, "--savedir", out, "--net_name", "nn", "--nproc_files", "1", "--nproc_clustering", str(k),
            "--num_repeat", str(repeats), *extra]
    if direction:
        base += ["--init_p1", "--direction", direction]
    if comp != "none":
        base += {"lcc": ["--only_largest_comp"], "sep": ["--separate_comps"]}[comp]
    if not norm:
        base += ["--not_normalize_cov_mat"]
    elif niter != 10:
        base += ["--num_norm_iter", str(niter)]
    if samples:
        base += ["--num_varinf_samples", str(samples)]
    if rtol is not None:
        base += ["--integral_rtol", str(rtol)]
    if again == "temp":
        base += ["--save_clustering_before_nvarinf"]
    only = False
    if static:
        base += ["--compute_static_clustering"]
        if only_static:
            only = True
            base += ["--not_compute_clustering"]
        A = [[0.0] * n for _ in range(n)]
        for (i, j), w in static.items():
            A[i][j] = w
        with open(os.path.join(data, "nn_static_A_000000_to_000001.pickle"), "wb") as fh:
            pickle.dump(cx.sp.csr_matrix(cx.np.array(A)), fh)
        A = [[(A[i][j] + A[j][i]) / 2 for j in range(n)] for i in range(n)]
        deg = [sum(r) for r in A]
        TS = cx.dense(cx.expm([[(A[i][j] / deg[i] if deg[i] else float(i == j)) - float(i == j) for j in range(n)] for i in range(n)]))
        pS = [x / sum(deg) for x in deg]
        SS = [[pS[i] * TS[i][j] - pS[i] * pS[j] for j in range(n)] for i in range(n)]
    want = {}
    tag = {None: "PT", "forward": "PTforw", "backward": "PTback"}[direction]
    scale = 1.0 if direction else float(n * n)
    for q, f in enumerate(files):
        M = integral(cx, n, edges, p, T, values, norm and niter == 10, nm=str(q))
        if direction:
            M = [[x / (n * n) if isinstance(x, float) else x / (n * n) for x in r] for r in M]
        X = cx.sp.triu(cx.sp.csr_matrix(cx.array(M)), format=fmt)
        D = {"integration_time": T}
        if direction == "backward":
            D["ITPTback"], D["p2"] = X, cx.sp.csr_matrix(cx.array([p]))
            D["ITPT"], D["p1"] = cx.sp.csr_matrix(cx.array(d_eye(n))), cx.sp.csr_matrix(cx.array([[1.0 / n] * n]))
        else:
            D["ITPT"] = X
            if direction:
                D["p1"] = cx.sp.csr_matrix(cx.array([p]))
                D["ITPTback"], D["p2"] = cx.sp.csr_matrix(cx.array(d_eye(n))), cx.sp.csr_matrix(cx.array([[1.0 / n] * n]))
        name = f"nn_tau_w{float(f):.3e}_{tag}_000000_to_000001.pickle"
        with open(os.path.join(data, name), "wb") as fh:
            pickle.dump(D, fh)
        P = [[x / (T * scale) for x in r] for r in M]
        if rtol is not None:
            mx = P[0][0]
            for r in P:
                for x in r:
                    mx = cx.ite(x > mx, x, mx)
            P = [[0.0 if cx.truth(x <= rtol * mx) else x for x in r] for r in P]
        raw = P
        if norm and niter != 10:
            for _ in range(niter):
                s = [total(r) for r in P]
                P = [[x * p[i] / s[i] if not (isinstance(x, float) and x == 0.0) else 0.0 for x in r] for i, r in enumerate(P)]
                P = [[(P[i][j] + P[j][i]) / 2 for j in range(n)] for i in range(n)]
        want["clusters_" + name] = (raw, P, [[P[i][j] - p[i] * p[j] for j in range(n)] for i in range(n)])
    # files that are not integrals to cluster
    for other in ("nn_tau_w2.000e+00_temp_integration.pickle", "other_tau_w2.000e+00_PT_000000_to_000001.pickle", "nn.pickle"):
        with open(os.path.join(data, other), "wb") as fh:
            pickle.dump({}, fh)

    def run(*more):
        cx.script("run_clusterings", base + list(more)).main()
    run()

    def verify(what):
        there = {f for f in os.listdir(out) if not f.startswith("tmp")}
        cx.check(what + "one result per integral", there == set(want), f"{sorted(there ^ set(want))}")
        for f, (raw, P, S) in want.items():
            with open(os.path.join(out, f), "rb") as fh:
                R = pickle.load(fh)
            result(cx, what, R, raw, P, S)

    def scores(what, R, suf, S, nodes):
        cx.check(what + "one value per repetition", len(R["stabilites" + suf]) == repeats == len(set(R["seeds" + suf])))
        best = R["best_cluster" + suf]
        covers(cx, what + "best partition", best, nodes)
        cx.eq(what + "stability of the best partition", R["best_stab" + suf], stab(S, best))
        for s in R["stabilites" + suf]:
            cx.le(what + "no repetition is better than the best", s, R["best_stab" + suf])
        cx.eq(what + "average stability", R["avg_stab" + suf] * repeats, total(R["stabilites" + suf]))
        C = {k: int(v) for k, v in R["clust_counter" + suf].items()}
        cx.check(what + "every repetition is counted", sum(C.values()) == repeats)
        for c in C:
            covers(cx, what + "found partitions", c, nodes)
        cx.check(what + "the best partition was found", canon(best) in C)
        cx.eq(what + "stabilities of the found partitions", total(stab(S, c) * v for c, v in C.items()), total(R["stabilites" + suf]))
        cx.eq(what + "average number of clusters", R["avg_nclust" + suf] * repeats, float(sum(len(c) * v for c, v in C.items())))
        return C

    def result(cx, what, R, raw, P, S):
        lab = components(n, P)
        sizes = [lab.count(c) for c in range(max(lab) + 1)]
        nodes = list(range(n))
        Sa = S
        m = n
        if comp == "none":
            cx.check(what + "no components", R["ncomp"] is None and R["comp_label"] is None and R["largest_comp_nodes"] is None)
        else:
            cx.check(what + "number of components", R["ncomp"] == len(sizes))
            cx.check(what + "component of every node", all((R["comp_label"][i] == R["comp_label"][j]) == (lab[i] == lab[j])
                                                           for i in nodes for j in nodes))
        if comp == "lcc":
            L = [int(x) for x in R["largest_comp_nodes"]]
            c = lab[L[0]]
            cx.check(what + "nodes of a largest component", sizes[c] == max(sizes) and L == [i for i in nodes if lab[i] == c])
            groups = [[i for i in nodes if i not in L]] + [[i] for i in L]
            Sa = [[total(S[i][j] for i in a for j in b) for b in groups] for a in groups]
            nodes = list(range(len(groups)))
            m = len(groups)
        if static:
            scores(what + "static: ", R, "_static", SS, list(range(n)))
            vs = [nvi(cx, a, b, n) for a, b in itertools.combinations([c for c, v in R["clust_counter_static"].items() for _ in range(v)], 2)]
            cx.eq(what + "static: variation of information", R["nvarinf_static"] * len(vs), total(vs))
        cx.check(what + "static clustering was asked for", R["compute_static_clustering"] is bool(static))
        if only:
            cx.check(what + "clustering was not asked for", R["compute_clustering"] is False and "best_cluster" not in R)
            return
        if comp == "sep":
            nodes = [i for i in nodes if p[i] > 0]
        cx.check(what + "one value per repetition", len(R["stabilites"]) == repeats == len(R["seeds"]) and len(set(R["seeds"])) == repeats)
        best = R["best_cluster"]
        covers(cx, what + "best partition", best, nodes)
        if comp == "sep":
            cx.check(what + "clusters inside the components", all(len({lab[int(i)] for i in c}) == 1 for c in best))
        sb = stab(Sa, best)
        cx.eq(what + "stability of the best partition", R["best_stab"], sb)
        for s in R["stabilites"]:
            cx.le(what + "no repetition is better than the best", s, R["best_stab"])
        cx.eq(what + "average stability", R["avg_stab"] * repeats, total(R["stabilites"]))
        C = {k: int(v) for k, v in R["clust_counter"].items()}
        cx.check(what + "every repetition is counted", sum(C.values()) == repeats)
        for c in C:
            covers(cx, what + "found partitions", c, nodes)
            cx.check(what + "found partitions are in canonical form", c == canon(c))
            if comp == "sep":
                cx.check(what + "clusters inside the components (all)", all(len({lab[int(i)] for i in q}) == 1 for q in c))
        cx.check(what + "the best partition was found", canon(best) in C)
        cx.eq(what + "stabilities of the found partitions", total(stab(Sa, c) * v for c, v in C.items()), total(R["stabilites"]))
        cx.eq(what + "average number of clusters", R["avg_nclust"] * repeats, float(sum(len(c) * v for c, v in C.items())))
        one = total(stab(Sa, nodes_) for nodes_ in [[[i] for i in nodes]])
        # entries of the integral that are all within 1e-5 of independence are taken for zero
        zero = cx.And(*[cx.And(P[i][j] - p[i] * p[j] < 1.1e-5 * p[i] * p[j] + 2e-8, P[i][j] - p[i] * p[j] > -1.1e-5 * p[i] * p[j] - 2e-8)
                        for i in range(n) for j in range(n) if not (isinstance(P[i][j], float) and P[i][j] == 0.0)])
        cx.holds(what + "at least as good as single nodes", lambda e: cx.Or(zero, one <= R["best_stab"] + e))
        L = [c for c, v in C.items() for _ in range(v)]
        if comp != "sep" or len(nodes) == n:
            vs = [nvi(cx, a, b, m) for a, b in itertools.combinations(L, 2)]
            if not samples or samples >= len(vs):
                cx.eq(what + "variation of information", R["nvarinf"] * len(vs), total(vs))
            else:
                cx.holds(what + "variation of information of some pairs", lambda e: cx.Or(*[
                    cx.And(cx.leq(R["nvarinf"] * samples - total(v), e), cx.leq(total(v) - R["nvarinf"] * samples, e))
                    for v in itertools.combinations(vs, samples)]))
        cx.eq(what + "sum of the integral", R["ITPT_sum"], total(x for r in raw for x in r))
        dev = [total(r) - p[i] for i, r in enumerate(raw)]
        mx = 0.0
        for x in dev:
            mx = cx.ite(x > mx, x, cx.ite(-x > mx, -x, mx))
        cx.eq(what + "largest deviation of a row", R["max_S_row_diff"], mx)
        if norm:
            cx.check(what + "normalisation", R["normalization"] == "sym_approx")
            cx.eq(what + "sum after normalisation", R["ITPT_sum_norm"], total(x for r in P for x in r))
            mx = 0.0
            for i, r in enumerate(P):
                x = total(r) - p[i]
                mx = cx.ite(x > mx, x, cx.ite(-x > mx, -x, mx))
            cx.eq(what + "largest deviation after normalisation", R["max_S_row_diff_norm"], mx)
        else:
            cx.check(what + "no normalisation", R["normalization"] is None)
        cx.check(what + "settings", R["num_repeat"] == repeats and R["init_p1"] == bool(direction) and R["compute_clustering"] is True)

    verify("")
    if again is None:
        return
    got = {}
    for f in sorted(want):
        if cx.flag("lose " + f[9:23]):
            os.remove(os.path.join(out, f))
        else:
            with open(os.path.join(out, f), "rb") as fh:
                got[f] = canon(pickle.load(fh)["best_cluster"])
    if again == "temp":
        for f in sorted(os.listdir(out)):
            if f.startswith("tmp") and cx.flag("lose temp " + f[12:23]):
                os.remove(os.path.join(out, f))
    run()
    verify("after running again: ")


def cases(tier):
    q = tier == "quick"
    mods = ("temporal_network", "network_clustering")

    def C(name, fn=clusterings, keepz=True, **k):
        return Case(name, fn, k, mods, keepz=keepz)
    tri = [(0, 1), (1, 2), (0, 2)]
    path = [(0, 1), (1, 2)]
    cs = [C("n2", n=2, edges=[(0, 1)], norm=False, symT=True),
          C("n3", n=3, edges=tri, nproc=(1, 2)),
          C("n3-free", n=3, edges=path, norm=False),
          C("n3-comps", n=3, edges=[(0, 2)], comps=("lcc", "sep"), nproc=(1, 2)),
          C("n4-comps", n=4, edges=[(0, 1), (2, 3)], comps=("lcc", "sep"), nproc=(1, 2)),
          C("n3-connected", n=3, fmt="csr", edges=path, comps=("lcc", "sep"), values="conc"),
          C("n4-conc", n=4, edges=[(0, 1), (1, 2), (2, 3)], values="conc", repeats=2, draws=2),
          C("norm", n=2, edges=[(0, 1)], niter=1, values="offdiag", draws=0),
          C("rtol", n=3, edges=tri, rtol=0.25, norm=False, draws=0),
          C("files", n=2, edges=[(0, 1)], files=("2", "0.5"), again="lost", values="conc"),
          C("temp", n=3, edges=path, again="temp", values="conc", nproc=(1, 2)),
          C("samples", n=3, edges=path, values="conc", repeats=3, samples=2),
          C("init", n=3, edges=path, p1=[0.5, 0.25, 0.25], directions=("forward", "backward"), comps=("none", "sep")),
          C("static", n=5, edges=[(0, 1)], values="conc", comps=("lcc",), only_static=True,
            static={(0, 1): 6.0, (1, 2): 3.0, (2, 1): 3.0, (3, 4): 2.0}),
          C("static-too", n=3, edges=[(0, 1)], values="conc", comps=("lcc", "sep"), draws=0,
            static={(0, 1): 2.0, (1, 0): 1.0, (1, 2): 1.0}),
          C("static-isolated", n=3, edges=[(0, 1)], values="conc", draws=0, static={(0, 2): 1.0}),
          C("init-zero", n=4, edges=[(0, 2)], p1=[0.5, 0.0, 0.25, 0.25], directions=("forward",), comps=("sep",)),
          C("wide", n=9, edges=[(0, 1), (1, 2), (0, 2), (3, 4), (4, 5), (3, 5), (2, 3), (6, 7), (5, 6), (7, 8)], values="conc", repeats=2,
            draws=1),
          C("wide-comps", n=8, edges=[(0, 4), (4, 2), (0, 2), (1, 5), (5, 7)], values="conc", comps=("lcc", "sep"), repeats=2, draws=1,
            nproc=(1, 2)),
          ]
    if not q:
        cs += [C("n3-draws", n=3, edges=tri, nproc=(1, 2), draws=2, repeats=3),
               C("n4-path", n=4, edges=[(0, 1), (1, 2), (2, 3)]),
               C("n5-comps", n=5, edges=[(0, 1), (2, 3), (3, 4)], comps=("lcc", "sep"), nproc=(1, 2)),
               C("norm-2", n=2, edges=[(0, 1)], niter=2, values="offdiag"), C("norm-any", n=2, edges=[(0, 1)], niter=1),
               C("norm-3", n=3, edges=path, niter=1, values="offdiag", draws=0),
               C("files-any", n=3, edges=path, files=("2", "0.5", "1"), again="temp", values="conc", nproc=(1, 2)),
               C("init-lcc", n=4, edges=[(0, 2), (1, 3)], p1=[0.5, 0.125, 0.25, 0.125], directions=("forward", "backward"),
                 comps=("none", "lcc", "sep"), nproc=(1, 2))]
    return cs


BOUNDS = ["2-4 nodes (thorough: 5) with arbitrary or listed symmetric integrals, arbitrary integration time, up to 3 components; "
          "2-3 repetitions, the first 0-2 random draws of each repetition arbitrary",
          "uniform and non-uniform initial densities (forward and backward), with and without normalisation, separate components, "
          "largest component, 1-2 processes, subsets of the pairs for the variation of information, thresholds",
          "1-2 files (thorough: 3), any subset of the results (and of the files saved before the NVI) lost, then run again",
          "larger structures: 8-9 nodes with listed integrals"]
OUTSIDE = ["integrals whose stored entries are all within 1e-5 of independence while others are missing (only possible without "
           "the normalisation)", "--num_repeat 1 (no pair for the variation of information)",
           "how the static adjacency file gets its name (no script writes the file that --compute_static_clustering reads)", "compressed and hickle files",
           "killing the script while it writes a file"]
ASSUMPTIONS = ["the script is loaded with its arguments and main() is called; workers as in P17 and P21",
               "random generators return arbitrary values for the first draws of a repetition, then cycle"]
