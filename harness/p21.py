"""P21: the command line computes the matrices of every slice of the network."""
import os

from fsv.runner import Case
from .common import *
from .nets import *
from .p09 import lin_oracle, neg_scaled
from .p11 import oracle as integral_oracle

BUDGET = {"quick": 75, "thorough": 800}
TAUS = {"1": 1.0, "2": 2.0, "0.25": 0.25}


def setup(cx, n, m, K, fixed, gaps=None):
    t = timeline(cx, K)
    if gaps:
        t = [t[0]]
        for i in range(1, K):
            t.append(t[-1] + (gaps[i - 1] if isinstance(gaps, tuple) else cx.choose(f"gap{i}", gaps)))
    ev = some_events(cx, n, m, K, fixed=fixed, orient=False)
    net, idx = network(cx, ev, t)
    d = cx.scratch()
    for x in ("data", "out"):
        os.mkdir(os.path.join(d, x))
    ks = used_times(ev)
    ut = [t[k] for k in ks]
    return net, idx, ev, t, ks, ut, d


def apart(cx, x, ts, eps=0.001):
    for y in ts:
        cx.assume(cx.Or(x > y + eps, x < y - eps))


def equal_parts(cx, t0, te, s, ut):
    b = [t0] + [t0 + (te - t0) * i / s for i in range(1, s)] + [te]
    for x in b[1:-1]:
        apart(cx, x, ut)    # (te-t0)*i/s is not exact in floating point
    return b


def slicing(cx, how, ut, net, d, most=3):
    """-> arguments, expected bounds of the slices"""
    f = os.path.join(d, "data", "net")
    if how == "file":
        b = []
        for i in range(cx.int("nslices", 1, most) + 1):
            k = cx.int(f"at{i}", 0, len(ut))
            if k < len(ut):
                x = ut[k]
            else:
                x = cx.real(f"bound{i}", -3, 12)
                apart(cx, x, ut)
            if b:
                cx.assume(x > b[-1] + 0.01)
            b.append(x)
        net.time_slices_bounds = list(b)
        net.save(f, attributes_list=["node_to_label_dict", "events_table", "num_nodes", "time_slices_bounds"])
        return ["--time_slices_from_net_file"], b
    net.save(f)
    if how == "num":
        s = cx.int("num_slices", 1, most)
        return ["--num_slices", str(s)], equal_parts(cx, ut[0], ut[-1], s, ut)
    args = []
    t0, te = ut[0], ut[-1]
    if cx.flag("give_t0"):
        t0 = cx.real("t0given", -4, 4)
        cx.assume(t0 < ut[-1] - 0.05)
        apart(cx, t0, ut)
        args += ["--t0", cx.text(t0)]
    if cx.flag("give_tend"):
        te = cx.real("tend", -4, 12)
        cx.assume(te > t0 + 0.05)
        apart(cx, te, ut)
        args += ["--tend", cx.text(te)]
    if how == "num-from":
        s = cx.int("num_slices", 1, most)
        return args + ["--num_slices", str(s)], equal_parts(cx, t0, te, s, ut)
    ln = cx.real("length", 0, 12)
    cx.assume(ln > 0.05)
    b = [t0]
    while cx.truth(b[-1] < te):
        cx.assume(len(b) <= most)
        b.append(b[-1] + ln)
        apart(cx, b[-1], list(ut) + [te])
    args += ["--slice_length", cx.text(ln)]
    if cx.flag("num_slices_too"):
        args += ["--num_slices", "7"]
    return args, b


def at(cx, ut, x):
    """index of the last time not after x (the first one if there is none)"""
    k = 0
    for i, u in enumerate(ut):
        if cx.truth(u <= x):
            k = i
    return k


def stepmats(cx, ev, idx, t, ks, a, b, la, lin, ts):
    N = len(idx)
    out = []
    for i in range(a, b):
        A = adjacency(ev, idx, ks[i])
        x = la * (t[ks[i + 1]] - t[ks[i]])
        out.append(lin_oracle(cx, A, x, ts) if lin else [list(r) for r in cx.dense(cx.expm(neg_scaled(laplacian(A), x)))])
    return out or [d_eye(N)]


def transmats(cx, n, m, K, fixed, how="num", most=2, kinds=("expm",), inter=True, slicetrans=False, flow=False, taus=("2",),
              ncpu=1, static=False, opts=(), batches=1, skip=False, again=False, stoch=None, gz=False, lazy=True, gaps=None, defaults=False):
    if lazy:
        cx.lazy_minmax()
    net, idx, ev, t, ks, ut, d = setup(cx, n, m, K, fixed, gaps)
    args, B = slicing(cx, how, ut, net, d, most)
    N = len(idx)
    if flow and "lin" in kinds:
        for x, y in zip(ut, ut[1:]):      # no transition probabilities near the rounding tolerance of the integral
            for tau in taus:
                apart(cx, (y - x) / TAUS[tau], [1.0], 0.02)
    out = os.path.join(d, "out")
    base = ["--datadir", os.path.join(d, "data"), "--net_filename", "net.pickle", "--savedir", out, "--net_name", "nn",
            "--ncpu", str(ncpu), *args, *opts]
    base += [] if defaults else ["--tol", "0", "--tau_w_list", *taus]
    if inter:
        base += ["--save_inter_T"]
    if slicetrans:
        base += ["--save_slice_trans"]
    if flow:
        base += ["--save_flow_int"]
    if static:
        base += ["--save_static_adjacencies"]
    if "expm" not in kinds:
        base += ["--not_expm_transmat"]
    if "lin" not in kinds:
        base += ["--not_lin_transmat"]
    ts = 10.0
    if "lin" in kinds and cx.flag("t_s"):
        ts = 4.0
        base += ["--t_s", "4"]
    if stoch is None:
        stoch = cx.flag("compressed_format")
    if not stoch:
        base += ["--not_use_sparse_stoch"]
        base += ["--save_delta_inter_T"]
    if gz and cx.flag("gz"):
        base += ["--compress_inter_T", "--compress_slice_trans"]
    nsl = len(B) - 1
    skipped = set()
    if skip:
        skipped = {cx.int("skip", 0, nsl - 1)}
        base += ["--intervals_to_skip", *map(str, skipped)]
    nb = cx.int("batches", 1, batches)
    for b in range(nb):
        cx.script("run_laplacians_transmats", base + (["--batch_num", str(b), "--total_num_batches", str(nb)] if nb > 1 else [])).main()
    files = sorted(os.listdir(out))
    want = set()
    TN = cx.mod("temporal_network").ContTempNetwork
    import pandas as pd

    def read(stem, loader):
        fs = [f for f in files if f == stem or (f.startswith(stem) and f[len(stem):] in (".pickle", ".gz", ".pickle.gz"))]
        cx.check("one file " + stem, len(fs) == 1, str(files))
        want.add(fs[0])
        return loader(os.path.join(out, fs[0]))

    for s in range(nsl):
        if s in skipped:
            continue
        a, b = at(cx, ut, B[s]), at(cx, ut, B[s + 1])
        empty = a == b
        if static:
            A = cx.dense(read(f"nn_static_adjacency_int{s:06d}", pd.read_pickle))
            for i in range(N):
                for j in range(N):
                    w = 0.0
                    for u, v, x, y in ev:
                        if {idx[u], idx[v]} == {i, j} and i != j:
                            lo = cx.ite(t[x] > B[s], t[x], B[s])
                            hi = cx.ite(t[y] < B[s + 1], t[y], B[s + 1])
                            w = w + cx.ite(hi > lo, hi - lo, 0.0)
                    cx.eq("time in contact during the slice", A[i][j], w)
        for tau in taus:
            la = 1 / TAUS[tau]
            stem = f"nn_tau_w{TAUS[tau]:.3e}_int{s:06d}_"
            for kind in kinds:
                lin = kind == "lin"
                Ms = stepmats(cx, ev, idx, t, ks, a, b, la, lin, ts)
                L = "lin_" if lin else ""
                if inter:
                    D = read(f"{stem}_{L}inter_trans_mat", TN.load_inter_T)
                    X = D["inter_T_lin"][la][ts] if lin else D["inter_T"][la]
                    cx.check("one matrix per step", len(X) == len(Ms))
                    for x, M in zip(X, Ms):
                        cx.eq("inter-event matrix of the slice", x, M)
                    cx.check("only this rate", list(D["inter_T_lin" if lin else "inter_T"]) == [la])
                    cx.check("nodes", D["num_nodes"] == N)
                    cx.eq("times of the slice", list(D["times_k_start_to_k_stop+1"]), ut[a:b + 1])
                    cx.eq("start", D["_t_start_laplacians"], ut[a])
                    cx.eq("end", D["_t_stop_laplacians"], ut[b])
                if slicetrans:
                    for rev in (False, True):
                        r = "_reversed" if rev else ""
                        seq = Ms[::-1] if rev else Ms
                        if flow and empty:
                            continue
                        D = read(f"{stem}{r}_{L}trans_mat", TN.load_T)
                        x = D["T_lin"][la][ts] if lin else D["T"][la]
                        P = seq[0]
                        for M in seq[1:]:
                            P = d_mul(P, M)
                        cx.eq("transition matrix of the slice", x, P)
                        cx.eq("start", D["_t_start_laplacians"], ut[a])
                        cx.eq("end", D["_t_stop_laplacians"], ut[b])
                        if flow:
                            I = read(f"{stem}{r}_{L}flow_int", pd.read_pickle)
                            tt = ut[a:b + 1]
                            if rev:
                                tt = [-x for x in tt[::-1]]
                            cx.eq("flow integral of the slice", I.toarray(), integral_oracle(cx, seq, [1.0 / N] * N, tt, b - a))
    if not (flow and slicetrans):
        cx.check("no other files", set(files) == want, f"{files} {sorted(want)}")
    if again:
        # one file lost: running again restores it and leaves the others
        lost = cx.choose("lost", sorted(want)) if want else None
        if lost is None:
            return
        keep = {f: open(os.path.join(out, f), "rb").read() for f in want}
        ref = os.path.join(d, "ref")
        os.mkdir(ref)
        os.rename(os.path.join(out, lost), os.path.join(ref, lost))
        for b in range(nb):
            cx.script("run_laplacians_transmats", base + (["--batch_num", str(b), "--total_num_batches", str(nb)] if nb > 1 else [])).main()
        cx.check("the lost file is there again", os.path.exists(os.path.join(out, lost)), lost)
        cx.check("no other files after running again", set(os.listdir(out)) == want)
        for f in want - {lost}:
            cx.check("other files untouched", open(os.path.join(out, f), "rb").read() == keep[f])
        p, q = (pd.read_pickle(os.path.join(x, lost)) if not lost.endswith(".gz") else pd.read_pickle(os.path.join(x, lost), compression="gzip")
                for x in (ref, out))
        from .p13 import same
        for k in ("_compute_times",):
            for x in (p, q):
                if isinstance(x, dict):
                    x.pop(k, None)
        same(cx, "restored file", p, q)


def cases(tier):
    q = tier == "quick"
    mods = ("temporal_network",)

    def C(name, fn=transmats, keepz=True, **k):
        return Case(name, fn, k, mods, keepz=keepz)
    two = [(0, 1), (1, 2)]
    par = [(0, 1), (2, 3)]
    E, L, B = ("expm",), ("lin",), ("expm", "lin")
    cs = [C("num", n=3, m=2, K=3, fixed=two, how="num", taus=("2", "1")),
          C("num-from", n=3, m=2, K=3, fixed=two, how="num-from", stoch=True),
          C("length", n=3, m=2, K=3, fixed=two, how="length", stoch=True),
          C("file", n=3, m=2, K=3, fixed=two, how="file", stoch=True),
          C("lin", n=3, m=2, K=3, fixed=two, how="num", kinds=L),
          C("both", n=3, m=2, K=3, fixed=two, how="num", kinds=B, stoch=True, slicetrans=True),
          C("trans", n=3, m=2, K=3, fixed=two, how="num", inter=False, slicetrans=True, gz=True),
          C("flow", n=2, m=1, K=2, fixed=[(0, 1)], how="num", slicetrans=True, flow=True, most=1, lazy=False, gaps=[0.5, 2.0]),
          C("flow-lin", n=2, m=1, K=2, fixed=[(0, 1)], how="num", slicetrans=True, flow=True, most=1, kinds=L),
          C("flow-lin2", n=3, m=2, K=3, fixed=two, how="num", slicetrans=True, flow=True, most=2, kinds=L, gaps=[0.5, 1.75, 6.0]),
          C("static", n=3, m=2, K=3, fixed=two, how="num-from", static=True, stoch=True),
          C("batches", n=3, m=1, K=3, fixed=[(0, 1)], how="num", most=4, batches=3, stoch=True, skip=True),
          C("again", n=3, m=2, K=3, fixed=two, how="num", again=True, stoch=True, gz=True),
          C("again-trans", n=3, m=2, K=3, fixed=two, how="num", again=True, stoch=True, inter=False, slicetrans=True),
          C("again-trans-lin", n=3, m=2, K=3, fixed=two, how="num", again=True, stoch=True, inter=False, slicetrans=True, kinds=L),
          C("again-all", n=2, m=1, K=2, fixed=[(0, 1)], how="num", most=1, again=True, stoch=True, slicetrans=True, kinds=B),
          C("defaults", n=3, m=2, K=3, fixed=two, how="num", slicetrans=True, kinds=L, stoch=True, taus=("1",), gaps=[0.5, 1.75], defaults=True),
          C("csr", n=3, m=2, K=3, fixed=two, how="num", stoch=False, slicetrans=True, opts=("--force_csr",)),
          C("dense", n=3, m=2, K=3, fixed=two, how="num", stoch=False, opts=("--use_dense_expm",)),
          C("wide", n=7, m=None, K=8, fixed=None, how="num", most=4, stoch=True, gaps=(0.5, 1.75, 0.25, 3.0, 0.75, 1.0, 2.5)),
          C("wide-lin", n=7, m=None, K=8, fixed=None, how="num", most=4, kinds=L, stoch=False, gaps=(0.5, 1.75, 0.25, 3.0, 0.75, 1.0, 2.5)),
          ]
    if not q:
        cs += [C("num-any", n=3, m=2, K=4, fixed=None, how="num", most=3, taus=("2", "1"), kinds=B),
               C("num-from-3", n=3, m=3, K=4, fixed=[(0, 1), (1, 3), (0, 2)], how="num-from", most=3, slicetrans=True),
               C("length-3", n=3, m=3, K=4, fixed=[(0, 1), (1, 3), (0, 2)], how="length", most=4, slicetrans=True),
               C("file-3", n=3, m=3, K=4, fixed=[(0, 1), (1, 3), (0, 2)], how="file", most=3, slicetrans=True),
               C("static-any", n=3, m=2, K=4, fixed=None, how="num-from", static=True, stoch=True, most=3),
               C("flow-any", n=2, m=1, K=2, fixed=[(0, 1)], how="num", slicetrans=True, flow=True, most=1, lazy=False),
               C("flow-3", n=3, m=2, K=3, fixed=two, how="num", slicetrans=True, flow=True, most=2, lazy=False, gaps=[0.5, 2.0]),
               C("again-both", n=3, m=2, K=3, fixed=two, how="num", again=True, slicetrans=True, kinds=B, gz=True),
               C("batches-2", n=3, m=2, K=3, fixed=par[:1] + [(1, 2)], how="num", most=5, batches=4, skip=True, taus=("2", "1"))]
    return cs


BOUNDS = ["networks of 3 (thorough: up to 3) nodes, 1-3 contacts at up to 4 distinct times; 1-3 slices (thorough: up to 5) by number, "
          "length, t0/tend or bounds from the network file, all times and bounds arbitrary reals; 1-2 values of tau",
          "every kind of output (inter-event, slice, reversed, linear, static, flow integral), sparse stochastic, csr and dense "
          "computation, compressed files, batches, skipped intervals, one lost file restored by running again",
          "flow integrals with event gaps from a list (thorough: any)",
          "larger structures: 7 nodes, 8-10 listed contacts, listed gaps, up to 4 slices"]
OUTSIDE = ["slice bounds within 1e-3 of event times without being equal (floating-point rounding of the bounds)",
           "tolerances other than 0, values of tau that are not dyadic", "csr matrices without --save_delta_inter_T (refused)",
           "--save_flow_int with a slice that contains no event (fails, nothing is written for it)",
           "running again with more kinds of output than the first time", "killing the script while it writes a file"]
ASSUMPTIONS = ["the script is loaded with its arguments and main() is called; workers are the processes of the stand-in for "
               "multiprocessing (own copy of the module state, any assignment of tasks)",
               "the matrix exponential is represented by its contract"]
