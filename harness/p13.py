"""P13: what is saved is what is loaded."""
from fsv.runner import Case
from .common import *
from .nets import *
from .p10 import rows, as_format, some_net, thresholded
from .p09 import build

BUDGET = {"quick": 90, "thorough": 800}

MATS = ["laplacians", "adjacencies", "inter_T", "inter_T_lin", "T", "T_lin", "_stationary_trans", "delta_inter_T",
        "delta_inter_T_lin"]
ATTRS = ["node_to_label_dict", "events_table", "times", "time_grid", "num_nodes", "_compute_times",
         "_t_start_laplacians", "_k_start_laplacians", "_t_stop_laplacians", "_k_stop_laplacians",
         "_overlapping_events_merged", "is_directed"]


def ismat(x):
    return hasattr(x, "toarray") or hasattr(x, "to_full_mat") or (hasattr(x, "shape") and getattr(x, "ndim", 0) == 2
                                                                  and not hasattr(x, "columns"))


def same(cx, label, a, b):
    """deep equality"""
    if ismat(a) or ismat(b):
        cx.check(label + ": format", type(a).__name__ == type(b).__name__, f"{type(a)} {type(b)}")
        cx.eq(label, b, a)
    elif isinstance(a, dict):
        cx.check(label + ": type", isinstance(b, dict))
        ka, kb = list(a), list(b)
        cx.check(label + ": number of keys", len(ka) == len(kb))
        for x, y in zip(ka, kb):
            if isinstance(x, (str, int)) and isinstance(y, (str, int)):
                cx.check(label + ": key", x == y)
            else:
                cx.eq(label + ": key", y, x)
            same(cx, label, a[x], b[y])
    elif isinstance(a, (list, tuple)):
        cx.check(label + ": length", len(a) == len(b))
        for x, y in zip(a, b):
            same(cx, label, x, y)
    elif hasattr(a, "columns"):
        cx.check(label + ": columns", list(a.columns) == list(b.columns))
        cx.check(label + ": index", list(a.index) == list(b.index))
        for c in a.columns:
            for x, y in zip(a[c].tolist(), b[c].tolist()):
                if isinstance(x, str):
                    cx.check(label + ": " + c, x == y)
                else:
                    cx.eq(label + ": " + c, y, x)
    elif hasattr(a, "tolist"):
        x, y = list(a.tolist()) if hasattr(a.tolist(), "__len__") else [a.tolist()], None
        y = list(b.tolist()) if hasattr(b.tolist(), "__len__") else [b.tolist()]
        cx.check(label + ": length", len(x) == len(y))
        for p, q in zip(x, y):
            cx.eq(label, q, p)
    elif a is None or isinstance(a, (str, bool)):
        cx.check(label, a == b)
    else:
        cx.eq(label, b, a)


def copy_of(cx, x):
    """independent snapshot"""
    import copy
    return copy.deepcopy(x)


def plain(cx, net, names):
    """snapshot of the attributes, matrices as dense lists"""
    def f(x):
        if ismat(x):
            return [list(r) for r in cx.dense(x)]
        if isinstance(x, dict):
            return [(k, f(v)) for k, v in x.items()]
        if isinstance(x, (list, tuple)):
            return [f(v) for v in x]
        if hasattr(x, "columns"):
            return [(c, x[c].tolist()) for c in x.columns]
        if hasattr(x, "tolist"):
            return x.tolist()
        return x
    return {n: f(getattr(net, n)) for n in names if hasattr(net, n)}


def unchanged(cx, label, a, b):
    if isinstance(a, (list, tuple)):
        cx.check(label + ": length", len(a) == len(b))
        for x, y in zip(a, b):
            unchanged(cx, label, x, y)
    elif isinstance(a, dict):
        cx.check(label + ": keys", list(a) == list(b))
        for k in a:
            unchanged(cx, f"{label} ({k})", a[k], b[k])
    elif a is None or isinstance(a, (str, bool)):
        cx.check(label, a == b)
    else:
        cx.eq(label, b, a)


def whole(cx, cls, **b):
    """network saved at any stage of the computations"""
    import os
    T = cx.mod("temporal_network")
    net, idx, steps, kw, ut = build(cx, cls=cls, win=True, **b)
    stage = cx.int("stage", 0, 4)
    fmt = cx.flag("compressed_format")
    la = 0.5
    if stage >= 1:
        net.compute_laplacian_matrices(**kw, save_adjacencies=True)
    if stage >= 2:
        net.compute_inter_transition_matrices(lamda=la, use_sparse_stoch=fmt)
    if stage >= 3:
        net.compute_transition_matrices(lamda=la, save_intermediate=cx.flag("intermediate"))
    if stage >= 4:
        net.compute_lin_inter_transition_matrices(lamda=la, t_s=7, use_sparse_stoch=fmt)
        net.compute_lin_transition_matrices(lamda=la, t_s=7)
    d = cx.scratch()
    before = plain(cx, net, MATS + ATTRS)
    name = cx.choose("name", ["net", "net.pickle", "net_0.5"] if stage == 0 else ["net_0.5"])
    f = os.path.join(d, name)
    net.save(f)
    unchanged(cx, "saving leaves the network unchanged", before, plain(cx, net, MATS + ATTRS))
    if stage == 0 and cx.flag("another"):
        o = some_net(cx, 2)
        o.save(os.path.join(d, cx.choose("other_name", ["other", "net_0.7"])))
    got = type(net).load(f)
    cx.check("class", type(got) is type(net))
    cx.check("instantaneous", got.instantaneous_events == net.instantaneous_events)
    for a in MATS + ATTRS:
        cx.check(f"{a} present", hasattr(got, a) == hasattr(net, a))
        if hasattr(net, a):
            same(cx, f"loaded {a}", getattr(net, a), getattr(got, a))
    cx.check("nodes", got.num_nodes == net.num_nodes and got.num_events == net.num_events)
    cx.eq("start", got.start_time, net.start_time)
    cx.eq("end", got.end_time, net.end_time)
    # the loaded network computes what the saved one computes
    if stage == 0:
        for x in (net, got):
            x.compute_laplacian_matrices(**kw)
        same(cx, "laplacians computed after loading", net.laplacians, got.laplacians)
        same(cx, "times", net.times, got.times)
    elif stage == 2:
        for x in (net, got):
            x.compute_transition_matrices(lamda=la, reverse_time=True)
        same(cx, "transition matrices computed after loading", net.T, got.T)


def selection(cx, **b):
    """only the asked matrices and attributes are saved or loaded"""
    import os
    T = cx.mod("temporal_network")
    net, idx, steps, kw, ut = build(cx, win=False, **b)
    net.compute_inter_transition_matrices(lamda=0.5)
    net.compute_transition_matrices(lamda=0.5)
    f = os.path.join(cx.scratch(), "net")
    avail = ["laplacians", "inter_T", "T"]
    ms = [a for a in avail if cx.flag("save_" + a)]
    at = ["node_to_label_dict", "events_table"] + [a for a in ("times", "_k_stop_laplacians") if cx.flag("save_" + a)]
    net.save(f, matrices_list=ms, attributes_list=at)
    ld = [a for a in avail if cx.flag("load_" + a)]
    la = [a for a in ("times",) if cx.flag("load_" + a)] + ["_k_stop_laplacians"]
    got = T.ContTempNetwork.load(f, matrices_list=ld, attributes_list=la)
    for a in avail:
        cx.check("selected matrices", hasattr(got, a) == (a in ms and a in ld))
        if hasattr(got, a):
            same(cx, f"loaded {a}", getattr(net, a), getattr(got, a))
    for a in ("times", "_k_stop_laplacians"):
        cx.check("selected attributes", hasattr(got, a) == (a in at and a in la))
        if hasattr(got, a):
            same(cx, f"loaded {a}", getattr(net, a), getattr(got, a))
    same(cx, "events", net.events_table, got.events_table)
    same(cx, "labels", net.node_to_label_dict, got.node_to_label_dict)


def few(cx, name, n, edges):
    """stochastic rows, one of them arbitrary (in a range)"""
    M = [[0.0] * n for _ in range(n)]
    first = True
    for i in range(n):
        cols = [j for j in range(n) if j != i and ((i, j) in edges or (j, i) in edges)]
        for j in cols:
            if first:
                v = cx.real(f"{name}_{i}{j}", 0, 1)
                cx.assume(cx.And(v > 0.02, v < 0.2))
                M[i][j] = v
                first = False
            else:
                M[i][j] = 0.25 + 0.0625 * i
        M[i][i] = 1.0 - total(M[i])
    return M


def with_mats(cx, n, steps, edges, what, rates, tss, fmts, total_=False, gen=rows):
    """a network holding arbitrary matrices"""
    net = some_net(cx, n)
    net.compute_laplacian_matrices()
    D, X = {}, {}
    for r, la in enumerate(rates):
        for q, ts in enumerate(tss):
            L, Y = [], []
            fmt = fmts[r]
            for k in range(1 if total_ else steps):
                M = gen(cx, f"m{r}{q}{k}", n, edges[(k + r) % len(edges)])
                L.append(M)
                Y.append(as_format(cx, M, edges[(k + r) % len(edges)], fmt))
            if total_:
                L, Y = L[0], Y[0]
            if what.endswith("lin"):
                D.setdefault(la, {})[ts] = L
                X.setdefault(la, {})[ts] = Y
            else:
                D[la], X[la] = L, Y
    setattr(net, what, X)
    return net, D, X


def meta(cx, net, got):
    for k in ("_k_start_laplacians", "_k_stop_laplacians", "_t_start_laplacians", "_t_stop_laplacians", "num_nodes"):
        cx.eq("loaded " + k, got[k], getattr(net, k))
    ks, ke = net._k_start_laplacians, net._k_stop_laplacians
    cx.eq("loaded times", list(got["times_k_start_to_k_stop+1"]), list(net.times.values[ks:ke + 1]))


def path_for(cx, d, compressed, names=("m", "m.pickle", "m.gz", "m_0.5")):
    """name to save under, names to load from"""
    import os
    name = cx.choose("name", list(names))
    f = os.path.join(d, name)
    want = f
    if compressed:
        if not name.endswith(".gz"):
            want += ".gz"
    elif not name.endswith(".pickle"):
        want += ".pickle"
    loads = [want]
    if name in ("m", "m_0.5"):
        loads.append(f)
    if name == "m.pickle" and compressed:
        loads.append(os.path.join(d, "m"))
    return f, want, loads


def inter(cx, n, steps, edges, lin=False, rates=(0.5,), tss=(7,), tol=None, rnd=True):
    import os
    T = cx.mod("temporal_network")
    what = "inter_T_lin" if lin else "inter_T"
    delta = cx.flag("delta")
    fmt = "csr" if delta else "stoch"
    net, D, X = with_mats(cx, n, steps, edges, what, rates, tss, [fmt] * len(rates), gen=few if tol is None else rows)
    comp = cx.flag("compressed")
    f, want, loads = path_for(cx, cx.scratch(), comp, *([] if tol is None else [["m"]]))
    one = len(rates) > 1 and cx.flag("one_rate")
    kw = dict(compressed=comp, save_delta=delta)
    if one:
        kw["lamda"] = rates[cx.int("rate", 0, len(rates) - 1)]
    if tol is not None:
        kw["tol"] = tol
    if not rnd:
        kw["round_zeros"] = False
    getattr(net, "save_" + what)(f, **kw)
    cx.check("one file, under the expected name", os.listdir(os.path.dirname(want)) == [os.path.basename(want)])
    for la in rates:
        for ts in (tss if lin else [None]):
            a, b = (D[la][ts], X[la][ts]) if lin else (D[la], X[la])
            for M, Y in zip(a, b):
                cx.eq("saving leaves the matrices unchanged", Y, M)
    got = T.ContTempNetwork.load_inter_T(cx.choose("load", loads))
    meta(cx, net, got)
    cx.check("loaded kind", (what in got) and (("inter_T" if lin else "inter_T_lin") not in got))
    exp = [kw["lamda"]] if one else list(rates)
    cx.check("loaded rates", list(got[what]) == exp)
    for la in exp:
        if lin:
            cx.check("loaded stationarity times", list(got[what][la]) == list(tss))
        for ts in (tss if lin else [None]):
            G, O = (got[what][la][ts], D[la][ts]) if lin else (got[what][la], D[la])
            cx.check("number of matrices", len(G) == len(O))
            for k, (g, o) in enumerate(zip(G, O)):
                act = sorted({x for e in edges[(k + rates.index(la)) % len(edges)] for x in e})
                cx.check("format", type(g).__name__ == ("csr_matrix" if delta else "SparseStochMat"), type(g).__name__)
                if tol is None or not rnd:
                    cx.eq("loaded matrix", g, o)
                elif delta:
                    for a, b in zip(cx.dense(g), o):
                        for x, y in zip(a, b):
                            cx.le("dropped values are small", cx.ite(x > y, x - y, y - x), tol * (k + 1))
                else:
                    cx.eq("loaded matrix, small values dropped", g, thresholded(cx, o, tol, act, normalise=False))


def trans(cx, n, edges, lin=False, rates=(0.5,), tss=(7,), tol=None, rnd=True, mixed=False):
    import os
    T = cx.mod("temporal_network")
    what = "T_lin" if lin else "T"
    fmts = [cx.choose(f"format{i}", ["csr", "stoch"]) if (mixed or i == 0) else None for i in range(len(rates))]
    fmts = [f or fmts[0] for f in fmts]
    net, D, X = with_mats(cx, n, 1, edges, what, rates, tss, fmts, total_=True,
                          gen=few if tol is None else rows)
    comp = cx.flag("compressed")
    f, want, loads = path_for(cx, cx.scratch(), comp, *([] if tol is None else [["m"]]))
    one = len(rates) > 1 and cx.flag("one_rate")
    kw = dict(compressed=comp)
    if one:
        kw["lamda"] = rates[cx.int("rate", 0, len(rates) - 1)]
    if tol is not None:
        kw["tol"] = tol
    if not rnd:
        kw["round_zeros"] = False
    getattr(net, "save_" + what)(f, **kw)
    cx.check("one file, under the expected name", os.listdir(os.path.dirname(want)) == [os.path.basename(want)])
    for la in rates:
        for ts in (tss if lin else [None]):
            a, b = (D[la][ts], X[la][ts]) if lin else (D[la], X[la])
            cx.eq("saving leaves the matrices unchanged", b, a)
    got = T.ContTempNetwork.load_T(cx.choose("load", loads))
    meta(cx, net, got)
    exp = [kw["lamda"]] if one else list(rates)
    cx.check("loaded rates", list(got[what]) == exp)
    for la in exp:
        r = rates.index(la)
        if lin:
            cx.check("loaded stationarity times", list(got[what][la]) == list(tss))
        for ts in (tss if lin else [None]):
            g, o, x = (got[what][la][ts], D[la][ts], X[la][ts]) if lin else (got[what][la], D[la], X[la])
            cx.check("format", type(g).__name__ == type(x).__name__)
            act = sorted({q for e in edges[r % len(edges)] for q in e}) if fmts[r] == "stoch" else None
            if tol is None or not rnd:
                cx.eq("loaded matrix", g, o)
            else:
                cx.eq("loaded matrix, small values dropped", g, thresholded(cx, o, tol, act, normalise=False))


def existing(cx, n=2):
    """what happens to files that are already there"""
    import os
    T = cx.mod("temporal_network")
    lin = cx.flag("lin")
    what = "inter_T_lin" if lin else "inter_T"
    e = [[(0, 1)]]
    net1, D1, _ = with_mats(cx, n, 1, e, what, (0.5,), (7,), ["stoch"])
    f = os.path.join(cx.scratch(), "m")
    comp = cx.flag("compressed")
    getattr(net1, "save_" + what)(f, compressed=comp)
    M2 = [[0.25, 0.75], [0.5, 0.5]]
    net2 = some_net(cx, n)
    net2.compute_laplacian_matrices()
    Y = [as_format(cx, M2, e[0], "stoch")]
    setattr(net2, what, {0.5: {7: Y} if lin else Y})
    rep = cx.flag("replace")
    getattr(net2, "save_" + what)(f, compressed=comp, replace_existing=rep)
    got = T.ContTempNetwork.load_inter_T(f)[what][0.5]
    g = got[7] if lin else got
    o = D1[0.5][7] if lin else D1[0.5]
    cx.eq("existing files are kept unless replacing is asked for", g[0], M2 if rep else o[0])


def refused(cx):
    import os
    T = cx.mod("temporal_network")
    net = some_net(cx, 2)
    f = os.path.join(cx.scratch(), "m")
    for s in ("save_inter_T", "save_inter_T_lin", "save_T", "save_T_lin"):
        cx.raises("nothing to save", AssertionError, lambda: getattr(net, s)(f))
    cx.raises("nothing to load", FileNotFoundError, lambda: T.ContTempNetwork.load_T(f))
    cx.raises("nothing to load", FileNotFoundError, lambda: T.ContTempNetwork.load_inter_T(f))
    cx.raises("nothing to load", FileNotFoundError, lambda: T.ContTempNetwork.load(f))
    net.compute_inter_transition_matrices(lamda=0.5)
    cx.raises("not compressed", AssertionError, lambda: net.save_inter_T(f))
    net.compute_transition_matrices(lamda=0.5, save_intermediate=True)
    cx.raises("several matrices", TypeError, lambda: net.save_T(f))
    net2 = some_net(cx, 2)
    net2.compute_inter_transition_matrices(lamda=0.5, use_sparse_stoch=True)
    cx.raises("no differences of compressed matrices", AssertionError, lambda: net2.save_inter_T(f, save_delta=True))
    cx.check("nothing written", os.listdir(os.path.dirname(f)) == [])


def cases(tier):
    q = tier == "quick"
    mods = ("temporal_network",)

    def C(name, fn, keepz=True, **k):
        return Case(name, fn, k, mods, keepz=keepz)
    e3 = [[(0, 1)], [(1, 2)]]
    e2 = [[(0, 1)]]
    N = "ContTempNetwork"
    cs = [C("whole-n3", whole, cls=N, n=3, m=2, K=3, fixed=[(0, 1), (1, 2)]),
          C("whole-n2-table", whole, cls=N, n=2, m=1, K=2, how="table"),
          C("whole-inst", whole, cls="ContTempInstNetwork", n=3, m=2, K=2, fixed=[(0, 1), (1, 1)]),
          C("selection", selection, n=3, m=2, K=3, fixed=[(0, 1), (1, 2)]),
          C("inter-n3", inter, n=3, steps=2, edges=e3),
          C("inter-n3-rates", inter, n=3, steps=2, edges=e3, rates=(0.5, 2.0)),
          C("inter-n2-tol", inter, n=2, steps=2, edges=e2, tol=0.25),
          C("inter-n2-exact", inter, n=2, steps=2, edges=e2, tol=0.25, rnd=False),
          C("inter-n2-3steps", inter, n=2, steps=3, edges=e2), C("lin-n2-3steps", inter, n=2, steps=3, edges=e2, lin=True),
          C("lin-n3", inter, n=3, steps=2, edges=e3, lin=True),
          C("lin-n2-rates", inter, n=2, steps=2, edges=e2, lin=True, rates=(0.5, 2.0), tss=(7, 3.5)),
          C("lin-n2-tol", inter, n=2, steps=2, edges=e2, lin=True, tol=0.25),
          C("T-n3", trans, n=3, edges=e3, rates=(0.5, 2.0), mixed=True),
          C("T-n2-tol", trans, n=2, edges=e2, tol=0.25),
          C("T-n2-exact", trans, n=2, edges=e2, tol=0.25, rnd=False),
          C("Tlin-n3", trans, n=3, edges=e3, lin=True, rates=(0.5, 2.0), tss=(7, 3.5), mixed=True),
          C("Tlin-n2-tol", trans, n=2, edges=e2, lin=True, tol=0.25),
          C("existing", existing),
          C("refused", refused)]
    cs += [C("wide-inter-5steps", inter, n=2, steps=5, edges=e2), C("wide-lin-5steps", inter, n=2, steps=5, edges=e2, lin=True)]
    if not q:
        cs += [C("whole-n4", whole, cls=N, n=4, m=3, K=3),
               C("inter-n3-4steps", inter, n=3, steps=4, edges=e3),
               C("inter-n3-tol", inter, n=3, steps=2, edges=e3, tol=0.25),
               C("T-n3-tol", trans, n=3, edges=e3, tol=0.25, mixed=True)]
    return cs

BOUNDS = ['2-3 nodes, 1-4 matrices per rate, 1-2 rates and stationarity times, every format and option, arbitrary stochastic entries; whole networks of 1-2 contacts',
          "larger structures: 5 matrices per rate"]
OUTSIDE = ['files written by other versions', 'damaged files']
ASSUMPTIONS = ['pickle and gzip themselves are run; symbolic values are pickled by reference']
