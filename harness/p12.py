"""P12: a temporal network holds exactly the given events (labels, order,
durations, merging) and aggregates them correctly."""
from fsv.runner import Case
from .common import *
from .nets import *

BUDGET = {"quick": 60, "thorough": 800}
LABELS = {"str": ["b", "c", "a", "d", "ab", "B", "10"], "int": [7, -1, 10, 0, 100, 8, 2], "shift": [1, 2, 3, 4, 5, 6, 7]}


def timed_events(cx, n, m, K, fixed=None, first=True):
    t = timeline(cx, K)
    ev = some_events(cx, n, m, K, fixed=fixed, first=first)
    return t, ev


def make(cx, t, ev, lab, how, cls="ContTempNetwork", **kw):
    T = cx.mod("temporal_network")
    C = getattr(T, cls)
    src, dst = [lab[e[0]] for e in ev], [lab[e[1]] for e in ev]
    st, en = [t[e[2]] for e in ev], [t[e[3]] for e in ev]
    if how == "list":
        args = (list(src), list(dst), list(st), list(en))
        if cls == "ContTempInstNetwork":
            net = C(source_nodes=src, target_nodes=dst, starting_times=st, **kw)
        else:
            net = C(source_nodes=src, target_nodes=dst, starting_times=st, ending_times=en, **kw)
        cx.check("given lists unchanged", src == args[0] and dst == args[1])
        cx.eq("given times unchanged", st + en, args[2] + args[3])
        return net
    import pandas as pd
    df = pd.DataFrame({"source_nodes": src, "target_nodes": dst, "starting_times": st, "ending_times": en})
    if how == "table-index":
        df.index = range(5, 5 + len(ev))
    cols, ind = list(df.columns), list(df.index)
    net = C(events_table=df, **kw)
    cx.check("given table unchanged", list(df.columns) == cols and list(df.index) == ind
             and list(df.source_nodes) == src and list(df.target_nodes) == dst)
    cx.eq("given table times unchanged", list(df.starting_times) + list(df.ending_times), st + en)
    return net


def table(net):
    e = net.events_table
    return [(u, v, s, f, d) for u, v, s, f, d in zip(e.source_nodes.tolist(), e.target_nodes.tolist(),
                                                      e.starting_times.tolist(), e.ending_times.tolist(), e.durations.tolist())]


def same_events(cx, net, t, want, label, inst=False, oriented=True):
    """the table holds exactly the events want: [(u, v, start index, end index)]"""
    rows = table(net)
    cx.check(label + ": number of events", len(rows) == len(want) == net.num_events)
    left = list(want)
    for u, v, s, f, d in rows:
        # the times are distinct reals, an event matches at most one index pair
        hit = None
        for w in left:
            if ((w[0], w[1]) == (u, v) or (not oriented and (w[1], w[0]) == (u, v))) \
                    and cx.truth(s == t[w[2]]) and cx.truth(f == t[w[3]]):
                hit = w
                break
        if hit is None:
            cx.fail(label + ": unexpected event", f"{(u, v)}")
        left.remove(hit)
        cx.eq(label + ": duration", d, 1.0 if inst else t[hit[3]] - t[hit[2]])


def build(cx, n, m, K, how, labels=("str",), fixed=None, cls="ContTempNetwork", relabel=True):
    inst = cls == "ContTempInstNetwork"
    t, ev = timed_events(cx, n, m, K, fixed)
    if inst:
        ss = sorted({e[2] for e in ev})
        t = t + [t[ss[-1]] + 1]
        nxt = {a: b for a, b in zip(ss, ss[1:] + [K])}
        ev = [(u, v, s, nxt[s]) for u, v, s, _ in ev]
    used = sorted({x for e in ev for x in e[:2]})
    if relabel:
        lab = LABELS[cx.choose("labels", list(labels))]
        net = make(cx, t, ev, lab, how, cls)
        order = sorted(lab[x] for x in used)
        cx.check("labels numbered from zero", dict(net.node_to_label_dict) == {i: l for i, l in enumerate(order)})
        cx.check("inverse labelling", dict(net.label_to_node_dict) == {l: i for i, l in enumerate(order)})
        num = {x: order.index(lab[x]) for x in used}
    else:
        # already numbered from zero
        num = {x: i for i, x in enumerate(used)}
        lab = dict(num)
        names = {i: "n%d" % x for x, i in num.items()}
        net = make(cx, t, ev, lab, how, cls, relabel_nodes=False, node_to_label_dict=names)
        cx.check("given labels kept", net.node_to_label_dict == names)
    cx.check("number of nodes", net.num_nodes == len(used))
    cx.check("nodes", [int(x) for x in net.node_array] == list(range(len(used))))
    same_events(cx, net, t, [(num[u], num[v], s, f) for u, v, s, f in ev], "events", inst)
    cx.eq("start", net.start_time, t[min(e[2] for e in ev)])
    cx.eq("end", net.end_time, t[max(e[3] for e in ev)])
    if how == "list":
        rows = table(net)
        cx.check("index", list(net.events_table.index) == list(range(len(ev))))
        for a, b in zip(rows, rows[1:]):
            cx.holds("ordered by time", lambda e: cx.Or(cx.leq(a[2], b[2] + e)))


def merged_oracle(ev, idx):
    """per pair: overlapping intervals (sharing more than an instant) joined"""
    out = []
    pairs = sorted({tuple(sorted((idx[u], idx[v]))) for u, v, _, _ in ev})
    for p in pairs:
        iv = sorted((s, f) for u, v, s, f in ev if tuple(sorted((idx[u], idx[v]))) == p)
        cur = None
        for s, f in iv:
            if cur is not None and s < cur[1]:
                cur = (cur[0], max(cur[1], f))
            else:
                if cur is not None:
                    out.append(p + cur)
                cur = (s, f)
        out.append(p + cur)
    return out


def merge(cx, n, m, K, how="list", fixed=None):
    t, ev = timed_events(cx, n, m, K, fixed)
    net = make(cx, t, ev, {x: x for x in range(n)}, how, merge_overlapping_events=True)
    used = sorted({x for e in ev for x in e[:2]})
    idx = {x: i for i, x in enumerate(used)}
    want = merged_oracle(ev, idx)
    same_events(cx, net, t, want, "merged", oriented=False)
    cx.check("number of nodes", net.num_nodes == len(used))
    cx.eq("start", net.start_time, t[min(e[2] for e in ev)])
    cx.eq("end", net.end_time, t[max(e[3] for e in ev)])
    net.compute_laplacian_matrices(save_adjacencies=True)
    ks = used_times(want)
    cx.eq("times", list(net.times), [t[k] for k in ks])
    for k, A in zip(ks, net.adjacencies):
        cx.eq("contacts as before merging", A, adjacency(ev, idx, k))


def static(cx, n, m, K, fixed=None, how="list", merged=False):
    t, ev = timed_events(cx, n, m, K, fixed)
    used = sorted({x for e in ev for x in e[:2]})
    idx = {x: i for i, x in enumerate(used)}
    want = merged_oracle(ev, idx)
    if not merged:
        cx.assume(len(want) == len(ev))   # no overlapping events of the same pair
    net = make(cx, t, ev, {x: x for x in range(n)}, how, merge_overlapping_events=merged)
    kw = {}
    a, b = t[min(e[2] for e in ev)], t[max(e[3] for e in ev)]
    if cx.flag("from"):
        a = cx.real("start", -4, 20)
        kw["start_time"] = a
    if cx.flag("to"):
        b = cx.real("stop", -4, 20)
        kw["end_time"] = b
    cx.assume(a < b)
    A = net.compute_static_adjacency_matrix(**kw)
    N = len(used)
    W = [[0.0] * N for _ in range(N)]
    for i, j, s, f in want:
        lo = cx.ite(t[s] > a, t[s], a)
        hi = cx.ite(t[f] < b, t[f], b)
        d = cx.ite(hi > lo, hi - lo, 0.0)
        W[i][j] = W[i][j] + d
        W[j][i] = W[j][i] + d
    cx.eq("time in contact within the window", A, W)


def attrs(cx, n, m, K):
    """extra attributes stay with their events"""
    t, ev = timed_events(cx, n, m, K)
    T = cx.mod("temporal_network")
    w = cx.reals("w", m, -2, 2)
    net = T.ContTempNetwork(source_nodes=[e[0] for e in ev], target_nodes=[e[1] for e in ev],
                            starting_times=[t[e[2]] for e in ev], ending_times=[t[e[3]] for e in ev],
                            extra_attrs={"weight": list(w)})
    used = sorted({x for e in ev for x in e[:2]})
    e = net.events_table
    rows = list(zip(e.source_nodes.tolist(), e.target_nodes.tolist(), e.starting_times.tolist(), e.ending_times.tolist(),
                    e.weight.tolist()))
    cx.check("number of events", len(rows) == m)
    for k, (u, v, s, f) in enumerate(ev):
        cx.holds("attribute stays with its event", lambda eps: cx.Or(*[
            cx.And(r[0] == used.index(u), r[1] == used.index(v), cx.close(r[2], t[s]), cx.close(r[3], t[f]), cx.close(r[4], w[k]))
            for r in rows]))


def refused(cx):
    T = cx.mod("temporal_network")
    a, b = cx.real("a"), cx.real("b")
    cx.raises("lists of different lengths", AssertionError, lambda: T.ContTempNetwork(
        source_nodes=[0], target_nodes=[1, 2], starting_times=[a], ending_times=[b]))
    cx.raises("missing end", AssertionError, lambda: T.ContTempNetwork(
        source_nodes=[0], target_nodes=[1], starting_times=[a], ending_times=[]))
    cx.raises("attribute of another length", AssertionError, lambda: T.ContTempNetwork(
        source_nodes=[0], target_nodes=[1], starting_times=[a], ending_times=[b], extra_attrs={"w": [1, 2]}))
    cx.raises("not a table", ValueError, lambda: T.ContTempNetwork(events_table=3))
    cx.raises("missing file", ValueError, lambda: T.ContTempNetwork(events_table="/nonexistent/events.csv"))


def cases(tier):
    q = tier == "quick"
    mods = ("temporal_network",)

    def C(name, fn, **k):
        return Case(name, fn, k, mods)
    F = [(0, 2), (1, 3), (0, 1)]
    cs = [C("list-n3-m2", build, n=3, m=2, K=3, how="list", labels=("str", "int")),
          C("list-n2-m3", build, n=2, m=3, K=4, how="list", fixed=[(0, 3), (0, 1), (1, 2)]),
          C("list-n4-m3", build, n=4, m=3, K=4, how="list", labels=("int", "shift"), fixed=[(1, 3), (0, 2), (0, 1)]),
          C("table-n3-m2", build, n=3, m=2, K=3, how="table", labels=("str", "int")),
          C("table-index-n3-m2", build, n=3, m=2, K=3, how="table-index", labels=("int", "shift")),
          C("numbered-list", build, n=3, m=2, K=3, how="list", relabel=False),
          C("numbered-table", build, n=3, m=2, K=3, how="table", relabel=False),
          C("inst-list", build, n=3, m=2, K=3, how="list", cls="ContTempInstNetwork", labels=("int",)),
          C("inst-table", build, n=3, m=2, K=3, how="table", cls="ContTempInstNetwork", labels=("str",)),
          C("merge-n2-m3", merge, n=2, m=3, K=4),
          C("merge-n3-m3", merge, n=3, m=3, K=4, fixed=[(0, 3), (1, 2), (0, 2)]),
          C("merge-table", merge, n=2, m=2, K=4, how="table-index"),
          C("merge-n2-m4", merge, n=2, m=4, K=6, fixed=[(0, 4), (1, 2), (3, 5), (2, 3)]),
          C("static-n3-m2", static, n=3, m=2, K=3),
          C("static-n2-m3", static, n=2, m=3, K=4, fixed=[(0, 1), (1, 2), (2, 3)]),
          C("static-merged", static, n=2, m=2, K=4, merged=True),
          C("attributes", attrs, n=3, m=2, K=3),
          C("refused", refused)]
    cs += [C("merge-n3-m3-any", merge, n=3, m=3, K=4), C("static-n3-m3", static, n=3, m=3, K=4)]
    cs += [C("list-wide", build, n=7, m=None, K=8, how="list", labels=("str", "int")), C("table-wide", build, n=7, m=None, K=8, how="table-index", labels=("str",)),
           C("merge-wide", merge, n=7, m=None, K=8), C("static-wide", static, n=7, m=None, K=8)]
    if not q:
        cs += [C("list-n3-m3", build, n=3, m=3, K=4, how="list", labels=("str", "int")),
               C("table-n3-m3", build, n=3, m=3, K=4, how="table-index", labels=("str", "int")),
               C("merge-n2-m4-any", merge, n=2, m=4, K=4)]
    return cs

BOUNDS = ['2-4 nodes, 1-4 events, 2-6 times, string, integer and shifted labels, any table index; times arbitrary reals at least 0.05 apart',
          "larger structures: 7 nodes, 8-10 listed contacts at 8 arbitrary times"]
OUTSIDE = ['csv input', 'self-contacts']
ASSUMPTIONS = ['events tables through pandas itself, run on the symbolic values']
