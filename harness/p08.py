"""P08: the Laplacians reflect exactly the contacts going on at each time."""
from fsv.runner import Case
from .common import *
from .nets import *

BUDGET = {"quick": 105, "thorough": 800}


def check_steps(cx, net, ev, idx, ks, inst=False, adj=True):
    """ks: time indices of the steps that should have been computed"""
    cx.check("one Laplacian per step", len(net.laplacians) == len(ks))
    n = len(idx)
    for L, k in zip(net.laplacians, ks):
        A = adjacency(ev, idx, k, inst)
        cx.eq("Laplacian of the contacts going on", L, laplacian(A))
    if adj:
        cx.check("one adjacency per step", len(net.adjacencies) == len(ks))
        for B, k in zip(net.adjacencies, ks):
            cx.eq("adjacency of the contacts going on", B, adjacency(ev, idx, k, inst))


def full(cx, n, m, K, how="list", fixed=None, inst=False):
    t = timeline(cx, K)
    ev = some_events(cx, n, m, K, fixed=fixed)
    if inst:
        # instantaneous contacts last until the next contact time
        ss = sorted({e[2] for e in ev})
        t = t + [t[ss[-1]] + 1]
        nxt = {a: b for a, b in zip(ss, ss[1:] + [K])}
        ev = [(u, v, s, nxt[s]) for u, v, s, _ in ev]
    net, idx = network(cx, ev, t, how, cls="ContTempInstNetwork" if inst else "ContTempNetwork")
    net.compute_laplacian_matrices(save_adjacencies=True)
    ks = used_times(ev)
    cx.check("number of nodes", net.num_nodes == len(idx))
    cx.eq("event times", list(net.times), [t[k] for k in ks])
    check_steps(cx, net, ev, idx, ks[:-1], inst)


def window(cx, n, m, K, how="list", fixed=None, inst=False, again=False):
    t = timeline(cx, K)
    ev = some_events(cx, n, m, K, fixed=fixed)
    if inst:
        ss = sorted({e[2] for e in ev})
        t = t + [t[ss[-1]] + 1]
        nxt = {a: b for a, b in zip(ss, ss[1:] + [K])}
        ev = [(u, v, s, nxt[s]) for u, v, s, _ in ev]
    net, idx = network(cx, ev, t, how, cls="ContTempInstNetwork" if inst else "ContTempNetwork")
    ks = used_times(ev)
    ut = [t[k] for k in ks]
    if again:
        net.compute_laplacian_matrices(t_start=ut[0], t_stop=ut[-1], save_adjacencies=True)
    a, ia = window_time(cx, "from", ut)
    b, ib = window_time(cx, "to", ut)
    ia = 0 if ia is None else ia
    ib = len(ut) - 1 if ib is None else ib
    net.compute_laplacian_matrices(t_start=a, t_stop=b, save_adjacencies=True)
    cx.eq("window starts at the closest earlier event time", net._t_start_laplacians, ut[ia])
    cx.eq("window stops at the closest earlier event time", net._t_stop_laplacians, ut[ib])
    cx.check("window indices", (int(net._k_start_laplacians), int(net._k_stop_laplacians)) == (ia, ib))
    check_steps(cx, net, ev, idx, ks[ia:ib], inst)


def cases(tier):
    q = tier == "quick"
    mods = ("temporal_network",)

    def C(name, fn, **k):
        return Case(name, fn, k, mods)
    cs = [C("n3-m2", full, n=3, m=2, K=4),
          C("n2-m3-overlaps", full, n=2, m=3, K=4),
          C("n4-m3", full, n=4, m=3, K=3, fixed=[(0, 2), (0, 1), (1, 2)]),
          C("n3-m2-table", full, n=3, m=2, K=4, how="table"),
          C("n2-m2-table-index", full, n=2, m=2, K=4, how="table-index"),
          C("n3-m3-inst", full, n=3, m=3, K=3, inst=True),
          C("window-n3-m2", window, n=3, m=2, K=3, fixed=[(0, 1), (1, 2)]),
          C("window-n3-m3", window, n=2, m=3, K=4, fixed=[(0, 2), (1, 3), (0, 3)]),
          C("window-n2-m2", window, n=2, m=2, K=3, how="table"),
          C("window-again", window, n=3, m=2, K=4, fixed=[(0, 2), (1, 3)], again=True),
          C("window-n3-m2-k4", window, n=3, m=2, K=4), C("window-ended", window, n=3, m=3, K=4, fixed=[(0, 1), (1, 3), (2, 3)]),
          C("window-inst", window, n=3, m=2, K=3, inst=True, fixed=[(0, 1), (1, 2)])]
    cs += [C("wide", full, n=7, m=None, K=8), C("wide-table", full, n=7, m=None, K=8, how="table-index"), C("window-wide", window, n=7, m=None, K=8)]
    if not q:
        cs += [C("n3-m3", full, n=3, m=3, K=4), C("n4-m4", full, n=4, m=4, K=4, fixed=[(0, 2), (1, 2), (1, 3), (0, 1)]),
               C("n3-m3-table", full, n=3, m=3, K=4, how="table-index"), C("n4-m3-inst", full, n=4, m=3, K=4, inst=True),
               C("window-n3-m2-k3", window, n=3, m=2, K=3), C("window-n3-m3-k4", window, n=3, m=3, K=4, fixed=[(0, 2), (1, 3), (0, 3)]), C("window-inst-any", window, n=3, m=2, K=3, inst=True),
               C("window-n4-m3", window, n=4, m=3, K=5, fixed=[(0, 2), (1, 4), (2, 3)])]
    return cs

BOUNDS = ['2-4 nodes, 1-4 contacts, 2-5 distinct times; order of all starts and ends arbitrary; times arbitrary reals at least 0.05 apart; window limits arbitrary reals',
          "larger structures: 7 nodes, 8-10 contacts (nested, back to back, repeated, pauses) at 8 arbitrary times"]
OUTSIDE = ['self-contacts (an event of a node with itself)', 'windows outside the range of the events', 'distinct event times closer than 0.05']
ASSUMPTIONS = ['events tables through pandas itself, run on the symbolic values']
