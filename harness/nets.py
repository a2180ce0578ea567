"""Arbitrary small temporal networks for the harnesses."""
from .common import *

PAIRS = {2: [(0, 1)], 3: [(0, 1), (1, 2), (0, 2)], 4: [(0, 1), (1, 2), (2, 3), (0, 2), (1, 3), (0, 3)]}


# seven nodes and eight times: contacts within contacts with common starts and ends; pauses and separate groups; one pair again and
# again, overlapping and back to back; one node meeting all others at once and one of them in a long chain of overlaps
MANY = [[(0, 1, 0, 7), (1, 2, 1, 3), (3, 2, 2, 5), (3, 4, 2, 4), (2, 1, 4, 6), (5, 6, 1, 2), (6, 5, 2, 3), (4, 6, 5, 7), (0, 3, 3, 5)],
        [(0, 1, 0, 1), (2, 3, 0, 2), (4, 5, 3, 4), (5, 6, 3, 5), (6, 4, 4, 5), (1, 0, 6, 7), (2, 0, 6, 7), (3, 1, 6, 7)],
        [(0, 1, 0, 4), (1, 0, 1, 2), (0, 1, 3, 5), (2, 3, 0, 1), (3, 2, 1, 2), (2, 3, 2, 3), (4, 5, 0, 7), (5, 4, 2, 6), (6, 0, 5, 6),
         (0, 1, 6, 7)],
        [(0, 1, 0, 2), (0, 2, 0, 3), (0, 3, 0, 3), (0, 4, 0, 4), (5, 0, 0, 4), (0, 6, 0, 7), (1, 0, 1, 3), (0, 1, 2, 4), (1, 0, 3, 5),
         (0, 1, 4, 6), (1, 0, 5, 7)]]


def timeline(cx, K, name="t", lo=-2, hi=2):
    """K increasing, otherwise arbitrary times"""
    t = [cx.real(name + "0", lo, hi)]
    for i in range(1, K):
        g = cx.real(f"{name}gap{i}", 0, 4)
        cx.assume(g > 0.05)
        t.append(t[-1] + g)
    return t


def some_events(cx, n, m, K, orient=True, first=True, fixed=None):
    """m contacts (source, target, start index, end index): arbitrary pairs and intervals.
    first: the first contact is between nodes 0 and 1 (nodes are interchangeable)"""
    ev = []
    if n >= WIDE:
        return list(cx.choose("contacts", MANY))
    for e in range(m):
        ps = [PAIRS[n][0]] if (e == 0 and first) else PAIRS[n]
        u, v = cx.choose(f"pair{e}", ps)
        if orient and e > 0 and cx.flag(f"flip{e}"):
            u, v = v, u
        if fixed:
            s, f = fixed[e]
        else:
            s = cx.int(f"start{e}", 0, K - 2)
            f = cx.int(f"end{e}", s + 1, K - 1)
        ev.append((u, v, s, f))
    return ev


def network(cx, ev, t, how="list", cls="ContTempNetwork", **kw):
    """-> network, {label: node index}"""
    T = cx.mod("temporal_network")
    C = getattr(T, cls)
    nodes = sorted({x for e in ev for x in e[:2]})
    idx = {x: i for i, x in enumerate(nodes)}
    src, dst = [e[0] for e in ev], [e[1] for e in ev]
    st, en = [t[e[2]] for e in ev], [t[e[3]] for e in ev]
    if how == "list":
        if cls == "ContTempInstNetwork":
            return C(source_nodes=src, target_nodes=dst, starting_times=st, **kw), idx
        return C(source_nodes=src, target_nodes=dst, starting_times=st, ending_times=en, **kw), idx
    import pandas as pd
    df = pd.DataFrame({"source_nodes": src, "target_nodes": dst, "starting_times": st, "ending_times": en})
    if how == "table-index":
        df.index = range(5, 5 + len(ev))
    return C(events_table=df, **kw), idx


def used_times(ev):
    return sorted({x for e in ev for x in e[2:4]})


def adjacency(ev, idx, k, inst=False):
    """contacts going on from time index k on"""
    n = len(idx)
    A = [[0] * n for _ in range(n)]
    for u, v, s, f in ev:
        if (s == k) if inst else (s <= k < f):
            A[idx[u]][idx[v]] = A[idx[v]][idx[u]] = 1
    return A


def laplacian(A):
    n = len(A)
    L = []
    for i in range(n):
        d = sum(A[i])
        L.append([0.0] * n if d == 0 else [(1.0 if i == j else 0.0) - A[i][j] / d for j in range(n)])
    return L


def components(A):
    n = len(A)
    lab = list(range(n))
    ch = True
    while ch:
        ch = False
        for i in range(n):
            for j in range(n):
                if A[i][j] and lab[i] != lab[j]:
                    lab = [min(lab[i], lab[j]) if x in (lab[i], lab[j]) else x for x in lab]
                    ch = True
    return lab


def window_time(cx, name, t, none=True):
    """an arbitrary time (or None): before, at or after any of the times
    -> (value, index of the closest time not later, or 0)"""
    K = len(t)
    opts = (["none"] if none else []) + [("at", i) for i in range(K)] + [("after", i) for i in range(K)] + ["before"]
    o = cx.choose(name, opts)
    if o == "none":
        return None, None
    if o == "before":
        d = cx.real(name + "d", 0, 2)
        cx.assume(d > 0.01)
        return t[0] - d, 0
    kind, i = o
    if kind == "at":
        return t[i], i
    d = cx.real(name + "d", 0, 4)
    cx.assume(d > 0.01)
    if i + 1 < K:
        cx.assume(d < t[i + 1] - t[i] - 0.01)
    return t[i] + d, i
