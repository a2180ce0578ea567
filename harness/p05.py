"""P05: a partition stays a partition."""
from fsv.runner import Case
from .common import *
from .p06 import arb_partition

BUDGET = {"quick": 50, "thorough": 600}


def same(cx, P, lab, n, label):
    """P groups the nodes exactly as lab does; all views agree"""
    np = cx.np
    cl = P.cluster_list
    nodes = sorted(int(x) for c in cl for x in c)
    cx.check(label + ": every node in exactly one cluster", nodes == list(range(n)))
    where = {int(x): i for i, c in enumerate(cl) for x in c}
    cx.check(label + ": groups", all((where[a] == where[b]) == (lab[a] == lab[b]) for a in range(n) for b in range(n)))
    cx.check(label + ": node map", {int(a): int(b) for a, b in P.node_to_cluster_dict.items()} == where)
    cx.check(label + ": cluster count", P.get_num_clusters() == len(cl))
    cx.check(label + ": non-empty cluster count", P.get_num_clusters(non_empty=True) == len(set(lab)))
    cx.check(label + ": iteration", [sorted(map(int, x)) for x in P.iter_cluster_node_index()] == [sorted(map(int, c)) for c in cl])
    H = [[1 if i in c else 0 for c in cl] for i in range(n)]
    cx.eq(label + ": dense indicator", P.get_indicator(sparse=False), H)
    cx.eq(label + ": sparse indicator", P.get_indicator(sparse=True), H)
    try:
        P.check_integrity()
    except ValueError:
        cx.fail(label + ": integrity check rejects a valid partition")


def history(cx, n, steps):
    N = cx.mod("network_clustering")
    how = cx.choose("how", ["default", "list", "dict", "gapdict"])
    if how == "default":
        lab = list(range(n))
        P = N.Partition(n)
    else:
        lab, cl = arb_partition(cx, n)
        if how == "list":
            cl = [set(c) for c in cl]
            if cx.flag("empty"):
                cl.insert(cx.int("at", 0, len(cl)), set())
            P = N.Partition(n, cluster_list=cl, check_integrity=True)
        elif how == "dict":
            P = N.Partition(n, node_to_cluster_dict={i: lab[i] for i in range(n)})
        else:
            P = N.Partition(n, node_to_cluster_dict={i: 2 * lab[i] + 1 for i in range(n)}, check_integrity=True)
        cx.check("no empty cluster after construction", all(len(c) > 0 for c in P.cluster_list))
    same(cx, P, lab, n, "constructed")
    for s in range(steps):
        op = cx.choose(f"op{s}", ["move", "clean", "stay"])
        if op == "move":
            x = node(cx, f"node{s}", n)
            to = node(cx, f"to{s}", len(P.cluster_list))
            target = [i for i in range(n) if i in P.cluster_list[to]]
            if not target:
                lab[x] = 100 + s
            elif x not in target:
                lab[x] = lab[target[0]]
            P.move_node(x, to)
        elif op == "clean":
            P.remove_empty_clusters()
            cx.check("no empty cluster left", all(len(c) > 0 for c in P.cluster_list))
        else:
            x = node(cx, f"node{s}", n)
            P.move_node(x, P.node_to_cluster_dict[x])
        same(cx, P, lab, n, f"after {op}")


def script(cx, n, ops, start="default"):
    """a given sequence of kinds of operation, all views compared at the end"""
    N = cx.mod("network_clustering")
    lab = list(range(n))
    P = N.Partition(n)
    for s, op in enumerate(ops):
        if op == "move":
            x = node(cx, f"node{s}", n)
            to = node(cx, f"to{s}", len(P.cluster_list))
            target = [i for i in P.cluster_list[to] if i != x]
            lab[x] = lab[target[0]] if target else 100 + s
            P.move_node(x, to)
        else:
            P.remove_empty_clusters()
            cx.check("no empty cluster left", all(len(c) > 0 for c in P.cluster_list))
    same(cx, P, lab, n, "after " + " ".join(ops))


def integrity(cx, n, k):
    """check_integrity accepts exactly the partitions"""
    N = cx.mod("network_clustering")
    cl = [set(subset(cx, f"c{i}_", n)) for i in range(k)]
    ok = sorted(x for c in cl for x in c) == list(range(n))
    try:
        N.Partition(n, cluster_list=[set(c) for c in cl], check_integrity=True)
        acc = True
    except ValueError:
        acc = False
    cx.check("integrity check accepts exactly the partitions", acc == ok)
    cx.raises("both descriptions at once are refused", ValueError, N.Partition, n, cluster_list=[set(range(n))], node_to_cluster_dict={i: 0 for i in range(n)})


def cases(tier):
    q = tier == "quick"
    mods = ("network_clustering",)

    def C(name, fn, **k):
        return Case(name, fn, k, mods)
    cs = [C("history-n3", history, n=3, steps=2), C("history-n2", history, n=2, steps=3), C("integrity-n3", integrity, n=3, k=3),
          C("history-n4", history, n=4, steps=1),
          C("moves-n3", script, n=3, ops=["move", "move", "clean"]), C("moves-n4", script, n=4, ops=["move", "move", "clean"]),
          C("moves-n3-twice", script, n=3, ops=["move", "clean", "move", "clean"])]
    cs += [C("integrity-n4", integrity, n=4, k=3), C("moves-n4-3", script, n=4, ops=["move", "move", "move", "clean"]),
           C("moves-n3-thrice", script, n=3, ops=["move", "move", "clean", "move", "clean"])]
    cs += [C("history-wide", history, n=8, steps=1), C("moves-wide", script, n=8, ops=["move", "move", "clean", "move", "clean"]),
           C("integrity-wide", integrity, n=7, k=3)]
    if not q:
        cs += [C("history-n3-3", history, n=3, steps=3), C("history-n4-2", history, n=4, steps=2)]
    return cs

BOUNDS = ['2-4 nodes, any cluster list or mapping (arbitrary labels, empty clusters), up to 4 (thorough: 5) arbitrary moves and removals',
          "larger structures: 8 nodes, up to 3 moves of listed nodes"]
OUTSIDE = ['descriptions that are not partitions when integrity checking is off']
ASSUMPTIONS = []
