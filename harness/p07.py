"""P07: the measures that compare partitions are what they are named after."""
import itertools
import sys

from fsv.runner import Case
from .common import *
from .p06 import arb_partition

BUDGET = {"quick": 45, "thorough": 800}
BOUNDS = ["all pairs of partitions of up to 5 (thorough: 6) nodes, all triples of partitions of 4 nodes, in every accepted "
          "representation, with any cluster order and unused labels", "logarithms of integers as unknowns enclosed within 1e-9",
          "larger structures: 8 nodes: pairs of listed partitions"]
OUTSIDE = ["overlapping clusterings", "clusterings of different node sets", "averages over fewer than two clusterings",
           "sort_clusters with a threshold above 1 or with empty clusters"]


def as_input(cx, cl, name, forms=None):
    """the partition in one of the accepted forms, clusters in any order"""
    cl = [set(c) for c in cl]
    if len(cl) > 1 and cx.flag(name + "rev"):
        cl = cl[::-1]
    f = cx.choose(name + "form", forms or ["sets", "lists", "dict", "gaps", "Partition"])
    if f == "sets":
        return cl
    if f == "lists":
        return [sorted(c, reverse=True) for c in cl]
    if f in ("dict", "gaps"):
        k = 2 if f == "gaps" else 1
        return {n: k * i + k - 1 for i, c in enumerate(cl) for n in c}
    P = cx.mod("network_clustering").Partition
    return P(sum(map(len, cl)), cluster_list=cl)


def entropy(cx, sizes, n):
    return total([cx.log2(n, s) * s for s in sizes if s])


def info(cx, a, b):
    """n*H(a), n*H(b), n*H(a,b)"""
    n = sum(map(len, a))
    return n, entropy(cx, [len(x) for x in a], n), entropy(cx, [len(x) for x in b], n), \
        entropy(cx, [len(x & y) for x in a for y in b], n)


def eq(cx, label, x, num, den):
    """x = num/den"""
    cx.eq(label, x * den, num)


def grouping(cl):
    return sorted(sorted(c) for c in cl)


def pairs(cx, n, measure, forms=None, fast=True):
    NC = cx.mod("network_clustering")
    if not fast:
        old, NC.USE_CYTHON = NC.USE_CYTHON, False
    try:
        _, a = arb_partition(cx, n, "a")
        _, b = arb_partition(cx, n, "b")
        A, B = as_input(cx, a, "A", forms), as_input(cx, b, "B", forms)
        same = grouping(a) == grouping(b)
        N, Ha, Hb, Hab = info(cx, a, b)
        if measure == "nvi":
            x = NC.norm_var_information(A, B)
            eq(cx, "variation of information", x, 2 * Hab - Ha - Hb, N * cx.log2(N) if N > 1 else 1)
            y = NC.norm_var_information(B, A)
            cx.eq("symmetric", x, y)
        elif measure == "nmi":
            x = NC.norm_mutual_information(A, B)
            if len(a) == len(b) == 1:
                cx.eq("two single clusters agree", x, 1.0)
            else:
                mx = cx.ite(Ha > Hb, Ha, Hb)
                eq(cx, "mutual information", x, Ha + Hb - Hab, mx)
            cx.eq("symmetric", x, NC.norm_mutual_information(B, A))
        else:
            prs = list(itertools.combinations(range(n), 2))

            def tog(cl, p):
                return any(p[0] in c and p[1] in c for c in cl)
            u = sum(1 for p in prs if tog(a, p) or tog(b, p))
            d = sum(1 for p in prs if tog(a, p) != tog(b, p))
            x = NC.jaccard_distance(A, B)
            eq(cx, "Jaccard distance", x, d, u) if u else cx.eq("no pair together", x, 0.0)
            cx.eq("symmetric", x, NC.jaccard_distance(B, A))
        cx.holds("at least 0", lambda eps: cx.leq(-x, eps))
        cx.holds("at most 1", lambda eps: cx.leq(x, 1 + eps))
        one = 1.0 if measure == "nmi" else 0.0
        if same:
            cx.eq("equal partitions", x, one)
        elif measure == "nmi":
            cx.holds("different partitions", lambda eps: cx.leq(x, 0.999 - eps))
        else:
            cx.holds("different partitions", lambda eps: cx.leq(0.001 + eps, x))
        # arguments unchanged
        for X, cl in ((A, a), (B, b)):
            if isinstance(X, list):
                cx.check("arguments unchanged", grouping(X) == grouping(cl))
    finally:
        if not fast:
            NC.USE_CYTHON = old


def given_n(cx, n):
    """options used internally: number of nodes given, lists only"""
    NC = cx.mod("network_clustering")
    _, a = arb_partition(cx, n, "a")
    _, b = arb_partition(cx, n, "b")
    A, B = as_input(cx, a, "A", ["sets", "lists"]), as_input(cx, b, "B", ["sets", "lists"])
    N, Ha, Hb, Hab = info(cx, a, b)
    eq(cx, "variation of information", NC.norm_var_information(A, B, N=n, use_clust_list=True), 2 * Hab - Ha - Hb,
       N * cx.log2(N))


def triangle(cx, n):
    NC = cx.mod("network_clustering")
    ps = [arb_partition(cx, n, x)[1] for x in "abc"]
    d = lambda i, j: NC.norm_var_information([set(c) for c in ps[i]], [set(c) for c in ps[j]])
    ab, bc, ac = d(0, 1), d(1, 2), d(0, 2)
    cx.holds("triangle inequality", lambda eps: cx.leq(ac, ab + bc + eps))


def average(cx, n, k):
    NC = cx.mod("network_clustering")
    ps = [arb_partition(cx, n, "abcd"[i])[1] for i in range(k)]
    prs = list(itertools.combinations(range(k), 2))
    m = cx.choose("samples", [None] + list(range(1, len(prs) + 2)))
    cx.script_rng(1)
    vs = []
    for i, j in prs:
        N, Ha, Hb, Hab = info(cx, ps[i], ps[j])
        vs.append((2 * Hab - Ha - Hb) / (N * cx.log2(N)))
    x = NC.avg_norm_var_information([[set(c) for c in p] for p in ps], num_samples=m)
    q = len(prs) if m is None else min(m, len(prs))
    cx.holds("average over the sampled pairs", lambda eps: cx.Or(*[
        cx.And(cx.leq(q * x - total([vs[i] for i in s]), eps), cx.leq(total([vs[i] for i in s]) - q * x, eps))
        for s in itertools.combinations(range(len(prs)), q)]))


class TooLong(Exception):
    pass


def bounded(cx, fn, *a, **k):
    """fn(*a, **k), within a number of executed lines no terminating run on these sizes comes near"""
    name = getattr(getattr(fn, "__code__", None), "co_filename", None)
    left = [20000]

    def line(frame, ev, arg):
        if ev == "line":
            left[0] -= 1
            if left[0] < 0:
                raise TooLong
        return line
    old = sys.gettrace()
    sys.settrace(lambda f, e, g: line if f.f_code.co_filename == name else None)
    try:
        return fn(*a, **k)
    except TooLong:
        sys.settrace(old)
        cx.check("the sorting ends", False)
        raise
    finally:
        sys.settrace(old)


def sorting(cx, n):
    NC = cx.mod("network_clustering")
    _, a = arb_partition(cx, n, "a")
    _, b = arb_partition(cx, n, "b")
    kw = {}
    if cx.flag("threshold"):
        kw["thresh_ratio"] = cx.choose("ratio", [0.0, 0.5, 1.0])
    if cx.flag("foreign"):
        b = [{x + n - 1 for x in c} for c in b]
    A = [set(c) for c in a]
    if cx.flag("rev"):
        A = A[::-1]
    out = bounded(cx, NC.sort_clusters, A, [set(c) for c in b], **kw)
    cx.check("the same clusters in another order", sorted(map(sorted, out)) == sorted(map(sorted, A)) and len(out) == len(A))
    A2 = [set(c) for c in a]
    if cx.flag("rot"):
        A2 = A2[1:] + A2[:1]
    if kw.get("thresh_ratio", 1.0) > 0:
        # a ratio of 0 makes every cluster a match of every model cluster
        cx.check("clusters of the model come in the order of the model", bounded(cx, NC.sort_clusters, A2, [set(c) for c in a], **kw) == a)


def cases(tier):
    q = tier == "quick"
    mods = ("network_clustering",)

    def C(name, fn, **k):
        return Case(name, fn, k, mods)
    S = ["sets"]
    cs = []
    for m in ("nvi", "nmi"):
        cs += [C(f"{m}-1", pairs, n=1, measure=m), C(f"{m}-2", pairs, n=2, measure=m),
               C(f"{m}-3", pairs, n=3, measure=m, forms=["sets", "dict", "gaps", "Partition"]),
               C(f"{m}-4", pairs, n=4, measure=m, forms=S),
               C(f"{m}-3-fallback", pairs, n=3, measure=m, forms=["sets", "gaps"], fast=False)]
    js = ["sets", "dict", "gaps"]
    cs += [C("jaccard-3", pairs, n=3, measure="jaccard", forms=js), C("jaccard-4", pairs, n=4, measure="jaccard", forms=["lists"]),
           C("given-3", given_n, n=3), C("triangle-3", triangle, n=3), C("average-3", average, n=3, k=3),
           C("sorting-3", sorting, n=3), C("sorting-4", sorting, n=4)]
    cs += [C("nvi-wide", pairs, n=8, measure="nvi", forms=["sets", "gaps"]), C("nmi-wide", pairs, n=8, measure="nmi", forms=S),
           C("nvi-wide-fallback", pairs, n=7, measure="nvi", forms=S, fast=False), C("jaccard-wide", pairs, n=8, measure="jaccard", forms=S),
           C("sorting-wide", sorting, n=7)]
    if not q:
        for m in ("nvi", "nmi"):
            cs += [C(f"{m}-4-forms", pairs, n=4, measure=m), C(f"{m}-5", pairs, n=5, measure=m, forms=S),
                   C(f"{m}-6", pairs, n=6, measure=m, forms=S), C(f"{m}-4-fallback", pairs, n=4, measure=m, forms=S, fast=False)]
        cs += [C("jaccard-5", pairs, n=5, measure="jaccard", forms=S), C("triangle-4", triangle, n=4),
               C("average-4", average, n=4, k=3), C("average-3-4", average, n=3, k=4), C("sorting-5", sorting, n=5), C("average-wide", average, n=7, k=3)]
    return cs
