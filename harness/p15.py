"""P15: recomputing with other parameters gives the results of those parameters."""
from fsv.runner import Case
from .common import *
from .nets import *
from .p09 import neg_scaled, lin_oracle

BUDGET = {"quick": 75, "thorough": 800}
BOUNDS = ["2-3 nodes, 2 contacts, 3-4 event times (fixed or arbitrary reals); two arbitrary rates", "histories of up to 3 "
          "(thorough: 4) computations with arbitrary window, rate, format, step length option, stationarity time, "
          "direction of time, intermediate results"]
OUTSIDE = ["results of a network loaded from a file recomputed with other options", "private attributes changed by the "
           "caller", "the difference matrices written by save_inter_T"]


F = False


class H:
    """reference: what the last call for every stored result asked for"""

    def __init__(self, cx, ev, t, cls="ContTempNetwork", lams=(0.5, 2.0), ts=(10, 3.0)):
        self.cx, self.ev, self.t = cx, ev, t
        self.net, self.idx = network(cx, ev, t, cls=cls)
        self.ks = used_times(ev)
        self.adj = [adjacency(ev, self.idx, k) for k in self.ks[:-1]]
        self.ut = [t[k] for k in self.ks]
        self.lams, self.ts = lams, ts
        self.win = None
        self.inter, self.lin, self.T, self.Tl = {}, {}, {}, {}
        self.k = 0
        self.used = False
        self.every = False

    def modes(self, name, opts):
        """option combinations: a covering selection, or all of them"""
        if self.every:
            return tuple(self.cx.flag(f"{name}{i}") for i in range(len(opts[0])))
        return self.cx.choose(name, opts)

    def steps(self, fix):
        i, j = self.win
        if i == j:
            n = len(self.idx)
            return [([[0] * n for _ in range(n)], 0.0)]
        return [(self.adj[k], 1.0 if fix else self.ut[k + 1] - self.ut[k]) for k in range(i, j)]

    def window(self, name):
        cx = self.cx
        a = cx.int(f"{name}from", 0, len(self.ut) - 2)
        b = cx.int(f"{name}to", a + 1, len(self.ut) - 1)
        return a, b

    def op(self, o):
        cx, net = self.cx, self.net
        self.k += 1
        k = self.k
        if o == "window":
            a, b = self.window(f"w{k}")
            net.compute_laplacian_matrices(t_start=self.ut[a], t_stop=self.ut[b])
            self.win = (a, b)
            # results of the previous window are gone
            for x in (self.inter, self.lin, self.T, self.Tl):
                x.clear()
            self.all(o)
            return
        # the rates are interchangeable
        li = cx.int(f"lamda{k}", 0, len(self.lams) - 1) if self.used else 0
        self.used = True
        la = self.lams[li]
        if self.win is None:
            self.win = (0, len(self.ut) - 1)
        if o == "inter":
            fix, st, de = self.modes(f"mode{k}", [(F, F, True), (True, F, True), (F, True, True), (F, True, F)])
            net.compute_inter_transition_matrices(lamda=la, fix_tau_k=fix, use_sparse_stoch=st, dense_expm=de)
            if self.inter.get(li, (fix, st))[:2] != (fix, st):
                self.T.pop(li, None)
            self.inter[li] = (fix, st)
            cx.check("inter present", la in net.inter_T)
        elif o == "lin":
            fix, st = self.modes(f"mode{k}", [(F, F), (True, F), (F, True)])
            tsi = cx.int(f"ts{k}", 0, len(self.ts) - 1)
            net.compute_lin_inter_transition_matrices(lamda=la, t_s=self.ts[tsi], fix_tau_k=fix, use_sparse_stoch=st)
            if self.lin.get((li, tsi), (fix, st)) != (fix, st):
                self.Tl.pop((li, tsi), None)
            self.lin[li, tsi] = (fix, st)
            cx.check("linear present", la in net.inter_T_lin and self.ts[tsi] in net.inter_T_lin[la])
        elif o == "T":
            rev, sv, fc = self.modes(f"mode{k}", [(F, True, F), (True, True, F), (True, F, F), (F, F, True)])
            if li not in self.inter:
                cx.raises("transition matrices need the inter-event ones", Exception,
                          lambda: net.compute_transition_matrices(lamda=la))
            else:
                net.compute_transition_matrices(lamda=la, reverse_time=rev, save_intermediate=sv, force_csr=fc)
                self.T[li] = (rev, sv, fc)
                cx.check("T present", la in net.T)
        elif o == "Tlin":
            rev, sv = self.modes(f"mode{k}", [(F, True), (True, True), (F, F)])
            tsi = cx.int(f"ts{k}", 0, len(self.ts) - 1)
            if (li, tsi) not in self.lin:
                cx.raises("linear transition matrices need the inter-event ones", Exception,
                          lambda: net.compute_lin_transition_matrices(lamda=la, t_s=self.ts[tsi]))
            else:
                net.compute_lin_transition_matrices(lamda=la, t_s=self.ts[tsi], reverse_time=rev, save_intermediate=sv)
                self.Tl[li, tsi] = (rev, sv)
                cx.check("T_lin present", la in net.T_lin and self.ts[tsi] in net.T_lin[la])
        self.all(o)

    # -- oracles
    def o_inter(self, li):
        fix, st = self.inter[li]
        return [self.cx.dense(self.cx.expm(neg_scaled(laplacian(A), tau * self.lams[li]))) if any(map(any, A)) else
                d_eye(len(A)) for A, tau in self.steps(fix)]

    def o_lin(self, li, tsi):
        fix, st = self.lin[li, tsi]
        return [lin_oracle(self.cx, A, tau * self.lams[li], self.ts[tsi]) for A, tau in self.steps(fix)]

    def products(self, Ms, rev):
        cur, out = None, []
        for M in (Ms[::-1] if rev else Ms):
            cur = [list(r) for r in M] if cur is None else d_mul(cur, M)
            out.append(cur)
        return out

    def cmp(self, label, X, Ms, stoch=None):
        cx = self.cx
        cx.check(label + ": number", len(X) == len(Ms), f"{len(X)} want {len(Ms)}")
        for x, M in zip(X, Ms):
            if stoch is not None:
                cx.check(label + ": format", (type(x).__name__ == "SparseStochMat") == stoch)
            cx.eq(label, x, M)

    def all(self, o):
        """everything the network holds is what was last asked for, for the current window"""
        cx, net = self.cx, self.net
        cx.check("Laplacians of the window", not hasattr(net, "laplacians") or
                 len(net.laplacians) == self.win[1] - self.win[0])
        for li, la in enumerate(self.lams):
            if la in getattr(net, "inter_T", {}):
                cx.check(f"{o}: stored matrices belong to the current parameters", li in self.inter)
                st = self.inter[li][1]
                self.cmp("inter-event matrices", net.inter_T[la], self.o_inter(li), st)
            if la in getattr(net, "T", {}):
                cx.check(f"{o}: stored products belong to the current parameters", li in self.T)
                rev, sv, fc = self.T[li]
                P = self.products(self.o_inter(li), rev)
                T = net.T[la]
                cx.check("with or without intermediate results", isinstance(T, list) == sv)
                self.cmp("transition matrices", T if sv else [T], P if sv else P[-1:], self.inter[li][1] and not fc)
            for tsi, ts in enumerate(self.ts):
                if ts in getattr(net, "inter_T_lin", {}).get(la, {}):
                    cx.check(f"{o}: stored linear matrices belong to the current parameters", (li, tsi) in self.lin)
                    self.cmp("linear matrices", net.inter_T_lin[la][ts], self.o_lin(li, tsi), self.lin[li, tsi][1])
                if ts in getattr(net, "T_lin", {}).get(la, {}):
                    cx.check(f"{o}: stored linear products belong to the current parameters", (li, tsi) in self.Tl)
                    rev, sv = self.Tl[li, tsi]
                    P = self.products(self.o_lin(li, tsi), rev)
                    T = net.T_lin[la][ts]
                    cx.check("with or without intermediate linear results", isinstance(T, list) == sv)
                    self.cmp("linear transition matrices", T if sv else [T], P if sv else P[-1:])


EV3 = [(0, 1, 0, 2), (1, 2, 1, 3)]
EV2 = [(0, 1, 0, 1), (0, 1, 2, 3)]
FIX = [0.0, 1.0, 2.5, 3.5]


def make(cx, net, sym):
    ev = EV3 if net == 3 else EV2
    if sym:
        t = timeline(cx, 4)
        a = cx.real("lamda_a", 0, 4)
        b = cx.real("lamda_b", 0, 4)
        cx.assume(cx.And(a > 0.1, b > a + 0.1))
        return H(cx, ev, t, lams=(a, b))
    return H(cx, ev, FIX)


def chain(cx, ops, net=2, sym=False, every=False):
    h = make(cx, net, sym)
    h.every = every
    for o in ops:
        if o == "?":
            o = cx.choose(f"what{h.k}", ["window", "inter", "lin", "T", "Tlin"])
        h.op(o)


def cases(tier):
    q = tier == "quick"
    mods = ("temporal_network",)

    def C(name, ops, **k):
        return Case(name, chain, dict(ops=ops, **k), mods, keepz=True)
    cs = [C("inter-inter-T", ["inter", "inter", "T"]), C("inter-T-inter", ["inter", "T", "inter"]),
          C("inter-T-T", ["inter", "T", "T"]), C("inter-window-T", ["inter", "window", "T"]),
          C("window-inter-window", ["window", "inter", "window", "inter"]),
          C("inter-T-window", ["inter", "T", "window"]),
          C("lin-lin-T", ["lin", "lin", "Tlin"]), C("lin-T-lin", ["lin", "Tlin", "lin"]), C("lin-T-T", ["lin", "Tlin", "Tlin"]),
          C("lin-window-lin", ["lin", "window", "lin"]), C("lin-T-window", ["lin", "Tlin", "window"]),
          C("inter-lin", ["inter", "lin"]), C("window-window", ["window", "window", "inter"], net=3),
          C("n3-inter-T-T", ["inter", "T", "T"], net=3), C("n3-lin-lin", ["lin", "lin"], net=3),
          C("any-times-inter", ["window", "inter", "window", "inter"], sym=True),
          C("any-times-lin", ["lin", "window", "lin"], sym=True),
          C("any-two", ["?", "?"])]
    if not q:
        cs += [C("any-three", ["?", "?", "?"]), C("inter-T-window-inter-T", ["inter", "T", "window", "inter", "T"]),
               C("lin-T-window-lin-T", ["lin", "Tlin", "window", "lin", "Tlin"]),
               C("n3-any-three", ["?", "?", "?"], net=3),
               C("any-times-T", ["inter", "T", "window", "inter", "T"], sym=True),
               C("all-inter-inter-T", ["inter", "inter", "T"], every=True),
               C("all-inter-T-T", ["inter", "T", "T"], every=True), C("all-inter-T-inter", ["inter", "T", "inter"], every=True),
               C("all-lin-lin-T", ["lin", "lin", "Tlin"], every=True), C("all-lin-T-lin", ["lin", "Tlin", "lin"], every=True)]
    return cs
