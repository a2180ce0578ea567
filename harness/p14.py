"""P14: the analysis pipeline runs its steps in order, on the current parameters."""
import warnings

from fsv.runner import Case
from .common import *
from .nets import *
from .p09 import lin_oracle, neg_scaled
from .p11 import oracle

BUDGET = {"quick": 75, "thorough": 800}
BOUNDS = ["FlowStability: any pipeline stage reached with any of the listed parameters, followed by up to 2 (thorough: 3) "
          "arbitrary operations", "two networks of 2 and 3 nodes; window limits arbitrary reals; time scales arbitrary "
          "positive reals (single, list, iterator)", "generic state machine: 3 states, 2 properties, 2 methods with "
          "arbitrary registration, 3 arbitrary operations"]
OUTSIDE = ["windows without any step (flow clustering of nothing)", "time_direction=None and time_scale=None count as "
           "not set", "help texts beyond the named next step"]

NETS = {"A": ([(0, 1, 0, 2), (1, 2, 1, 3)], [0.0, 1.0, 2.5, 3.5]),
        "B": ([(0, 1, 0, 1), (0, 1, 2, 3)], [0.5, 1.0, 3.0, 4.0])}
STEPS = ["set_temporal_network", "compute_laplacian_matrices", "compute_inter_transition_matrices",
         "set_flow_clustering", "find_louvain_clustering"]


class Net:
    def __init__(self, cx, key):
        self.ev, self.t = NETS[key]
        self.net, self.idx = network(cx, self.ev, self.t)
        self.kwargs = dict(source_nodes=[e[0] for e in self.ev], target_nodes=[e[1] for e in self.ev],
                           starting_times=[self.t[e[2]] for e in self.ev], ending_times=[self.t[e[3]] for e in self.ev])
        ks = used_times(self.ev)
        self.ut = [self.t[k] for k in ks]
        self.adj = [adjacency(self.ev, self.idx, k) for k in ks[:-1]]


class Model:
    """what the documentation promises"""

    def __init__(self, cx):
        self.cx = cx
        self.net = None
        self.a = self.b = None
        self.scales, self.scale_set = [None], False
        self.dir, self.dir_set = 0, False
        self.stage = 0
        self.lin = None

    def back(self, s):
        self.stage = min(self.stage, s)

    def window(self):
        """indices of the window"""
        ut = self.net.ut

        def pos(x, none):
            if x is None:
                return none
            k = 0
            for i, u in enumerate(ut):
                if self.cx.truth(u <= x):
                    k = i
            return k
        return pos(self.a, 0), pos(self.b, len(ut) - 1)

    def missing(self, stage):
        m = set()
        if stage >= 1 and self.net is None:
            m.add("temporal_network")
        if stage >= 2 and not self.scale_set:
            m.add("time_scale")
        if stage >= 3 and not self.dir_set:
            m.add("time_direction")
        return m

    def allowed(self, k):
        """may step k (1: Laplacians .. 4: Louvain) be run?"""
        return self.stage >= k and not self.missing(k)


class Machine:
    def __init__(self, cx, check_results=True, lin=True):
        self.cx = cx
        self.F = cx.mod("flow_stability")
        self.fs = self.F.FlowStability()
        self.m = Model(cx)
        self.nets = {}
        self.results = check_results
        self.k = 0
        self.linonly = lin
        self.fixed_scale = False

    def getnet(self, key):
        # each assignment is another object
        return Net(self.cx, key)

    def state(self, label):
        cx, fs, m = self.cx, self.fs, self.m
        cx.check(label + ": state", fs.state.current.value == m.stage, f"{fs.state.current} want {m.stage}")
        todo, nxt = fs.state.next
        want = m.missing(m.stage)
        got = set(todo) - {"flow_clustering_forward", "flow_clustering_backward"} if m.stage < 4 else set(todo)
        cx.check(label + ": missing parameters", got == want, f"{got} want {want}")
        if m.stage < 5:
            cx.check(label + ": next step", nxt == STEPS[m.stage], f"{nxt}")

    def step(self, name, k, **kw):
        """a computing step: runs when allowed, else warns and does nothing"""
        cx, fs, m = self.cx, self.fs, self.m
        ok = m.allowed(k)
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            if not ok:
                before = self.snapshot()
            r = getattr(fs, name)(**kw)
            n = [x for x in w if "can only be run" in str(x.message) or "need to set" in str(x.message)]
        if not ok:
            cx.check(name + " refused", r is None)
            cx.check(name + ": a warning tells why", len(n) >= 1)
            cx.check(name + " refused: nothing computed", self.snapshot() == before)
            return False
        cx.check(name + " runs", r is fs)
        cx.check(name + ": no warning", len(n) == 0)
        m.stage = k + 1
        return True

    def snapshot(self):
        fs = self.fs
        net = fs.temporal_network
        return (fs.state.current.value,
                [(a, id(getattr(net, a))) for a in ("laplacians", "inter_T", "inter_T_lin") if hasattr(net, a)],
                [(id(k), id(v)) for k, v in fs.flow_clustering_forward.items()],
                [(id(k), id(v)) for k, v in fs.flow_clustering_backward.items()])

    # -- operations
    def op(self, o):
        cx, fs, m = self.cx, self.fs, self.m
        self.k += 1
        k = self.k
        if o == "network":
            x = self.getnet(cx.choose(f"net{k}", ["A", "B"]))
            if cx.flag(f"kwargs{k}"):
                r = fs.set_temporal_network(**x.kwargs)
                cx.check("set_temporal_network returns the analysis", r is fs)
            else:
                fs.temporal_network = x.net
            m.net, m.stage = x, 1
            cx.check("the network is set", fs.temporal_network.num_events == len(x.ev))
        elif o == "no network":
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                how = cx.int(f"how{k}", 0, 2)
                if how == 0:
                    fs.temporal_network = None
                    m.back(1)
                elif how == 1:
                    fs.temporal_network = "network"
                    m.back(1)
                else:
                    fs.set_temporal_network()
                    m.stage = 1
            m.net = None
            cx.check("no network", fs.temporal_network is None)
        elif o in ("t_start", "t_stop"):
            v = None if cx.flag(f"none{k}") else cx.real(f"{o}{k}", -1, 5)
            setattr(fs, o, v)
            if o == "t_start":
                m.a = v
            else:
                m.b = v
            m.back(1)
            cx.check(o + " is kept", getattr(fs, o) is v)
        elif o == "scale":
            how = cx.choose(f"how{k}", ["single", "list", "iterator", "method", "unset", "bad", "type"])
            old = list(fs.time_scale)
            if how in ("bad", "type"):
                bad = cx.real(f"bad{k}", -4, 0)
                v = {"bad": [1.0, bad], "type": "1"}[how]

                def f():
                    fs.time_scale = v
                cx.raises("invalid time scale refused", (ValueError, TypeError), f)
                cx.check("the time scale is kept", list(fs.time_scale) == old)
                return
            if self.fixed_scale:
                a = cx.choose(f"scale{k}", [0.3, 5.0])
            else:
                a = cx.real(f"scale{k}", 0, 20)
                cx.assume(a > 0.1)
            if how == "unset":
                fs.set_time_scale()
                m.scales, m.scale_set = [None], False
                m.back(2)
                return
            if how == "single":
                fs.time_scale = a
                m.scales = [a]
            elif how == "method":
                fs.set_time_scale(a)
                m.scales = [a]
            else:
                m.scales = [a, 2 * a]
                fs.time_scale = list(m.scales) if how == "list" else (x for x in list(m.scales))
            m.scale_set = True
            m.back(2)
            for q in range(2):
                cx.eq("time scales", list(fs.time_scale), m.scales)
            cx.eq("rates", list(fs.lamda), [1 / x for x in m.scales])
        elif o == "direction":
            if cx.flag(f"bad{k}"):
                def f():
                    fs.time_direction = 2
                old = fs.time_direction
                cx.raises("invalid direction refused", AssertionError, f)
                cx.check("the direction is kept", fs.time_direction == old)
                return
            v = cx.int(f"dir{k}", -1, 1)
            fs.time_direction = v
            m.dir, m.dir_set = v, True
            m.back(3)
        elif o == "laplacians":
            if m.net is not None:
                i, j = m.window()
                cx.assume(i < j)
            if self.step("compute_laplacian_matrices", 1) and self.results:
                net = fs.temporal_network
                i, j = m.window()
                m.win = i, j
                cx.check("Laplacians of the window", len(net.laplacians) == j - i)
                for L, A in zip(net.laplacians, m.net.adj[i:j]):
                    cx.eq("Laplacian", L, laplacian(A))
        elif o == "inter":
            lin = True if self.linonly else cx.flag(f"linear{k}")
            if self.step("compute_inter_transition_matrices", 2, linear_approx=lin):
                m.lin = lin
                if self.results:
                    for s in m.scales:
                        d = fs.temporal_network.inter_T_lin if lin else fs.temporal_network.inter_T
                        X = d[1 / s][10] if lin else d[1 / s]
                        for T, M in zip(X, self.mats(s)):
                            cx.eq("inter-event transition matrix", T, M)
        elif o == "clustering":
            if self.step("set_flow_clustering", 3) and self.results:
                self.clusterings()
        elif o == "louvain":
            if self.step("find_louvain_clustering", 4, rnd_seed=1) and self.results:
                self.partitions()
        self.state(o)

    def mats(self, s):
        m, cx = self.m, self.cx
        i, j = m.win
        out = []
        for k in range(i, j):
            tau = m.net.ut[k + 1] - m.net.ut[k]
            if m.lin:
                out.append(lin_oracle(cx, m.net.adj[k], tau / s, 10))
            else:
                out.append(cx.dense(cx.expm(neg_scaled(laplacian(m.net.adj[k]), tau / s))))
        return out

    def each(self):
        fs, m = self.fs, self.m
        for s in m.scales:
            for d, c in ((-1, fs.flow_clustering_backward), (1, fs.flow_clustering_forward)):
                yield s, d, c[s], m.dir in (0, d)

    def clusterings(self):
        cx, m = self.cx, self.m
        i, j = m.win
        n = len(m.net.idx)
        for s, d, c, on in self.each():
            if not on:
                cx.check("no clustering for the other direction", c is None)
                continue
            cx.check("direction of time", bool(c.reversed_time) == (d < 0))
            ut = m.net.ut[i:j + 1]
            Ms = self.mats(s)
            if d < 0:
                Ms, ut = Ms[::-1], [-x for x in ut[::-1]]
            cx.check("one integral", len(c.I_list) == 1)
            I = c.I_list[0]
            cx.eq("integral of the window", I.toarray() if hasattr(I, "toarray") else I,
                  oracle(cx, Ms, [1.0 / n] * n, ut, j - i))

    def partitions(self):
        cx, m = self.cx, self.m
        n = len(m.net.idx)
        for s, d, c, on in self.each():
            if on:
                cl = c.partition[0].cluster_list
                cx.check("a partition of the nodes", sorted(x for q in cl for x in q) == list(range(n)))


OPS = ["network", "no network", "t_start", "t_stop", "scale", "direction", "laplacians", "inter", "clustering", "louvain"]


def reach(cx, M, stage, key, scale=None):
    """bring the analysis to a stage"""
    fs, m = M.fs, M.m
    if stage >= 1 or key:
        x = M.getnet(key)
        fs.temporal_network = x.net
        m.net, m.stage = x, 1
    fs.time_scale = 1.25
    m.scales, m.scale_set = [1.25], True
    fs.time_direction = 0
    m.dir, m.dir_set = 0, True
    M.state("parameters")
    for k, o in enumerate(["laplacians", "inter", "clustering", "louvain"]):
        if stage >= k + 2:
            M.op(o)


def history(cx, first, ops, stage=None, key="A", results=True, then=None, lin=True):
    cx.script_rng(0)
    M = Machine(cx, results, lin)
    if stage == "fresh":
        M.state("start")
    else:
        s = cx.int("stage", 1, 5) if stage is None else stage
        reach(cx, M, s, key)
    M.op(first)
    for q in range(ops):
        M.op(cx.choose(f"op{q}", then or OPS))


def redo(cx, what, lin=True, louvain=True, key="A"):
    """everything, a change, everything that depends on it: the results are those of the new parameters"""
    cx.script_rng(0)
    M = Machine(cx, True, lin)
    M.fixed_scale = louvain
    reach(cx, M, 5 if louvain else 4, key)
    for o in what:
        M.op(o)
    for o in ["laplacians", "inter", "clustering"] + (["louvain"] if louvain else []):
        M.op(o)


def constructor(cx):
    """parameters given at construction are as good as parameters set later"""
    F = cx.mod("flow_stability")
    x = Net(cx, cx.choose("net", ["A", "B"]))
    kw = {}
    giv = cx.flag("give_net")
    if giv:
        kw["temporal_network"] = x.net
    s = cx.real("scale", 0, 20)
    cx.assume(s > 0.1)
    gs = cx.flag("give_scale")
    if gs:
        kw["time_scale"] = s
    a = cx.real("from", -1, 5)
    ga = cx.flag("give_start")
    if ga:
        kw["t_start"] = a
    gd = cx.flag("give_dir")
    if gd:
        kw["time_direction"] = cx.int("dir", -1, 1)
    fs = F.FlowStability(**kw)
    M = Machine(cx)
    M.fs = fs
    m = M.m
    m.net = x if giv else None
    m.stage = 1 if giv else 0
    m.scales, m.scale_set = ([s], True) if gs else ([None], False)
    m.dir, m.dir_set = kw.get("time_direction", 0), gd
    m.a = a if ga else None
    M.state("constructed")
    cx.check("start", fs.t_start is (a if ga else None))
    cx.check("direction", fs.time_direction == m.dir)
    cx.eq("scale", list(fs.time_scale), m.scales) if gs else cx.check("default scale", list(fs.time_scale) == [None])
    for o in ["laplacians", "inter", "clustering"]:
        M.op(o)


def inline(cx):
    """rates given to compute_inter_transition_matrices become the time scales of the analysis"""
    M = Machine(cx)
    reach(cx, M, 2, "B")
    fs, m = M.fs, M.m
    s = cx.real("scale", 0, 20)
    cx.assume(s > 0.1)
    how = cx.choose("how", ["time_scale", "lamda", "list"])
    kw = {"time_scale": dict(time_scale=s), "lamda": dict(lamda=1 / s), "list": dict(time_scale=[s, 3 * s])}[how]
    m.scales = [s] if how != "list" else [s, 3 * s]
    M.step("compute_inter_transition_matrices", 2, linear_approx=True, **kw)
    m.lin = True
    cx.eq("time scales", list(fs.time_scale), m.scales)
    M.state("inter")
    m.scales = list(fs.time_scale)
    M.op("clustering")


def generic(cx, ops, nm=2, np_=2):
    """state tracking of an arbitrary class"""
    ST = cx.mod("state_tracking")
    S = ST.OrderedEnum("S", {f"S{i}": i for i in range(3)})
    states = list(S)
    cx.check("states are ordered", states[0] < states[1] < states[2] and states[2] >= states[0] and states[1] != states[0])
    log = []
    props = [(cx.int(f"pnext{i}", 0, 2), cx.flag(f"pign{i}")) for i in range(np_)]
    meths = []
    for i in range(nm):
        lo = cx.int(f"mmin{i}", 0, 2)
        meths.append((lo, cx.int(f"mnext{i}", lo, 2), i == nm - 1 and cx.flag(f"mfail{i}")))

    ns = {}
    for i, (nx, ign) in enumerate(props):
        def mk(i=i, nx=nx, ign=ign):
            def get(self):
                return getattr(self, f"_p{i}", None)

            def fset(self, v):
                if v == "bad":
                    raise ValueError
                setattr(self, f"_p{i}", v)
            get.__name__ = fset.__name__ = f"p{i}"
            return ST.StateMeta.register(next_state=states[nx], ignore_none=ign)(property(get, fset))
        ns[f"p{i}"] = mk()
    for i, (lo, nx, bad) in enumerate(meths):
        def mk(i=i, lo=lo, nx=nx, bad=bad):
            def run(self, x, y=0):
                log.append((i, x, y))
                if bad and x == 7:
                    raise ZeroDivisionError
                return x + y
            run.__name__ = f"m{i}"
            return ST.StateMeta.register(minimal_state=states[lo], next_state=states[nx])(run)
        ns[f"m{i}"] = mk()
    C = ST.StateMeta("C", (), ns, states=S)
    o, other = C(), C()
    st, isset, val = 0, [False] * np_, [None] * np_
    for q in range(ops):
        k = cx.int(f"op{q}", 0, np_ + nm - 1)
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            if k < np_:
                v = cx.choose(f"val{q}", ["bad", None, 3])
                if v == "bad":
                    cx.raises("a failing setter fails", ValueError, lambda: setattr(o, f"p{k}", v))
                else:
                    setattr(o, f"p{k}", v)
                    val[k] = v
                    isset[k] = not (props[k][1] and v is None)
                    st = min(st, props[k][0])
                cx.check("setters do not warn", not w)
            else:
                i = k - np_
                lo, nx, bad = meths[i]
                need = [p for p in range(np_) if props[p][0] <= lo]
                ok = st >= lo and all(isset[p] for p in need)
                del log[:]
                x = 7 if (bad and cx.flag(f"fails{q}")) else 2
                if ok and x == 7:
                    cx.raises("a failing method fails", ZeroDivisionError, lambda: getattr(o, f"m{i}")(x, y=1))
                else:
                    r = getattr(o, f"m{i}")(x, y=1)
                    cx.check("a method runs exactly when its state and properties are there",
                             log == ([(i, 2, 1)] if ok else []), f"{log} {ok}")
                    cx.check("result", r == (3 if ok else None))
                    cx.check("refusal warns", bool(w) == (not ok))
                    if ok:
                        st = nx
        cx.check("state", o.state.current.value == st, f"{o.state.current} want {st}")
        cx.check("values", [getattr(o, f"p{i}") for i in range(np_)] == val)
        cx.check("missing", set(o.state.missing_parameters) ==
                 {f"p{i}" for i in range(np_) if props[i][0] <= st and not isset[i]})
    cx.check("instances are independent", other.state.current.value == 0 and not any(other.state.properties_set.values()))


def cases(tier):
    q = tier == "quick"
    mods = ("flow_stability", "state_tracking")

    def C(name, fn, **k):
        return Case(name, fn, k, mods, keepz=True)
    cs = []
    for o in OPS:
        cs.append(C("any-stage-" + o.replace(" ", "-"), history, first=o, ops=1, results=False))
    cs += [C("fresh-" + o.replace(" ", "-"), history, first=o, ops=1 if q else 2, stage="fresh") for o in
           ("network", "scale", "laplacians")]
    for o in ("network", "t_start", "t_stop", "scale", "direction"):
        cs.append(C("redo-" + o, redo, what=[o]))
    cs += [C("constructor", constructor), C("inline", inline), C("generic-2", generic, ops=2)]
    cs += [C("redo-exact", redo, what=["t_stop"], lin=False, louvain=False, key="B"),
           C("redo-any-scale", redo, what=["scale"], louvain=False, key="B")]
    if not q:
        cs += [C(f"two-{o}", history, first=o, ops=2, results=False) for o in OPS]
        cs += [C(f"redo-{a}-{b}", redo, what=[a, b]) for a in ("network", "t_start", "scale") for b in ("t_stop", "direction")]
        cs += [C("generic-3", generic, ops=3)]
    return cs
