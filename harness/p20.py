"""P20: synthetic temporal networks follow the contact model asked for."""
from fsv.runner import Case
from .common import *

BUDGET = {"quick": 60, "thorough": 800}
BOUNDS = ["2-4 individuals in 1-3 groups, in any order of their ids, with different (also time-dependent) distributions; "
          "up to 2-3 activations each; arbitrary waiting times and durations within a band around each individual's own",
          "listed group probabilities (zero entries and rows included); arbitrary choices of partner",
          "larger structures: 5 individuals"]
OUTSIDE = ["the statistics of the draws (scipy's exponential distribution, numpy's choice)",
           "contacts unfinished at the end of the simulation (not recorded, by design)"]
ASSUMPTIONS = ["no two events fall on the same time (to 1e-6)", "expon.rvs(loc, scale) is loc + scale*u with u in [0, 0.05] (thorough: also [0, 1/8]) (a sub-range of the exponential's support)"]
EPS = 1e-6


def draws(cx, U=0.05):
    log = []

    def rvs(loc, scale):
        u = cx.real(f"u{len(log)}", 0, U)
        log.append((loc, scale, u))
        return loc + scale * u
    cx.expon(rvs)
    return log


def make(cx, N, groups, order, mod, aloc, iloc):
    """individuals: activation gaps around aloc[i], durations around iloc[i], in the given order"""
    S = cx.mod("synth_temp_network")
    ind = {}
    for i in range(N):
        kw = dict(activ_distro_loc=aloc[i], activ_distro_scale=1.0, inter_distro_loc=iloc[i], inter_distro_scale=1.0,
                  group=groups[i])
        if mod:
            # durations grow with the starting time
            kw["inter_distro_mod_func"] = lambda t, i=i: (iloc[i] + t * 0.25, 0.5)
        ind[i] = S.Individual(i, **kw)
    return S, [ind[i] for i in order]


PERMS = {2: [[0, 1], [1, 0]], 3: [[0, 1, 2], [2, 0, 1], [1, 0, 2]], 4: [[0, 1, 2, 3], [3, 1, 0, 2]], 5: [[0, 1, 2, 3, 4], [4, 2, 0, 3, 1]]}


def sim(cx, N, groups, method, aloc, iloc, t_end=1.0, mod=False, k=1, probs=None, picks=3, states=False, t0=None,
        orders=None, U=0.05):
    cx.script_rng(per_seed=picks, cycle=True)
    log = draws(cx, U)
    order = PERMS[N][cx.int("order", 0, (orders or len(PERMS[N])) - 1)]
    S, inds = make(cx, N, groups, order, mod, aloc, iloc)
    kw = {}
    pf = None
    if method == "block_probs":
        P = cx.choose("probs", probs)
        kw["inter_group_probs"] = [list(r) for r in P] if cx.flag("as_list") else cx.np.array(P)
        pf = lambda t: P
    elif method == "block_probs_mod":
        A, B = probs
        pf = lambda t: A if cx.truth(t < 0.5) else B
        kw["block_prob_mod_func"] = lambda t: cx.np.array(pf(t))
    start = 0 if t0 is None else t0
    if k != 1:
        kw["num_interactions_per_activation"] = k
    s = S.SynthTempNetwork(inds, t_start=start, t_end=start + t_end, next_event_method=method, **kw)
    with cx.no_ties(EPS):
        s.run(save_all_states=states, save_dt_states=states, dt=0.4)
    ev = list(zip(s.indiv_sources, s.indiv_targets, s.start_times, s.end_times))
    cx.check("four lists of one length", len(s.indiv_sources) == len(s.indiv_targets) == len(s.start_times)
             == len(s.end_times))
    act = {i: [start] for i in range(N)}
    nin = 0
    for loc, scale, u in log:
        hit = [i for i in range(N) if isinstance(loc, (int, float)) and abs(loc - aloc[i]) < 1e-12]
        if hit:
            act[hit[0]].append(act[hit[0]][-1] + loc + scale * u)
        else:
            nin += 1
    cx.check("every individual is activated", all(len(v) > 1 for v in act.values()))
    end = start + t_end
    for a, b, x, y in ev:
        cx.check("known individuals", a in range(N) and b in range(N))
        cx.check("no contact with oneself", a != b)
        lo = iloc[a] + (x * 0.25 if mod else 0)
        cx.ge("duration from the source's distribution", y - x, lo)
        cx.le("duration from the source's distribution ", y - x, lo + (0.5 if mod else 1.0) * U)
        cx.ge("starts after the start", x, start + aloc[a])
        cx.le("starts before the end", x, end)
        cx.holds("starts at an activation of its source", lambda e: cx.Or(*[cx.And(cx.leq(x - t, e), cx.leq(t - x, e))
                                                                        for t in act[a][1:-1]] or [False]))
        g = groups[b]
        if method == "random_uniform_within_group":
            cx.check("partner in the same group", g == groups[a])
        elif pf is not None:
            cx.check("partner in a group of positive probability", pf(x)[groups[a]][g] > 0)
    for m in range(len(ev)):
        for l in range(m):
            cx.le("in order of their end", ev[l][3], ev[m][3])
            if ev[l][:2] == ev[m][:2]:
                cx.holds("no overlap with itself", lambda e: cx.Or(cx.leq(ev[l][3] - ev[m][2], e),
                                                                   cx.leq(ev[m][3] - ev[l][2], e)))
    if k == 1 and method.startswith("random_uniform"):
        # an activation without new contact means that all partners are taken; a draw per contact
        tot = 0
        for i in range(N):
            for t in act[i][1:-1]:
                cand = [j for j in range(N) if j != i and (method == "random_uniform" or groups[j] == groups[i])]
                mine = [e for e in ev if e[0] == i and cx.truth(cx.And(e[2] >= t - EPS / 4, e[2] <= t + EPS / 4))]
                if mine:
                    tot += len(mine)
                    continue
                if not cand:
                    continue
                busy = [j for j in cand if any(e[0] == i and e[1] == j and cx.truth(cx.And(e[2] < t - EPS / 4, t <= e[3]))
                                               for e in ev)]
                if len(busy) == len(cand):
                    continue
                # unfinished at the end
                left = [j for j in cand if s._A[i, j] != 0] if hasattr(s, "_A") else cand
                cx.check("an activation with a free partner starts a contact", len(left) > 0)
        cx.check("recorded contacts start once per activation", tot == len(ev))
    if states:
        times = list(s.all_states)
        last = cx.dense(s.all_states[times[-1]].toarray())
        for t in times:
            M = cx.dense(s.all_states[t].toarray())
            for i in range(N):
                for j in range(N):
                    on = any(e[0] == i and e[1] == j and cx.truth(cx.And(e[2] <= t, t < e[3])) for e in ev)
                    if on:
                        cx.check("state shows the contact", M[i][j] == 1)
                    elif last[i][j] == 0:
                        cx.check("state shows only contacts", M[i][j] == 0)
        for t in s.saved_states:
            cx.check("saved states are states", t in s.all_states and
                     bool((cx.dense(s.saved_states[t].toarray()) == cx.dense(s.all_states[t].toarray())).all()))
    cx.check("ids kept", sorted(s.indiv_ids_list) == list(range(N)))


def refused(cx):
    S = cx.mod("synth_temp_network")
    draws(cx)
    what = cx.choose("what", ["id", "neg", "dup", "group", "neggroup", "shape", "mod", "scale", "type", "dist", "gtype"])

    def mk(ids, gs=None):
        return [S.Individual(i, group=(gs or [0] * len(ids))[k]) for k, i in enumerate(ids)]
    if what == "id":
        cx.raises("ids beyond N-1", ValueError, S.SynthTempNetwork, mk([0, 2]))
    elif what == "neg":
        cx.raises("negative ids", ValueError, S.SynthTempNetwork, mk([0, -1]))
    elif what == "dup":
        cx.raises("ids twice", AssertionError, S.SynthTempNetwork, mk([0, 0]))
    elif what == "group":
        cx.raises("group ids with gaps", ValueError, S.SynthTempNetwork, mk([0, 1], [0, 2]))
    elif what == "neggroup":
        cx.raises("negative group ids", ValueError, S.SynthTempNetwork, mk([0, 1], [0, -1]))
    elif what == "shape":
        cx.raises("one row of probabilities per group", ValueError, S.SynthTempNetwork, mk([0, 1], [0, 1]),
                  next_event_method="block_probs", inter_group_probs=cx.np.array([[1.0]]))
    elif what == "mod":
        cx.raises("no function", ValueError, S.SynthTempNetwork, mk([0, 1]), next_event_method="block_probs_mod")
    elif what == "scale":
        i = S.Individual(0, inter_distro_mod_func=lambda t: (1.0, 0), activ_distro_mod_func=lambda t: (1.0, 0))
        cx.raises("zero scale", ValueError, i.draw_inter_duration, 0.5)
        cx.raises("zero scale ", ValueError, i.draw_activ_time, 0.5)
    elif what == "type":
        cx.raises("id that is no integer", ValueError, S.Individual, "a")
    elif what == "gtype":
        cx.raises("group that is no integer", ValueError, S.Individual, 0, group="a")
    else:
        cx.raises("unknown distribution", NotImplementedError, S.Individual, 0, inter_distro_type="normal")


def cases(tier):
    q = tier == "quick"
    cs = []

    def C(name, fn, **k):
        cs.append(Case(name, fn, k, ("synth_temp_network",)))
    C("uniform-2", sim, N=2, groups=[0, 0], method="random_uniform", aloc=[0.3, 0.45], iloc=[0.2, 0.5], states=True)
    C("uniform-2-mod", sim, N=2, groups=[0, 0], method="random_uniform", aloc=[0.31, 0.4], iloc=[0.1, 0.7], mod=True, t0=2)
    C("uniform-3", sim, N=3, groups=[0, 0, 0], method="random_uniform", aloc=[0.4, 0.7, 0.55], iloc=[0.1, 0.2, 0.65],
      orders=2)
    C("uniform-3-two", sim, N=3, groups=[0, 0, 0], method="random_uniform", aloc=[0.6, 0.77, 0.93], iloc=[0.1, 0.2, 0.3],
      k=2, picks=1, orders=2)
    C("group-3", sim, N=3, groups=[0, 1, 0], method="random_uniform_within_group", aloc=[0.4, 0.7, 0.55],
      iloc=[0.1, 0.2, 0.65])
    PR = [[[0.0, 1.0], [2.0, 0.0]], [[3.0, 0.0], [0.0, 1.0]], [[1.0, 1.0], [0.0, 0.0]]]
    C("block-3", sim, N=3, groups=[0, 1, 1], method="block_probs", probs=PR, aloc=[0.4, 0.7, 0.55], iloc=[0.1, 0.2, 0.65])
    C("block-mod-3", sim, N=3, groups=[1, 0, 1], method="block_probs_mod", probs=([[0.0, 1.0], [1.0, 0.0]],
      [[1.0, 0.0], [0.0, 1.0]]), aloc=[0.4, 0.7, 0.52], iloc=[0.1, 0.2, 0.65])
    C("uniform-5", sim, N=5, groups=[0] * 5, method="random_uniform", aloc=[0.41, 0.7, 0.55, 0.82, 0.93], iloc=[0.1, 0.2, 0.65, 0.33, 0.5],
      picks=1, orders=1)
    C("refused", refused)
    if not q:
        for c in list(cs[:-1]):
            C(c.name + "-wide", c.fn, **dict(c.params, U=0.125, orders=None, picks=3))
        C("uniform-3-long", sim, N=3, groups=[0, 0, 0], method="random_uniform", aloc=[0.3, 0.4, 0.55],
          iloc=[0.1, 0.2, 0.65], states=True)
        C("block-4", sim, N=4, groups=[0, 1, 2, 1], method="block_probs", probs=[[[0, 1, 1], [1, 0, 0], [0, 0, 0]],
          [[1, 0, 0], [0, 1, 3], [1, 1, 1]]], aloc=[0.4, 0.7, 0.55, 0.8], iloc=[0.1, 0.2, 0.65, 0.3])
    return cs
