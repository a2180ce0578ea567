"""Check driver: explores every case symbolically (in parallel), replays
counterexamples and path witnesses on the real build, writes evidence."""
from __future__ import annotations

import argparse
import importlib
import json
import multiprocessing as mp
import os
import random
import sys
import time
import traceback
from collections import defaultdict

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIRST = os.environ.get("FSV_FIRST")      # stop at the first counterexample (mutation campaigns)
NPROC = int(os.environ.get("FSV_PROCS", "8"))


class Case:
    """One harness instance: fn(cx, **params)."""

    def __init__(self, name, fn, params=None, mods=(), replays=12, budget=None, max_paths=None, timeout_ms=3000,
                 samples=4, keepz=False):
        self.name = name
        self.fn = fn
        self.params = params or {}
        self.mods = mods          # repo modules this harness needs
        self.replays = replays    # path witnesses replayed on the real build
        self.budget = budget      # cpu seconds
        self.max_paths = max_paths
        self.timeout_ms = timeout_ms
        self.keepz = keepz        # scipy's exact-zero pruning after +,-,@ is not forked on
        self.samples = samples    # encoding-validation runs with arbitrary inputs


def load_prop(pid):
    return importlib.import_module(f"harness.{pid.lower()}")


# ------------------------------------------------------------- symbolic side
_CASES = None
_REACHED = None


def _winit(pid, tier):
    pass


def run_path(case, prefix, stats):
    from . import engine, ctx, symnp, symsparse
    ex = engine.Explorer(prefix, timeout_ms=case.timeout_ms, stats=stats)
    engine.EX = ex
    engine.poly.reset()
    symnp.STUBS.clear()
    symsparse.KEEPZ = case.keepz
    from . import stubs
    stubs.install(symnp.STUBS)
    cx = ctx.SymCx(ex)
    status = "done"
    err = None
    try:
        case.fn(cx, **case.params)
    except engine.PathAbort:
        status = "abort"
    except ctx.CexFound:
        status = "cex"
    except engine.Unsupported as e:
        status = "unsupported"
        tb = traceback.extract_tb(e.__traceback__)
        fr = [f for f in tb if "/repo/" in f.filename or "translated" in f.filename]
        err = f"{e} @ {fr[-1].filename.split('/')[-1]}:{fr[-1].lineno}" if fr else f"{e} @ {tb[-1].filename}:{tb[-1].lineno}"
    except engine.PathLimit as e:
        status = "limit"
        err = str(e)
    except RecursionError as e:
        status = "unsupported"
        err = "recursion"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        fr = [f for f in tb if "/repo/" in f.filename or "translated" in f.filename]
        where = f"{fr[-1].filename.split('/')[-1]}:{fr[-1].lineno}" if fr else f"{tb[-1].filename.split('/')[-1]}:{tb[-1].lineno}"
        err = f"{type(e).__name__}: {str(e)[:200]} @ {where}"
        if os.environ.get("FSV_TB"):
            err += "\n" + "".join(traceback.format_exception(e)[-12:])
        m = None
        try:
            m = cx.final_model()
        except BaseException:
            pass
        if m is None:
            status = "abort" if ex.check() is not None and str(ex.check()) == "unsat" else "unsupported"
        else:
            status = "exception"
            cx.results.append(("exception " + err, "cex", m))
    finally:
        cx.drop_scratch()
    return ex, cx, status, err


def _profiler(out):
    from .symload import PKG

    def prof(frame, event, arg):
        if event == "call":
            c = frame.f_code
            f = c.co_filename
            if f.startswith(PKG) or f.startswith("<translated"):
                q = c.co_qualname
                if "<lambda>" not in q and "<module>" not in q:
                    out.add(f.split("/")[-1].replace("<translated ", "").rstrip(">") + ":" + q)
    return prof


def explore(case, prefixes, seconds, max_paths=None, want_models=4, seed=0):
    """DFS over the given prefixes for at most ``seconds``."""
    t0 = time.time()
    c0 = time.process_time()
    stats = {"queries": 0, "solver_s": 0.0, "unknown": 0}
    res = dict(paths=0, aborted=0, checks=0, solver_checks=0, cex=[], unsupported=defaultdict(int), models=[],
               unknown_checks=0, limit=0, notes=set(), max_dec=0, seen=0, fns=set())
    work = list(prefixes)
    rng = random.Random(seed)
    from .engine import cur  # noqa: F401
    while work:
        if time.time() - t0 > seconds:
            break
        if max_paths is not None and res["paths"] >= max_paths:
            break
        if res["cex"] and len(res["cex"]) >= 6:
            break
        if len(work) > 2 and rng.random() < 0.5:   # spread out when the space is larger than the budget
            k = rng.randrange(len(work))
            work[k], work[-1] = work[-1], work[k]
        p = work.pop()
        if not p or not res["paths"]:
            sys.setprofile(_profiler(res["fns"]))
        try:
            ex, cx, status, err = run_path(case, p, stats)
        finally:
            sys.setprofile(None)
        work.extend(ex.alts)
        if status == "abort":
            res["aborted"] += 1
            continue
        res["paths"] += 1
        res["checks"] += cx.nchecks
        res["solver_checks"] += cx.ncheck_solver
        res["max_dec"] = max(res["max_dec"], len(ex.trace))
        for n in cx.notes:
            res["notes"].add(n)
        for lab, st, m in cx.results:
            if st == "cex":
                res["cex"].append((lab, m))
            else:
                res["unknown_checks"] += 1
        if status == "unsupported":
            res["unsupported"][err] += 1
        if status == "limit":
            res["limit"] += 1
        # reservoir of path witnesses
        if status in ("done", "unsupported", "limit"):
            res["seen"] += 1
            keep = len(res["models"]) < want_models
            j = None
            if not keep:
                j = rng.randrange(res["seen"])
            if keep or j < want_models:
                try:
                    m = cx.final_model()
                except BaseException:
                    m = None
                if m is not None:
                    if keep:
                        res["models"].append(m)
                    else:
                        res["models"][j] = m
    res["stats"] = stats
    res["left"] = work
    res["wall"] = time.time() - t0
    res["busy"] = time.process_time() - c0
    res["unsupported"] = dict(res["unsupported"])
    res["notes"] = list(res["notes"])
    return res


def _task(a):
    ci, prefixes, seconds, maxp, want, seed = a
    case = _CASES[ci]
    try:
        return ci, explore(case, prefixes, seconds, maxp, want, seed)
    except BaseException as e:  # keep the pool alive
        return ci, {"crash": f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-800:]}


def symbolic(cases, budget, seed, log=lambda *a: None, stop_on_cex=True):
    """Round-robin exploration of all cases in a process pool."""
    global _CASES
    _CASES = cases
    agg = {}
    for i, c in enumerate(cases):
        agg[i] = dict(paths=0, aborted=0, checks=0, solver_checks=0, cex=[], unsupported=defaultdict(int), models=[],
                      unknown_checks=0, limit=0, notes=set(), left=0, queries=0, solver_s=0.0, cpu=0.0, crash=None,
                      max_dec=0, fns=set())
    pend = {i: [[]] for i in range(len(cases))}
    t0 = time.time()
    ctxm = mp.get_context("fork")
    q_in = ctxm.SimpleQueue()
    q_out = ctxm.SimpleQueue()

    def worker():
        while True:
            t = q_in.get()
            if t is None:
                return
            q_out.put(_task(t))
    procs = [ctxm.Process(target=worker, daemon=True) for _ in range(min(NPROC, max(1, NPROC)))]
    for p in procs:
        p.start()
    inflight = 0
    infl = defaultdict(int)
    order = list(range(len(cases)))
    k = 0
    last = time.time()
    qr = q_out._reader
    seq = 0

    def dispatch():
        nonlocal inflight, k, seq
        while inflight < len(procs):
            cand = [i for i in order if pend[i] and not agg[i].get("stop")]
            if not cand:
                return
            # least cpu first
            i = min(cand, key=lambda x: (agg[x]["cpu"] + 2.0 * infl[x], x))
            ps = pend[i]
            n = max(1, min(len(ps), (len(ps) + NPROC - 1) // NPROC))
            # shallow prefixes first for sharing
            take = ps[:n]
            pend[i] = ps[n:]
            c = cases[i]
            sl = 0.3 if agg[i]["cpu"] < 0.5 else 2.0
            seq += 1
            q_in.put((i, take, sl, None, 3, seed * 7919 + seq))
            inflight += 1
            infl[i] += 1

    used = [0.0, 0.0]        # wall time of the slices, processor time they got
    while True:
        # on a machine that is busy with other work, the budget is the time it would take on an idle one
        eff = min(1.0, used[1] / used[0]) if used[0] > 20 else 1.0
        el = time.time() - t0
        if el * eff < budget and el < max(budget, min(2.5 * budget, 500)):
            dispatch()
        if inflight == 0:
            break
        if not qr.poll(1.0):
            if time.time() - t0 > (budget if eff > 0.9 else 2.5 * budget) + 90:
                log("workers did not return; stopping")
                for i in infl:
                    if infl[i]:
                        agg[i]["crash"] = "worker overran its slice"
                break
            if not all(p.is_alive() for p in procs):
                dead = [p.exitcode for p in procs if not p.is_alive()]
                log("worker died", dead)
                for i in infl:
                    if infl[i]:
                        agg[i]["crash"] = f"worker died {dead}"
                break
            continue
        ci, r = q_out.get()
        inflight -= 1
        infl[ci] -= 1
        a = agg[ci]
        if "crash" in r:
            a["crash"] = r["crash"]
            a["stop"] = True
            continue
        for f in ("paths", "aborted", "checks", "solver_checks", "unknown_checks", "limit"):
            a[f] += r[f]
        a["max_dec"] = max(a["max_dec"], r["max_dec"])
        a["cex"].extend(r["cex"])
        for e, n in r["unsupported"].items():
            a["unsupported"][e] += n
        a["notes"].update(r["notes"])
        a["fns"].update(r["fns"])
        a["models"].extend(r["models"])
        a["queries"] += r["stats"]["queries"]
        a["solver_s"] += r["stats"]["solver_s"]
        a["cpu"] += r["wall"]
        used[0] += r["wall"]
        used[1] += r["busy"]
        pend[ci].extend(r["left"])
        c = cases[ci]
        if stop_on_cex and len(a["cex"]) >= 4:
            a["stop"] = True
        if FIRST and a["cex"]:
            break
        if c.max_paths and a["paths"] >= c.max_paths:
            a["stop"] = True
        if c.budget and a["cpu"] >= c.budget:
            a["stop"] = True
        if sum(a["unsupported"].values()) >= 60:
            a["stop"] = True
    for _ in procs:
        q_in.put(None)
    for p in procs:
        p.join(timeout=1)
        if p.is_alive():
            p.kill()
    for i in agg:
        agg[i]["left"] = len(pend[i]) + infl[i]
        agg[i]["exhaustive"] = (agg[i]["left"] == 0 and not agg[i]["crash"] and not agg[i]["unsupported"]
                                and not agg[i]["limit"] and not agg[i]["cex"]
                                and not agg[i]["unknown_checks"])
    return agg


# ----------------------------------------------------------------- main
def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default=None)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--no-real", action="store_true")
    ap.add_argument("--budget", type=float, default=None)
    args = ap.parse_args(argv)
    pid, tier = args.pid.upper(), args.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    log = (lambda *a: print("#", *a, file=sys.stderr, flush=True)) if args.v else (lambda *a: None)

    from . import realbuild, report
    builder = realbuild.start()      # compiles the extensions in the background
    from . import symload
    load_err = {}
    symload.init()
    prop = load_prop(pid)
    cases = prop.cases(tier)
    if args.only:
        cases = [c for c in cases if args.only in c.name]
    mods = sorted({m for c in cases for m in c.mods})
    for m in mods:
        try:
            if m.startswith("_cython"):
                symload.load_cy(m)
            else:
                symload.load("flowstab." + m)
        except BaseException as e:
            load_err[m] = f"{type(e).__name__}: {e}"
            log("cannot load", m, load_err[m])
    runnable = [c for c in cases if not any(m in load_err for m in c.mods)]
    budget = args.budget or (prop.BUDGET.get(tier) if hasattr(prop, "BUDGET") else None) or (75 if tier == "quick" else 900)
    log(f"{len(cases)} cases, {len(runnable)} runnable, budget {budget}s")
    t1 = time.time()
    agg = symbolic(runnable, budget, seed, log)
    t_sym = time.time() - t1
    for i, c in enumerate(runnable):
        a = agg[i]
        log(f"{c.name}: paths={a['paths']} aborted={a['aborted']} checks={a['checks']} q={a['queries']} "
            f"solver={a['solver_s']:.1f}s cpu={a['cpu']:.1f}s cex={len(a['cex'])} unk={a['unknown_checks']} "
            f"left={a['left']} exh={a['exhaustive']} dec={a['max_dec']}"
            + (f" UNSUPPORTED={dict(a['unsupported'])}" if a["unsupported"] else "")
            + (f" limit={a['limit']}" if a["limit"] else "")
            + (f" CRASH={a['crash']}" if a["crash"] else ""))
    rc = report.finish(pid, tier, seed, prop, cases, runnable, agg, load_err, builder, t0, t_sym, log, args)
    return rc
