"""Replays on the real build, known findings, evidence, verdict."""
from __future__ import annotations

import json
import os
import queue
import re
import select
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
EVID = os.environ.get("FSV_EVID", os.path.join(VERIF, "evidence"))


class RealWorker:
    def __init__(self, ext, pid, tier):
        self.args = (ext, pid, tier)
        self.p = None

    def start(self):
        env = dict(os.environ, OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
                   PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
        env.pop("PYTHONPATH", None)
        self.p = subprocess.Popen([PY, "-u", os.path.join(VERIF, "fsv", "real_worker.py"), *self.args],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=env, cwd=VERIF,
                                  start_new_session=True)

    def run(self, job, timeout=60):
        if self.p is None or self.p.poll() is not None:
            self.start()
        try:
            self.p.stdin.write(json.dumps(job) + "\n")
            self.p.stdin.flush()
            r, _, _ = select.select([self.p.stdout], [], [], timeout)
            if not r:
                self.kill()
                return {"id": job["id"], "ok": False, "label": "timeout", "detail": f"no result after {timeout}s",
                        "timeout": True}
            line = self.p.stdout.readline()
            if not line:
                rc = self.p.wait()
                self.p = None
                return {"id": job["id"], "ok": False, "label": "crash",
                        "detail": f"the interpreter died (exit {rc})", "crash": True}
            return json.loads(line)
        except (BrokenPipeError, OSError) as e:
            self.kill()
            return {"id": job["id"], "ok": False, "label": "crash", "detail": str(e), "crash": True}

    def kill(self):
        if self.p is not None:
            try:
                os.killpg(self.p.pid, 9)
            except OSError:
                pass
            try:
                self.p.wait(5)
            except Exception:
                pass
            self.p = None


def run_jobs(ext, pid, tier, jobs, n=8, timeout=60, deadline=None):
    q = queue.Queue()
    for j in jobs:
        q.put(j)
    res = {}
    lock = threading.Lock()

    def w():
        rw = RealWorker(ext, pid, tier)
        while True:
            try:
                j = q.get_nowait()
            except queue.Empty:
                break
            if deadline and time.time() > deadline and not j.get("cex"):
                continue
            r = rw.run(j, timeout)
            if r.get("crash") and not r.get("ok"):
                r2 = rw.run(j, timeout)     # must crash twice
                r = r2
            with lock:
                res[j["id"]] = r
        rw.kill()
    ts = [threading.Thread(target=w) for _ in range(max(1, min(n, len(jobs))))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return res


def finish(pid, tier, seed, prop, cases, runnable, agg, load_err, builder, t0, t_sym, log, args):
    from . import symload
    ext, err = builder.wait()
    viol = []
    jobs = []
    nid = 0
    notes = []
    if ext is None:
        # the tree does not build: nothing can be decided on the real code
        print(f"ERROR: the extension modules do not build from {symload.SRC}:\n{err}")
        return 3
    idx = {c.name: i for i, c in enumerate(runnable)}
    for c in cases:
        a = agg[idx[c.name]] if c.name in idx else None
        if a is not None:
            seen = set()
            for lab, m in a["cex"]:
                k = (lab, json.dumps(m, sort_keys=True))
                if k in seen:
                    continue
                seen.add(k)
                if len(seen) > 8:
                    break
                jobs.append(dict(id=nid, case=c.name, model=m, seed=None, cex=lab))
                nid += 1
            ms = a["models"]
            step = max(1, len(ms) // max(1, c.replays))
            for m in ms[::step][: c.replays]:
                jobs.append(dict(id=nid, case=c.name, model=m, seed=None))
                nid += 1
        nsamp = c.samples
        if a is None or a["unsupported"] or a["crash"] or (a["cex"]):
            nsamp = max(nsamp, 150)
        for s in range(nsamp):
            jobs.append(dict(id=nid, case=c.name, model=None, seed=seed * 100003 + s))
            nid += 1
    # counterexamples first
    jobs.sort(key=lambda j: 0 if j.get("cex") else 1)
    known_cases = prop.known() if hasattr(prop, "known") else []
    for c in known_cases:
        jobs.append(dict(id=nid, case=c.name, model={}, seed=None, known=True, cex="known"))
        nid += 1
    tr = time.time()
    lim = 150 if tier == "quick" else 600
    res = {} if args.no_real else run_jobs(ext, pid, tier, jobs, deadline=time.time() + lim)
    t_real = time.time() - tr
    spurious = []
    replayed = 0
    skipped = 0
    samples = []
    kf = load_known()
    known_lines = []
    labels_bad = {}
    for j in jobs:
        r = res.get(j["id"])
        if r is None:
            continue
        if j.get("known"):
            ent = [k for k in kf if k["property"] == pid and k["case"] == j["case"] and k["status"] == "known"]
            if not r["ok"]:
                if ent:
                    known_lines.append(f"KNOWN-FINDING: property={pid} {ent[0]['what']}")
                else:
                    viol.append((j, r))
            continue
        replayed += 1
        if r.get("skip"):
            skipped += 1
        if r["ok"]:
            if j.get("cex"):
                spurious.append((j["case"], j["cex"]))
                log("SPURIOUS", r.get("skip"), json.dumps(j["model"]))
            if len(samples) < 6 and not r.get("skip") and j.get("model"):
                samples.append({"case": j["case"], "inputs": r.get("vals"), "checks_passed": r.get("nchecks")})
            continue
        if r.get("timeout"):
            # a slow machine is not a violation unless termination is the property
            if getattr(prop, "TIMEOUT_IS_VIOLATION", False):
                viol.append((j, r))
            else:
                notes.append(f"replay timeout in {j['case']}")
            continue
        if r.get("harness_error"):
            notes.append(f"harness error on real code in {j['case']}: {r['detail']}")
            if not getattr(prop, "HARNESS_ERRORS_ARE_VIOLATIONS", True):
                continue
        viol.append((j, r))
    # group violations
    out_v = []
    os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
    byl = {}
    for j, r in viol:
        byl.setdefault((j["case"], r["label"]), []).append((j, r))
    for n, ((case, lab), items) in enumerate(sorted(byl.items())):
        j, r = sorted(items, key=lambda x: 0 if x[0].get("cex") else 1)[0]
        path = os.path.join(EVID, "replays", f"{pid}-{n}.json")
        with open(path, "w") as f:
            json.dump(dict(property=pid, tier=tier, case=case, label=lab, detail=r.get("detail"), tb=r.get("tb"),
                           model=j.get("model"), seed=j.get("seed"), inputs=r.get("vals"), found_by=(
                               "solver counterexample" if j.get("cex") else
                               ("path witness" if j.get("model") else "encoding-validation run")),
                           replay_cmd=f"/verif/run replay {path}"), f, indent=1)
        out_v.append(dict(case=case, label=lab, replay=path, detail=(r.get("detail") or "")[:300]))
        print(f"VIOLATION property={pid} replay={path}")
        print(f"  case {case}: {lab}: {(r.get('detail') or '')[:400]}")
    for l in known_lines:
        print(l)
    tot = lambda f: sum(a[f] for a in agg.values())
    unsup = {}
    for i, a in agg.items():
        if a["unsupported"]:
            unsup[runnable[i].name] = dict(a["unsupported"])
        if a["crash"]:
            unsup.setdefault(runnable[i].name, {})["crash"] = a["crash"]
    for m, e in load_err.items():
        unsup["module " + m] = {e: 1}
    for s in spurious:
        notes.append(f"solver counterexample not reproduced on the real code (encoding gap): {s}")
    fns = sorted(set().union(*[a["fns"] for a in agg.values()]) | set(getattr(prop, "FUNCTIONS", [])))
    ev = dict(
        property=pid, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=tot("paths"), transitions=tot("queries"),
            traces_validated_against_impl=replayed,
            samples=samples or [{"note": "no path witness replayed in this run"}],
            explanation="states = symbolic paths executed to their end, transitions = solver queries asked "
                        "(branch feasibility and assertions); every assertion on every path was decided by z3 "
                        "for all values within the bounds",
            functions_encoded=fns,
            bounds=getattr(prop, "BOUNDS", {}),
            outside_the_claim=getattr(prop, "OUTSIDE", []),
            assertions_checked=tot("checks"), assertions_sent_to_solver=tot("solver_checks"),
            assertion_queries_unknown=tot("unknown_checks"),
            solver_seconds=round(tot("solver_s"), 2), symbolic_wall_s=round(t_sym, 1), replay_wall_s=round(t_real, 1),
            cases=[dict(name=runnable[i].name, paths=a["paths"], infeasible=a["aborted"], assertions=a["checks"],
                        queries=a["queries"], solver_s=round(a["solver_s"], 2), exhausted_within_bounds=a["exhaustive"],
                        unexplored_prefixes=a["left"], unknown=a["unknown_checks"]) for i, a in agg.items()],
            cases_exhausted=sum(1 for a in agg.values() if a["exhaustive"]), cases_total=len(cases),
            vacuity="every case must execute at least one path to its end with at least one assertion; "
                    f"cases with none: {[runnable[i].name for i, a in agg.items() if a['checks'] == 0]}",
            not_encodable_here=unsup, notes=notes[:40], replays_skipped_by_assumption=skipped,
            known_findings=known_lines,
        ),
        assumptions=getattr(prop, "ASSUMPTIONS", []),
        violations=out_v,
        wall_s=round(time.time() - t0, 1))
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for n in notes:
        log("NOTE", n)
    log(f"replayed={replayed} skipped={skipped} spurious={len(spurious)} wall={time.time() - t0:.1f}s")
    if out_v:
        return 1
    print(f"OK property={pid} paths={tot('paths')} assertions={tot('checks')} queries={tot('queries')} "
          f"solver_s={tot('solver_s'):.1f} replayed={replayed} exhausted={ev['coverage']['cases_exhausted']}/{len(cases)} "
          f"inconclusive={len(unsup) + len(spurious) + tot('unknown_checks')} wall_s={ev['wall_s']}")
    return 0


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]
