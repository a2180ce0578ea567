"""Runs harnesses concretely against the real, unpatched code (own process)."""
import importlib
import json
import os
import random
import sys
import traceback
import warnings
import logging
logging.disable(logging.CRITICAL)


def main():
    ext, pid, tier = sys.argv[1:4]
    proto = os.fdopen(os.dup(1), "w", buffering=1)
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    os.dup2(dn, 2)
    warnings.simplefilter("ignore")
    verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    src = os.environ.get("FSV_SRC", "/repo/src")
    sys.path[:0] = [ext, verif]
    sys.path.insert(1, src)
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    import numpy as np
    np.seterr(all="ignore")
    from fsv import ctx, runner
    import logging
    logging.disable(logging.CRITICAL)
    prop = runner.load_prop(pid)
    cases = {c.name: c for c in prop.cases(tier)}
    if hasattr(prop, "known"):
        for c in prop.known():
            cases[c.name] = c
    for line in sys.stdin:
        job = json.loads(line)
        c = cases[job["case"]]
        for m in c.mods:       # before anything is patched
            try:
                importlib.import_module(m if m.startswith("_cython") else "flowstab." + m)
            except Exception:
                pass
        rng = random.Random(job["seed"]) if job.get("seed") is not None else None
        cx = ctx.RealCx(job.get("model"), rng)
        out = {"id": job["id"]}
        try:
            c.fn(cx, **c.params)
            out["ok"] = True
        except ctx.SkipPath:
            out["ok"] = True
            out["skip"] = True
        except ctx.Violation as e:
            out.update(ok=False, label=e.label, detail=str(e.detail)[:2000])
        except Exception as e:  # the code under test raised
            tb = traceback.extract_tb(e.__traceback__)
            fr = [f for f in tb if "/flowstab/" in f.filename or "_cython" in f.filename]
            inrepo = bool(fr)
            nm = getattr(e, "name", None)
            if isinstance(e, AttributeError) and not fr and isinstance(nm, str) and nm.startswith("_"):
                # a private name the harness uses is gone: not a violation
                out.update(ok=True, skip=True, private=nm)
                continue_ = True
            else:
                continue_ = False
            where = f"{fr[-1].filename.split('/')[-1]}:{fr[-1].lineno}" if fr else f"{tb[-1].filename.split('/')[-1]}:{tb[-1].lineno}"
            if not continue_:
              out.update(ok=False, label="exception " + type(e).__name__, detail=f"{type(e).__name__}: {str(e)[:500]} @ {where}",
                       harness_error=not inrepo, tb=traceback.format_exc()[-1500:])
        finally:
            cx.cleanup()
        out["vals"] = {k: (v if isinstance(v, (int, float)) else str(v)) for k, v in cx.vals.items()}
        out["nchecks"] = cx.nchecks
        try:
            s = json.dumps(out)
        except (TypeError, ValueError):
            out.pop("vals")
            s = json.dumps(out)
        proto.write(s + "\n")
        proto.flush()


main()
