import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
Z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
sys.path.append(Z3)
import z3  # noqa: E402,F401
sys.path.remove(Z3)
sys.setrecursionlimit(20000)
import logging
logging.disable(logging.CRITICAL)
import warnings  # noqa: E402
warnings.simplefilter("ignore")

if __name__ == "__main__":
    if sys.argv[1] == "replay":
        import json
        from fsv import realbuild, report
        d = json.load(open(sys.argv[2]))
        ext, err = realbuild.build()
        if ext is None:
            print(err)
            sys.exit(3)
        rw = report.RealWorker(ext, d["property"], d["tier"])
        r = rw.run(dict(id=0, case=d["case"], model=d["model"], seed=d["seed"]), 120)
        rw.kill()
        print(json.dumps(r, indent=1))
        sys.exit(0 if r["ok"] else 1)
    if sys.argv[1] == "setup":
        from fsv import realbuild
        ext, err = realbuild.build()
        print(ext or err)
        sys.exit(0)
    from fsv import runner
    a = sys.argv[1:]
    if len(a) > 1 and a[1] in ("quick", "thorough"):
        a = [a[0], "--tier", a[1]] + a[2:]
    sys.exit(runner.main(a))
