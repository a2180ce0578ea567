"""mkseed.py DEFS.py: writes /verif/seeded/<id>/ from definitions
SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=python source)]"""
import json, os, runpy, shutil, subprocess, sys, tempfile
d = runpy.run_path(sys.argv[1])["SEEDS"]
for s in d:
    w = tempfile.mkdtemp(prefix="mkseed.")
    try:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w + "/r", "HEAD"])
        for f, old, new in s["edits"]:
            p = os.path.join(w, "r", f)
            t = open(p).read()
            assert t.count(old) >= 1, (s["id"], f, "not found", old)
            assert t.count(old) == 1, (s["id"], f, "ambiguous", t.count(old))
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.check_output(["git", "-C", w + "/r", "diff"], text=True)
        assert diff
        o = "/verif/seeded/" + s["id"]
        os.makedirs(o, exist_ok=True)
        open(o + "/patch.diff", "w").write(diff)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(o + "/meta.json", "w"), indent=1)
        open(o + "/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.path.join(os.getcwd(), 'src'))\n" + s["demo"].lstrip("\n"))
        open(o + "/demo.sh", "w").write('#!/bin/bash\n# exit 0: the property holds for this input\nD=$(cd "$(dirname "$0")" && pwd)\n'
                                        'PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 exec /opt/venv/bin/python "$D/demo.py"\n')
        os.chmod(o + "/demo.sh", 0o755)
        print("wrote", s["id"])
    finally:
        subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", w + "/r"])
        shutil.rmtree(w, ignore_errors=True)
