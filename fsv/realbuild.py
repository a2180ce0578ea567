"""Builds the extension modules from /repo's working tree, with Cython bounds
checks and libstdc++ assertions switched on, into a scratch directory."""
from __future__ import annotations

import hashlib
import os
import re
import shutil
import subprocess
import sys
import sysconfig
import tempfile
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("FSV_SRC", "/repo/src")
PY = "/opt/venv/bin/python"
EXTS = ("_cython_fast_funcs", "_cython_sparse_stoch")


def _files():
    d = os.path.join(SRC, "flowstab")
    out = []
    for f in sorted(os.listdir(d)):
        if f.startswith("_cython_") and f.endswith((".cpp", ".c")):
            continue
        if f.endswith((".pyx", ".pxd", ".pxi", ".h", ".hpp", ".cpp", ".c")):
            out.append(f)
    return d, out


def key():
    d, fs = _files()
    h = hashlib.sha256(b"v2")
    for f in fs:
        h.update(f.encode())
        h.update(open(os.path.join(d, f), "rb").read())
    return h.hexdigest()[:24]


def build():
    """returns (dir, error)"""
    cache = os.path.join(VERIF, ".cache")
    os.makedirs(cache, exist_ok=True)
    final = os.path.join(cache, "build-" + key())
    if os.path.isdir(final):
        return final, None
    tmp = tempfile.mkdtemp(prefix="b-", dir=cache)
    pk = os.path.join(tmp, "flowstab")
    os.makedirs(pk)
    d, fs = _files()
    open(os.path.join(pk, "__init__.py"), "w").close()
    for f in fs:
        s = open(os.path.join(d, f)).read()
        if f.endswith(".pyx"):
            s = re.sub(r"boundscheck\(\s*False\s*\)", "boundscheck(True)", s)
            s = re.sub(r"boundscheck\s*=\s*False", "boundscheck=True", s)
        open(os.path.join(pk, f), "w").write(s)
    import numpy
    inc = [sysconfig.get_paths()["include"], numpy.get_include(), pk]
    suffix = sysconfig.get_config_var("EXT_SUFFIX")
    errs = []

    def one(m):
        try:
            r = subprocess.run([PY, "-m", "cython", "--cplus", "-3", f"flowstab/{m}.pyx", "-o", f"{m}.cpp"],
                               cwd=tmp, capture_output=True, text=True, timeout=300)
            if r.returncode:
                errs.append(r.stderr[-1500:])
                return
            cmd = ["g++", "-shared", "-fPIC", "-O1", "-w", "-DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION",
                   "-D_GLIBCXX_ASSERTIONS"] + [f"-I{i}" for i in inc] + [f"{m}.cpp", "-o", m + suffix]
            r = subprocess.run(cmd, cwd=tmp, capture_output=True, text=True, timeout=600)
            if r.returncode:
                errs.append(r.stderr[-1500:])
        except Exception as e:  # noqa: BLE001
            errs.append(str(e))
    ts = [threading.Thread(target=one, args=(m,)) for m in EXTS]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        shutil.rmtree(tmp, ignore_errors=True)
        return None, "\n".join(errs)
    shutil.rmtree(pk, ignore_errors=True)
    for m in EXTS:
        os.remove(os.path.join(tmp, m + ".cpp"))
    try:
        os.rename(tmp, final)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return final, None


class Builder:
    def __init__(self):
        self.res = None
        self.t = threading.Thread(target=self._run, daemon=True)
        self.t.start()

    def _run(self):
        try:
            self.res = build()
        except Exception as e:  # noqa: BLE001
            self.res = (None, f"{type(e).__name__}: {e}")

    def wait(self):
        self.t.join()
        return self.res


def start():
    return Builder()


if __name__ == "__main__":
    print(build())
