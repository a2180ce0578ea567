"""mutpyx.py FILE N SEED PROPS...: textual mutants of a Cython source, each run against the quick checks."""
import os, random, re, shutil, subprocess, sys, tempfile
f, n, seed, *ps = sys.argv[1:]
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open("/repo/src/flowstab/" + f).read().split("\n")
doc, ms, infn = False, [], False
for i, l in enumerate(src):
    if l.count('"""') % 2:
        doc = not doc
        continue
    if re.match(r"(cp)?def ", l):
        infn = True
        continue
    c = l.split("#")[0]
    if doc or not infn or not c.strip() or "cdef" in c and "=" not in c or l.startswith("@"):
        continue
    for a, b in ((" + ", " - "), (" - ", " + "), (" < ", " <= "), (" > ", " >= "), (" == ", " != "), ("+=", "-="), ("-=", "+="),
                 ("+1", ""), ("-1", ""), ("= 0", "= 1"), ("= 1", "= 0"), ("*", "+"), ("/", "*"), ("p1", "p2"), ("p2", "p1"),
                 (" and ", " or "), ("A", "B"), ("B", "A"), ("row", "col"), ("indices", "indptr"), ("indptr", "indices"),
                 ("0", "1"), ("True", "False"), ("i]", "j]"), ("break", "continue"), ("continue", "break"), ("< 0", "<= 0"), ("> 0", ">= 0")):
        for m in re.finditer(re.escape(a), c):
            if a in "AB" and not re.match(r"\b[AB](data|ind|nz|diag|size|_)", c[m.start():]):
                continue
            ms.append((i, c[:m.start()] + b + c[m.end():]))
    if re.match(r"\s+\S.*=", c) and "cdef" not in c and not c.rstrip().endswith((",", "\\", "(")) and c.count("(") == c.count(")"):
        ms.append((i, re.match(r"\s*", c).group() + "pass"))
random.Random(int(seed)).shuffle(ms)
w = tempfile.mkdtemp(prefix="mp.")
shutil.copytree("/repo", w + "/r", symlinks=True, ignore=shutil.ignore_patterns(".git"))
p = w + "/r/src/flowstab/" + f
for i, new in ms[:int(n)]:
    L = list(src)
    L[i] = new
    open(p, "w").write("\n".join(L))
    out = []
    for q in ps:
        r = subprocess.run([HERE + "/run", q, "quick"], capture_output=True, text=True,
                           env=dict(os.environ, FSV_SRC=w + "/r/src", FSV_EVID=w + "/ev", FSV_FIRST="1"))
        inc = re.findall(r"inconclusive=(\d+)", r.stdout)
        out.append((q, r.returncode, *inc))
        if r.returncode == 1:
            break
    print("KILLED" if out[-1][1] == 1 else "SURVIVED", f"{f}:{i + 1}", repr(src[i].strip()), "->", repr(new.strip()), out, flush=True)
shutil.rmtree(w)
