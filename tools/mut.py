"""mut.py [--n N] [--seed S] [--file F] [--fn REGEX] [--out DIR]: automatic mutants of the
repository in a scratch copy, each run against the quick checks of the mapped properties;
survivors are listed (and run against the stable tests with --tests)."""
import argparse, ast, json, os, random, re, shutil, subprocess, sys, time

PKG = "src/flowstab"
# (file, function regex) -> properties, first match wins
MAP = [
 ("sparse_stoch_mat.py", r"sparse_autocov_csr_mat|SparseAutocov.*", ["P03", "P04"]),
 ("sparse_stoch_mat.py", r"inplace_csr_row|sparse_outer|sparse_gram|sparse_matmul|inplace_diag|rebuild_nnz|csr_|.*from_full|.*to_full|create_diag|.*normalize|.*threshold", ["P02", "P01"]),
 ("sparse_stoch_mat.py", r"SparseStochMat.*", ["P01", "P02"]),
 ("sparse_stoch_mat.py", r".*", ["P02", "P01"]),
 ("flow_stability.py", r".*", ["P14"]),
 ("network_clustering.py", r"Partition.*", ["P05"]),
 ("network_clustering.py", r"FlowIntegral.*", ["P11"]),
 ("network_clustering.py", r"static_clustering|run_multi_louvain", ["P18"]),
 ("network_clustering.py", r"SparseClustering.*", ["P06", "P04", "P17"]),
 ("network_clustering.py", r"(Base)?Clustering.*", ["P04", "P06"]),
 ("network_clustering.py", r"norm.*|avg.*|jaccard.*|.*info.*|sort_clusters", ["P07"]),
 ("network_clustering.py", r".*", ["P07", "P06"]),
 ("temporal_network.py", r".*(__init__|merge|static_adj|from_instant|load_instant|_compute_times|_sort|.*label.*)", ["P12", "P08"]),
 ("temporal_network.py", r".*(compute_laplacian|time_grid|_compute_time).*", ["P08"]),
 ("temporal_network.py", r".*(save|load).*", ["P13"]),
 ("temporal_network.py", r".*_compute_delta.*", ["P13"]),
 ("temporal_network.py", r".*_clear.*", ["P15"]),
 ("temporal_network.py", r".*compute(_lin)?_transition.*", ["P10", "P15"]),
 ("temporal_network.py", r".*(compute_inter|compute_lin|stationary|lapl_expm|expm|spectral|lin_approx).*", ["P09", "P15", "P17"]),
 ("temporal_network.py", r"set_to.*|remove_nnz.*|numpy_rebuild.*|csc_row.*", ["P02"]),
 ("temporal_network.py", r".*(subspace|parallel).*", ["P17", "P09"]),
 ("temporal_network.py", r".*", ["P12", "P08", "P15"]),
 ("synth_temp_network.py", r".*", ["P20"]),
 ("state_tracking.py", r".*", ["P14"]),
]
BYFILE = {"parallel_clustering.py": ["P17"], "parallel_expm.py": ["P17"], "_cython_subst.py": ["P16"], "_cython_sparse_stoch_subst.py": ["P16"]}

MODULE = False
BYFILE.update({"scripts/run_laplacians_transmats.py": ["P21"], "scripts/run_cov_integrals.py": ["P22"], "scripts/run_clusterings.py": ["P23"]})


def props(fn_file, qual):
    for f, r, p in MAP:
        if f == fn_file and re.fullmatch(r, qual):
            return p
    return BYFILE.get(fn_file, [])


CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">="], ast.Gt: [">=", "<"], ast.GtE: [">", "<="], ast.Eq: ["!="],
       ast.NotEq: ["=="], ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.FloorDiv: ["/"], ast.MatMult: [], ast.Pow: ["*"]}
ATTR = {"T": None, "min": "max", "max": "min", "argmin": "argmax", "argmax": "argmin", "start_times": "ending_times", "ending_times": "starting_times",
        "starting_times": "ending_times", "intersection": "union", "union": "intersection", "p1": "p2", "p2": "p1",
        "median": "mean", "tocsr": None, "copy": None, "append": None, "indices": "indptr", "floor": "ceil", "ceil": "floor",
        "source_nodes": "target_nodes", "target_nodes": "source_nodes", "cumsum": None, "union1d": "intersect1d", "difference": "union"}


class V(ast.NodeVisitor):
    def __init__(self, src):
        self.src, self.out, self.q = src, [], []
        self.off = [0]
        for l in src.encode().split(b"\n"):
            self.off.append(self.off[-1] + len(l) + 1)

    def pos(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def add(self, n, new, kind):
        if (self.q or MODULE) and not re.search(r"time\.time\(|verbose|t0|PID", self.seg(n)):
            a, b = self.pos(n)
            self.out.append((a, b, new, ".".join(self.q) or "module", n.lineno, kind))

    def seg(self, n):
        a, b = self.pos(n)
        return self.src.encode()[a:b].decode()

    def visit_FunctionDef(self, n):
        self.q.append(n.name)
        self.generic_visit(n)
        self.q.pop()

    def visit_ClassDef(self, n):
        self.q.append(n.name)
        self.generic_visit(n)
        self.q.pop()

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                self.add(n, f"({self.seg(n.left)} {o} {self.seg(n.comparators[0])})", "cmp")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        for o in BIN.get(type(n.op), []):
            if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str) or isinstance(n.left, ast.JoinedStr):
                continue
            if isinstance(n.right, ast.Constant) and isinstance(n.right.value, str) or isinstance(n.right, ast.JoinedStr):
                continue
            self.add(n, f"({self.seg(n.left)} {o} {self.seg(n.right)})", "bin")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        o = " or " if isinstance(n.op, ast.And) else " and "
        self.add(n, "(" + o.join("(" + self.seg(v) + ")" for v in n.values) + ")", "bool")
        for v in n.values:
            rest = [w for w in n.values if w is not v]
            op = " and " if isinstance(n.op, ast.And) else " or "
            self.add(n, "(" + op.join("(" + self.seg(w) + ")" for w in rest) + ")", "bool-drop")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.Not, ast.USub)):
            self.add(n, "(" + self.seg(n.operand) + ")", "unary")
        self.generic_visit(n)

    def visit_Constant(self, n):
        if isinstance(n.value, bool):
            self.add(n, str(not n.value), "const")
        elif isinstance(n.value, int):
            self.add(n, f"({n.value}+1)", "const")
            if n.value:
                self.add(n, f"({n.value}-1)", "const")
        elif isinstance(n.value, float):
            self.add(n, f"({n.value}*2+1)", "const")

    def visit_Attribute(self, n):
        if n.attr in ATTR:
            new = ATTR[n.attr]
            if new:
                self.add(n, self.seg(n.value) + "." + new, "attr")
            elif n.attr == "T":
                self.add(n, self.seg(n.value), "attr")
        self.generic_visit(n)

    def visit_Call(self, n):
        f = self.seg(n.func)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "copy" and not n.args:
            self.add(n, self.seg(n.func.value), "nocopy")
        if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            a = [self.seg(x) for x in n.args]
            if a[0] != a[1] and not re.match(r"(isinstance|getattr|hasattr|setattr|print|logger|logging|super)", f):
                a[0], a[1] = a[1], a[0]
                a += [self.seg(k.value) if k.arg is None else f"{k.arg}={self.seg(k.value)}" for k in n.keywords]
                self.add(n, f"{f}({', '.join(a)})", "swapargs")
        for k in n.keywords:
            if k.arg:
                a = [self.seg(x) for x in n.args] + [f"{j.arg}={self.seg(j.value)}" for j in n.keywords if j is not k and j.arg]
                self.add(n, f"{f}({', '.join(a)})", "dropkw-" + k.arg)
        if re.match(r"(.*\.)?(print|info|debug|warning|logger.*)$", f):
            return
        if f in ("range", "reversed", "sorted", "set", "abs") and len(n.args) == 1 and f != "range":
            self.add(n, self.seg(n.args[0]), "dropcall")
        self.generic_visit(n)

    def stmt(self, n):
        s = self.seg(n)
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Expr) and re.match(r"(print|logger|logging|log)", s):
            return
        if isinstance(n, (ast.Expr, ast.AugAssign, ast.Continue, ast.Break, ast.Assign)):
            if isinstance(n, ast.Assign) and not any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in n.targets):
                return
            self.add(n, "pass", "delstmt")
        if isinstance(n, ast.If):
            self.add(n.test, "(True)", "iftrue")
            self.add(n.test, "(False)", "iffalse")
        if isinstance(n, ast.AugAssign):
            m = {ast.Add: "-=", ast.Sub: "+=", ast.Mult: "/=", ast.Div: "*="}.get(type(n.op))
            if m:
                self.add(n, f"{self.seg(n.target)} {m} {self.seg(n.value)}", "aug")
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name):
            pass

    def generic_visit(self, n):
        if isinstance(n, ast.stmt) and not isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            self.stmt(n)
        if isinstance(n, ast.Raise) or isinstance(n, ast.Assert):
            return
        if isinstance(n, ast.JoinedStr):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and re.match(r"(print|logger|logging|log)", self.seg(n)):
            return
        super().generic_visit(n)


PYXRE = [(r" < ", [" <= "]), (r" <= ", [" < "]), (r" > ", [" >= "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" \+ ", [" - "]),
         (r" - ", [" + "]), (r"\*", ["/"]), (r" \+= ", [" -= ", " = "]), (r" -= ", [" += "]), (r"\[i\]", ["[j]"]), (r"\[row\]", ["[col]"]),
         (r" \+ 1\b", [""]), (r"\+1\b", [""]), (r" 0\b", [" 1"]), (r"\band\b", ["or"]), (r"\bbreak\b", ["pass"]), (r"\bcontinue\b", ["pass"]),
         (r"\bp1\b", ["p2"]), (r"\bp2\b", ["p1"]), (r"\bTrue\b", ["False"])]
PYXP = {"_cython_sparse_stoch.pyx": ["P02", "P03", "P01", "P04"], "_cython_fast_funcs.pyx": ["P06", "P04", "P07"],
        "_cython_sparse_stoch_subst.py": ["P16"]}


def pyx(path):
    src = open(path).read()
    out, q, off = [], "", 0
    indoc = False
    for i, l in enumerate(src.split("\n")):
        m = re.match(r"(?:cpdef|cdef|def)\b.*?(\w+)\s*\(", l)
        if m:
            q = m.group(1)
        if l.count('"""') % 2:
            indoc = not indoc
        st = l.strip()
        if q and not indoc and st and not st.startswith(("#", "cdef", "def", "cpdef", "@", '"', "'", "import", "cimport", "raise")) and "nogil" not in l:
            for r, news in PYXRE:
                for mm in re.finditer(r, l):
                    for nw in news:
                        out.append((off + mm.start(), off + mm.end(), nw, q, i + 1, "re"))
            if re.match(r"[\w\[\]\.]+ [-+*/]?= ", st):
                out.append((off + len(l) - len(l.lstrip()), off + len(l), "pass", q, i + 1, "delstmt"))
        off += len(l.encode()) + 1
    return out


def muts(path):
    if path.endswith(".pyx"):
        return pyx(path)
    v = V(open(path).read())
    v.visit(ast.parse(v.src))
    return v.out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--n", type=int, default=50)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--file", default=None)
    ap.add_argument("--fn", default=".*")
    ap.add_argument("--out", default="/tmp/mut")
    ap.add_argument("--budget", default="20")
    ap.add_argument("--props", default=None)
    ap.add_argument("--per", type=int, default=6, help="max per function")
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    global MODULE
    MODULE = bool(a.file and a.file.startswith("scripts/"))
    os.makedirs(a.out, exist_ok=True)
    w = a.out + "/w%d" % os.getpid()
    shutil.copytree("/repo", w, symlinks=True, ignore=shutil.ignore_patterns(".git"))
    src = os.path.join(w, PKG)
    allm = []
    for f in ([a.file] if a.file else sorted(os.listdir(src))):
        if f.endswith((".py", ".pyx")) and f not in ("__init__.py", "_version.py"):
            for m in muts(os.path.join(src, f)):
                p = a.props.split(",") if a.props else PYXP.get(f) or props(f, m[3])
                if "timing" in m[3] or "__repr__" in m[3] or m[3].startswith("test"):
                    continue
                if p and re.search(a.fn, m[3]):
                    allm.append((f,) + m + (p,))
    rng = random.Random(a.seed)
    rng.shuffle(allm)
    cnt, sel = {}, []
    for m in allm:
        k = (m[0], m[4])
        if cnt.get(k, 0) < a.per:
            cnt[k] = cnt.get(k, 0) + 1
            sel.append(m)
    print(len(allm), "mutants,", len(sel), "selected", flush=True)
    sel = sel[:a.n]
    if a.list:
        for m in sel:
            print(m[0], m[4], m[5], m[6], repr(m[3]))
        shutil.rmtree(w)
        return
    surv = 0
    for i, (f, x, y, new, q, line, kind, ps) in enumerate(sel):
        p = os.path.join(src, f)
        o = open(p, "rb").read()
        old = o[x:y].decode()
        open(p, "wb").write(o[:x] + new.encode() + o[y:])
        res = None
        t0 = time.time()
        try:
            if p.endswith(".py"):
                try:
                    compile(open(p).read(), p, "exec")
                except SyntaxError:
                    continue
            tr = []
            for pid in ps:
                r = subprocess.run([os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "run"), pid, "quick", "--budget", a.budget], capture_output=True, text=True,
                                   env=dict(os.environ, FSV_SRC=w + "/src", FSV_EVID=a.out + "/ev", FSV_FIRST="1"))
                tr.append((pid, r.returncode))
                if r.returncode == 1:
                    res = pid
                    break
                if r.returncode not in (0, 1):
                    tr.append((r.stdout + r.stderr)[-300:])
        finally:
            open(p, "wb").write(o)
        d = dict(file=f, fn=q, line=line, kind=kind, old=old, new=new, killed=res, tr=tr, t=round(time.time() - t0, 1))
        open(a.out + "/log.jsonl", "a").write(json.dumps(d) + "\n")
        if res is None:
            surv += 1
            print(f"SURVIVED {f}:{line} {q} [{kind}] {old!r} -> {new!r} {tr}", flush=True)
        else:
            print(f"killed {f}:{line} {q} [{kind}] by {res} {d['t']}s", flush=True)
    print("survivors", surv, "of", len(sel))
    shutil.rmtree(w)


main()
