"""P01: the compressed stochastic matrix obeys ordinary matrix algebra."""
from fsv.runner import Case
from .common import *

BUDGET = {"quick": 60, "thorough": 800}


def binop(cx, op, n, ka, kb, mxa=None, mxb=None, da=None, db=None, sh=False):
    A, DA = stoch(cx, "A", n, ka, mxa, diag=da, shuffle=sh)
    B, DB = stoch(cx, "B", n, kb, mxb, diag=db)
    if op == "add":
        C, D = A + B, d_add(DA, DB)
    elif op == "sub":
        C, D = A - B, d_add(DA, DB, -1)
    else:
        C, D = A @ B, d_mul(DA, DB)
    cx.check(op + ": shape", tuple(C.shape) == (n, n))
    cx.eq(op + ": equals the dense result", C.toarray(), D)
    cx.eq(op + ": left operand unchanged", A.toarray(), DA)
    cx.eq(op + ": right operand unchanged", B.toarray(), DB)


def chain(cx, n, kinds, mx=2):
    """longer histories: results of operations are again usable operands"""
    ms = [stoch(cx, "ABCDE"[i], n, k, mx, min_nz=1, diag=1.0) for i, k in enumerate(kinds)]
    M, D = ms[0]
    for i, (A, DA) in enumerate(ms[1:]):
        M, D = M @ A, d_mul(D, DA)
    cx.eq("product chain", M.toarray(), D)
    E = M - ms[0][0]
    cx.eq("delta then restore", (ms[0][0] + E).toarray(), D)


def unary(cx, n, kind):
    np = cx.np
    A, DA = stoch(cx, "A", n, kind)
    s = cx.real("s")
    op = cx.choose("op", ["mul", "rmul", "npmul", "T", "subd", "addd", "copy", "dict"])
    if op == "mul":
        C, D = A * s, d_scale(DA, s)
    elif op == "rmul":
        C, D = s * A, d_scale(DA, s)
    elif op == "npmul":      # the numpy scalars that array elements are
        w = cx.choose("scalar", [np.float64(-2.0), np.float32(0.5), np.int64(3), np.int32(-1)])
        C, D = w * A, d_scale(DA, float(w))
        cx.eq("rmul: equals the dense result", (A * w).toarray(), D)
    elif op == "T":
        C, D = A.T, d_T(DA)
    elif op == "subd":
        C, D = A.sub_diag(s), d_add(DA, d_eye(n, s), -1)
    elif op == "addd":
        C, D = A.add_diag(s), d_add(DA, d_eye(n, s))
    elif op == "copy":
        C, D = A.copy(), DA
        A.T_small.data[:] = 7.0
        A.diag_val = 5.0
        cx.eq("copy is independent", C.toarray(), DA)
        return
    else:
        S = cx.mod("sparse_stoch_mat").SparseStochMat
        C, D = S(**A.to_dict()), DA
    cx.eq(op + ": equals the dense result", C.toarray(), D)
    cx.eq(op + ": csr view", C.tocsr(), D)
    cx.eq(op + ": operand unchanged", A.toarray(), DA)


def mixed(cx, n, kind, xk="coarse", mx=2):
    """with ordinary sparse matrices / arrays on either side"""
    np = cx.np
    A, DA = stoch(cx, "A", n, kind, mx)
    X, DX = csr(cx, "X", pattern(cx, "Xp", n, n, xk))
    form = cx.choose("form", ["csr", "csc", "arr"])
    if form == "csc":
        X = X.tocsc()
    elif form == "arr":
        X = np.array(DX) if not cx.sym else cx.np.array(DX, dtype=np.float64)
    op = cx.choose("op", ["add", "sub", "mm"])
    C = A + X if op == "add" else A - X if op == "sub" else A @ X
    D = d_add(DA, DX) if op == "add" else d_add(DA, DX, -1) if op == "sub" else d_mul(DA, DX)
    cx.eq(op + " with " + form, C, D)
    v = cx.reals("v", n)
    y = A @ cx.array(v)
    cx.eq("matrix-vector", y, [total(DA[i][j] * v[j] for j in range(n)) for i in range(n)])


def reverse(cx, n, kind, xk="coarse", mx=2):
    """ordinary matrix, array or vector on the left"""
    np = cx.np
    A, DA = stoch(cx, "A", n, kind, mx)
    X, DX = csr(cx, "X", pattern(cx, "Xp", n, n, xk))
    form = cx.choose("form", ["csr", "csc", "arr", "vec"])
    if form == "vec":
        v = cx.reals("v", n)
        cx.eq("vector-matrix", cx.array(v) @ A, [total(v[i] * DA[i][j] for i in range(n)) for j in range(n)])
        cx.eq("operand unchanged", A.toarray(), DA)
        return
    if form == "csc":
        X = X.tocsc()
    elif form == "arr":
        X = cx.np.array(DX, dtype=np.float64)
    op = cx.choose("op", ["add", "sub", "mm"])
    C = X + A if op == "add" else X - A if op == "sub" else X @ A
    D = d_add(DX, DA) if op == "add" else d_add(DX, DA, -1) if op == "sub" else d_mul(DX, DA)
    cx.eq(op + " from the right of " + form, C, D)
    cx.eq("operand unchanged", A.toarray(), DA)
    cx.eq("left operand unchanged", X, DX)


def cases(tier):
    q = tier == "quick"
    mods = ("sparse_stoch_mat",)
    cs = []
    for op in ("add", "sub", "mm"):
        def c(name, **k):
            kz = k.pop("kz", False)
            cs.append(Case(f"{op}-{name}", binop, dict(op=op, **k), mods, keepz=kz))
        c("wide-kz", n=8, ka="wide", kb="wide:steps", kz=True, da=1.0 if op == "mm" else None, db=1.0 if op == "mm" else None)
        if op == "mm":
            c("n2-coarse", n=2, ka="coarse", kb="full", mxb=1)
            c("n3-coarse-kz", n=3, ka="coarse", kb="full", kz=True)
            c("n3-coarser-kz", n=3, ka="full", kb="coarse", kz=True, da=1.0, db=1.0)
            c("n4-full-kz", n=4, ka="full", kb="full", da=1.0, db=1.0, kz=True)
        else:
            c("n3-shuffled", n=3, ka="full", kb="coarse", sh=True, da=1.0, db=1.0)
            c("n2-any", n=2, ka="any", kb="coarse")
            c("n3-coarse", n=3, ka="coarse", kb="full")
            c("n4-full", n=4, ka="full", kb="full")
        if not q:
            c("n2-full", n=2, ka="full", kb="full", da=1.0)
            c("n3-any-kz", n=3, ka="any", kb="coarse", kz=True)
            c("n5-full-kz", n=5, ka="full", kb="full", kz=True)
            c("n4-coarse-kz", n=4, ka="coarse", kb="coarse", kz=True)
            c("n3-coarse2", n=3, ka="coarse", kb="coarse")
            c("n3-any2", n=3, ka="any", kb="coarse", mxa=2, mxb=2)
    cs.append(Case("chain3-n3-kz", chain, dict(n=3, kinds=("full", "full", "full")), mods, keepz=True))
    cs.append(Case("unary-n3-kz", unary, dict(n=3, kind="coarse"), mods, keepz=True))
    cs.append(Case("unary-n2-any", unary, dict(n=2, kind="any"), mods))
    cs.append(Case("mixed-n2", mixed, dict(n=2, kind="full"), mods))
    cs.append(Case("mixed-n3-kz", mixed, dict(n=3, kind="full"), mods, keepz=True))
    cs.append(Case("reverse-n2", reverse, dict(n=2, kind="full"), mods))
    cs.append(Case("reverse-n3-kz", reverse, dict(n=3, kind="full"), mods, keepz=True))
    cs.append(Case("chain-wide-kz", chain, dict(n=8, kinds=("wide:star", "wide:ring", "wide:steps", "wide:blocks"), mx=4), mods, keepz=True))
    cs.append(Case("unary-wide-kz", unary, dict(n=8, kind="wide"), mods, keepz=True))
    cs.append(Case("mixed-wide-kz", mixed, dict(n=7, kind="wide:steps", xk="wide", mx=4), mods, keepz=True))
    cs.append(Case("reverse-wide-kz", reverse, dict(n=7, kind="wide:steps", xk="wide", mx=4), mods, keepz=True))
    if not q:
        cs.append(Case("mixed-n3-coarse", mixed, dict(n=3, kind="coarse"), mods))
        cs.append(Case("chain3-n3", chain, dict(n=3, kinds=("full", "full", "full")), mods))
        cs.append(Case("chain4-n4-kz", chain, dict(n=4, kinds=("full",) * 4), mods, keepz=True))
        cs.append(Case("unary-n4-kz", unary, dict(n=4, kind="coarse"), mods, keepz=True))
    return cs

BOUNDS = ['2-4 nodes (thorough: 5), arbitrary or listed sets of active rows and sparsity patterns (empty rows, shuffled column order), arbitrary real entries and diagonal values; chains of 3-4 operations',
          "larger structures: 8 nodes with listed active rows and patterns (ring, blocks, star, skew), arbitrary values"]
OUTSIDE = ['int64 index arrays', 'matrices whose compressed part is stored with unsorted active rows']
ASSUMPTIONS = ['exact real arithmetic in place of float64']
