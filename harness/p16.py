"""P16: without the compiled extension or without MKL everything still gives the defined result."""
from fsv.runner import Case
from . import p01, p02, p03, p04, p06, p07

BUDGET = {"quick": 75, "thorough": 800}
BOUNDS = ["the operations of P01-P04, P06 and P07 with the package loaded as if cython, sparse_dot_mkl, or both were not "
          "installed: 2-3 nodes, arbitrary or listed sparsity patterns, arbitrary real entries, arbitrary moves",
          "larger structures: 7-8 nodes with listed patterns and partitions, arbitrary values"]
OUTSIDE = ["aggregation of sparse covariances and sparse Louvain without cython (declared NotImplementedError)"]

LIBS = {"cy": ("cython",), "mkl": ("sparse_dot_mkl",), "both": ("cython", "sparse_dot_mkl")}


class Without:
    """the context with the package loaded without some optional packages"""

    def __init__(self, cx, lib):
        self.__dict__.update(_cx=cx, _lib=LIBS[lib])

    def __getattr__(self, n):
        return getattr(self._cx, n)

    def __setattr__(self, n, v):
        setattr(self._cx, n, v)

    def mod(self, name):
        return self._cx.variant(name, self._lib)


def run(cx, mod, fn, lib, **k):
    getattr({"p01": p01, "p02": p02, "p03": p03, "p04": p04, "p06": p06, "p07": p07}[mod], fn)(Without(cx, lib), **k)


def subst(cx, n, pat):
    """the second fallback module"""
    m = cx.mod("_cython_sparse_stoch_subst")
    np = cx.np
    P = p02.pattern(cx, "p", n, n, pat)
    X, D = p02.csr(cx, "m", P)
    t = cx.choose("sum", [1.0, 2.0])
    m.inplace_csr_row_normalize(X.data, X.indptr, n, t)
    cx.eq("normalised rows", X, p02.norm_rows(cx, D, P, [t] * n))
    M, D, nz = p02.stochastic(cx, "M", n, pat, 1.0)
    size, data, ind, ptr, rc, dv = m.sparse_stoch_from_full_csr(np.array(nz, dtype=np.int32), M.data, M.indices, M.indptr, 1.0)
    A = cx.mod("sparse_stoch_mat").SparseStochMat(size, data, ind, ptr, rc, dv)
    cx.eq("compressed", A.toarray(), D)


def cases(tier):
    q = tier == "quick"
    cs = []

    def C(name, mod, fn, libs=("cy",), keepz=False, **k):
        for lib in libs:
            cs.append(Case(f"{name}-{lib}", run, dict(mod=mod, fn=fn, lib=lib, **k), ("sparse_stoch_mat",), keepz=keepz))
    for op in ("add", "sub", "mm"):
        C(f"{op}-n3", "p01", "binop", keepz=True, op=op, n=3, ka="coarse", kb="full")
    C("mm-n3", "p01", "binop", ("mkl",), keepz=True, op="mm", n=3, ka="coarse", kb="full")
    C("unary-n2", "p01", "unary", n=2, kind="coarse")
    C("mixed-n2", "p01", "mixed", ("both",), n=2, kind="full")
    C("roundtrip-3", "p02", "roundtrip", n=3, pat="coarse", diag="any")
    C("roundtrip-0", "p02", "roundtrip", n=2, pat="any", diag="zero")
    C("small-3", "p02", "small", n=3, pat="coarse")
    C("normalize-csr", "p02", "normalize", n=2, pat="any", kind="csr")
    C("normalize-stoch", "p02", "normalize", n=3, pat="coarse", kind="stoch")
    C("products", "p02", "products", ("mkl",), keepz=True, n=3, pat="coarse")
    C("outer", "p02", "outer", ("mkl",), n=3)
    C("views-vec", "p03", "views", n=2, how="direct", kind="any", which=("elem", "sums"))
    C("views-scalar", "p03", "views", n=3, how="scalar", kind="coarse", which=("sums",))
    C("views-forward", "p03", "views", ("both",), n=2, how="fwd", kind="any", which=("elem", "copy"))
    C("gain-sparse", "p04", "sparse", n=2, kind="any")
    C("gain-sparse-n3", "p04", "sparse", n=3, kind="coarse")
    C("gain-scalar", "p04", "sparse", n=3, kind="coarse", scalar=True)
    C("gain-dense", "p04", "dense", n=3, src="S")
    C("gain-dense-T", "p04", "dense", n=3, src="T")
    C("twoside-T", "p04", "twoside", n=2, src="T")
    C("louvain", "p06", "louvain", n=2, init=True, progress=True)
    C("louvain-n3", "p06", "louvain", n=3, init=False, progress=True, sym_s=True, draws=0)
    C("louvain-T", "p06", "fromT", n=2, sparse=False, kind="full", given=True)
    for m in ("nvi", "nmi"):
        C(m, "p07", "pairs", n=3, measure=m, forms=["sets", "gaps"])
    cs.append(Case("subst", subst, dict(n=2, pat="any"), ("sparse_stoch_mat",)))
    for op in ("add", "sub", "mm"):
        C(f"{op}-wide", "p01", "binop", ("cy", "mkl") if op == "mm" else ("cy",), keepz=True, op=op, n=8, ka="wide:star", kb="wide:steps", da=1.0)
    C("roundtrip-wide", "p02", "roundtrip", keepz=True, n=7, pat="wide:steps", diag="one")
    C("normalize-wide", "p02", "normalize", n=7, pat="wide:star", kind="csr", lo=0.01)
    C("products-wide", "p02", "products", ("mkl",), keepz=True, n=7, pat="wide:steps")
    C("sums-wide", "p03", "views", n=7, how="direct", kind="wide:steps", which=("sums",))
    C("gain-sparse-wide", "p04", "sparse", n=7, kind="wide:steps")
    C("gain-dense-wide", "p04", "dense", n=7, src="S")
    C("nvi-wide", "p07", "pairs", n=8, measure="nvi", forms=["sets"])
    if not q:
        for op in ("add", "sub", "mm"):
            C(f"{op}-n3-any", "p01", "binop", ("cy", "both"), op=op, n=3, ka="any", kb="coarse", mxa=2, mxb=2)
        C("chain", "p01", "chain", ("cy", "mkl", "both"), keepz=True, n=3, kinds=("full",) * 3)
        C("gain-sparse-n3-any", "p04", "sparse", n=3, kind="any")
        C("gain-sym", "p04", "sparse", n=3, kind="coarse", sym=True)
        C("twoside", "p04", "twoside", n=3)
        C("nvi-4", "p07", "pairs", n=4, measure="nvi", forms=["sets"])
        C("louvain-n3-init", "p06", "louvain", n=3, init=True, sym_s=True, draws=2, nodiag=True)
        C("products-n4", "p02", "products", ("mkl",), keepz=True, n=4, pat="coarse")
    return cs
