"""Runs scipy.sparse's own Python layer over symbolic data: its ``np`` is
replaced by the proxy and the compiled ``_sparsetools`` kernels by models."""
from __future__ import annotations

import sys
import types
import numpy as np

from .engine import R, Unsupported, mk_bool
from . import symnp
from .symnp import NP, SymArray, is_sym, tosym, ZERO

import scipy.sparse as sp
import scipy.sparse._sparsetools as ST
import scipy.sparse.linalg  # noqa: F401
import scipy.sparse.csgraph  # noqa: F401


def _anysym(a):
    return any(isinstance(x, symnp._SymMix) or isinstance(x, R) for x in a)


def _movement(native, data_in, data_out):
    """Kernels that only move data: run the native kernel on position tags."""
    def model(*args):
        args = list(args)
        din = args[data_in]
        dout = args[data_out] if data_out is not None else None
        src = din.view(np.ndarray).copy() if is_sym(din) else np.asarray(din).astype(object)
        tags = np.arange(1, src.size + 1, dtype=np.float64)
        args[data_in] = tags
        same = dout is din
        if data_out is None:
            raise Unsupported("movement kernel")
        if same:
            otags = tags
        else:
            otags = np.zeros(dout.size, dtype=np.float64)
        args[data_out] = otags
        r = native(*args)
        for i, t in enumerate(otags):
            t = int(t)
            if t:
                dout[i] = src[t - 1]
        return r
    return model


def m_get_csr_submatrix(M, N, Ap, Aj, Ax, *rest):
    src = Ax.view(np.ndarray)
    tags = np.arange(1, src.size + 1, dtype=np.float64)
    p, j, x = ST.get_csr_submatrix(M, N, Ap, Aj, tags, *rest)
    out = np.empty(x.size, dtype=object)
    for i, t in enumerate(x):
        out[i] = src[int(t) - 1]
    return p, j, out.view(SymArray)


def m_csr_todense(M, N, Ap, Aj, Ax, B):
    for i in range(M):
        for k in range(Ap[i], Ap[i + 1]):
            B[i, Aj[k]] = B[i, Aj[k]] + Ax[k]


def m_coo_todense(M, N, nnz, I, J, X, B, fortran):
    # B is raveled in memory order
    for n in range(nnz):
        ix = I[n] + M * J[n] if fortran else N * I[n] + J[n]
        B[ix] = B[ix] + X[n]


def m_coo_matvec(nnz, I, J, X, x, y):
    for n in range(nnz):
        y[I[n]] = y[I[n]] + X[n] * x[J[n]]


def m_csr_matvec(M, N, Ap, Aj, Ax, x, y):
    for i in range(M):
        s = y[i]
        for k in range(Ap[i], Ap[i + 1]):
            s = s + Ax[k] * x[Aj[k]]
        y[i] = s


def m_csc_matvec(M, N, Ap, Ai, Ax, x, y):
    for j in range(N):
        for k in range(Ap[j], Ap[j + 1]):
            y[Ai[k]] = y[Ai[k]] + Ax[k] * x[j]


def m_csr_matvecs(M, N, V, Ap, Aj, Ax, X, Y):
    for i in range(M):
        for k in range(Ap[i], Ap[i + 1]):
            for v in range(V):
                Y[i * V + v] = Y[i * V + v] + Ax[k] * X[Aj[k] * V + v]


def m_csc_matvecs(M, N, V, Ap, Ai, Ax, X, Y):
    for j in range(N):
        for k in range(Ap[j], Ap[j + 1]):
            for v in range(V):
                Y[Ai[k] * V + v] = Y[Ai[k] * V + v] + Ax[k] * X[j * V + v]


KEEPZ = False   # case option: symbolic sums are kept as stored entries even where they could be exactly 0


def _nz(x):
    if KEEPZ and isinstance(x, R) and not x.is_const:
        return True
    return bool(x != 0)


def m_csr_matmat(n_row, n_col, Ap, Aj, Ax, Bp, Bj, Bx, Cp, Cj, Cx):
    nnz = 0
    Cp[0] = 0
    for i in range(n_row):
        sums = {}
        order = []
        for jj in range(Ap[i], Ap[i + 1]):
            j = int(Aj[jj])
            v = Ax[jj]
            for kk in range(Bp[j], Bp[j + 1]):
                k = int(Bj[kk])
                if k not in sums:
                    sums[k] = ZERO
                    order.append(k)
                sums[k] = sums[k] + v * Bx[kk]
        for k in reversed(order):
            if _nz(sums[k]):
                Cj[nnz] = k
                Cx[nnz] = sums[k]
                nnz += 1
        Cp[i + 1] = nnz


def _binop(op, out_bool=False):
    def model(n_row, n_col, Ap, Aj, Ax, Bp, Bj, Bx, Cp, Cj, Cx):
        nnz = 0
        Cp[0] = 0
        for i in range(n_row):
            ra, rb = {}, {}
            for k in range(Ap[i], Ap[i + 1]):
                ra[int(Aj[k])] = ra.get(int(Aj[k]), ZERO) + Ax[k]
            for k in range(Bp[i], Bp[i + 1]):
                rb[int(Bj[k])] = rb.get(int(Bj[k]), ZERO) + Bx[k]
            for j in sorted(set(ra) | set(rb)):
                r = op(ra.get(j, ZERO), rb.get(j, ZERO))
                if _nz(r) if not out_bool else bool(r != 0):
                    Cj[nnz] = j
                    Cx[nnz] = r if not out_bool else True
                    nnz += 1
            Cp[i + 1] = nnz
    return model


def m_csr_diagonal(k, n_row, n_col, Ap, Aj, Ax, Y):
    fr = -k if k < 0 else 0
    fc = k if k > 0 else 0
    N = min(n_row - fr, n_col - fc)
    for i in range(N):
        s = ZERO
        for jj in range(Ap[fr + i], Ap[fr + i + 1]):
            if Aj[jj] == fc + i:
                s = s + Ax[jj]
        Y[i] = s


def m_csr_sample_values(M, N, Ap, Aj, Ax, n, Bi, Bj, Bx):
    for t in range(n):
        i = int(Bi[t])
        j = int(Bj[t])
        i = i + M if i < 0 else i
        j = j + N if j < 0 else j
        s = ZERO
        for k in range(Ap[i], Ap[i + 1]):
            if Aj[k] == j:
                s = s + Ax[k]
        Bx[t] = s


def m_csr_eliminate_zeros(M, N, Ap, Aj, Ax):
    nnz = 0
    row_end = 0
    for i in range(M):
        jj = row_end
        row_end = int(Ap[i + 1])
        while jj < row_end:
            x = Ax[jj]
            if bool(x != 0):
                Aj[nnz] = Aj[jj]
                Ax[nnz] = x
                nnz += 1
            jj += 1
        Ap[i + 1] = nnz


def m_csr_sum_duplicates(M, N, Ap, Aj, Ax):
    nnz = 0
    row_end = 0
    for i in range(M):
        jj = row_end
        row_end = int(Ap[i + 1])
        while jj < row_end:
            j = Aj[jj]
            x = Ax[jj]
            jj += 1
            while jj < row_end and Aj[jj] == j:
                x = x + Ax[jj]
                jj += 1
            Aj[nnz] = j
            Ax[nnz] = x
            nnz += 1
        Ap[i + 1] = nnz


def m_csr_sort_indices(M, Ap, Aj, Ax):
    for i in range(M):
        s, e = int(Ap[i]), int(Ap[i + 1])
        o = sorted(range(s, e), key=lambda k: Aj[k])
        jj = [int(Aj[k]) for k in o]
        xx = [Ax[k] for k in o]
        for t, k in enumerate(range(s, e)):
            Aj[k] = jj[t]
            Ax[k] = xx[t]


def m_csr_scale_rows(M, N, Ap, Aj, Ax, X):
    for i in range(M):
        for k in range(Ap[i], Ap[i + 1]):
            Ax[k] = Ax[k] * X[i]


def m_csr_scale_columns(M, N, Ap, Aj, Ax, X):
    for k in range(Ap[M]):
        Ax[k] = Ax[k] * X[Aj[k]]


def m_csr_row_index(n, rows, Ap, Aj, Ax, Bj, Bx):
    t = 0
    for i in range(n):
        r = int(rows[i])
        for k in range(Ap[r], Ap[r + 1]):
            Bj[t] = Aj[k]
            Bx[t] = Ax[k]
            t += 1


def m_csr_row_slice(start, stop, step, Ap, Aj, Ax, Bj, Bx):
    t = 0
    for r in range(start, stop, step):
        for k in range(Ap[r], Ap[r + 1]):
            Bj[t] = Aj[k]
            Bx[t] = Ax[k]
            t += 1


def m_dia_tocsr(n_rows, n_cols, n_diags, L, offsets, diags, order, csr_data, indices, indptr):
    nnz = 0
    indptr[0] = 0
    for i in range(n_rows):
        for n in range(n_diags):
            o = int(order[n])
            j = i + int(offsets[o])
            if j < 0 or j >= min(n_cols, L):
                continue
            x = diags[o, j] if diags.ndim == 2 else diags[o * L + j]
            if bool(x != 0):
                indices[nnz] = j
                csr_data[nnz] = x
                nnz += 1
        indptr[i + 1] = nnz
    return nnz


def m_dia_matvec(n_row, n_col, n_diags, L, offsets, diags, x, y):
    for n in range(n_diags):
        k = int(offsets[n])
        for j in range(min(n_col, L)):
            i = j - k
            if 0 <= i < n_row:
                d = diags[n, j] if diags.ndim == 2 else diags[n * L + j]
                y[i] = y[i] + d * x[j]


MODELS = {
    "csr_todense": m_csr_todense,
    "coo_todense": m_coo_todense,
    "coo_matvec": m_coo_matvec,
    "csr_matvec": m_csr_matvec,
    "csc_matvec": m_csc_matvec,
    "csr_matvecs": m_csr_matvecs,
    "csc_matvecs": m_csc_matvecs,
    "csr_matmat": m_csr_matmat,
    "csr_plus_csr": _binop(lambda a, b: a + b),
    "csr_minus_csr": _binop(lambda a, b: a - b),
    "csr_elmul_csr": _binop(lambda a, b: a * b),
    "csr_eldiv_csr": _binop(lambda a, b: R(a) / R(b)),
    "csr_maximum_csr": _binop(lambda a, b: a if bool(a > b) else b),
    "csr_minimum_csr": _binop(lambda a, b: a if bool(a < b) else b),
    "csr_ne_csr": _binop(lambda a, b: int(bool(a != b)), True),
    "csr_lt_csr": _binop(lambda a, b: int(bool(a < b)), True),
    "csr_gt_csr": _binop(lambda a, b: int(bool(a > b)), True),
    "csr_le_csr": _binop(lambda a, b: int(bool(a <= b)), True),
    "csr_ge_csr": _binop(lambda a, b: int(bool(a >= b)), True),
    "csr_diagonal": m_csr_diagonal,
    "csr_sample_values": m_csr_sample_values,
    "csr_eliminate_zeros": m_csr_eliminate_zeros,
    "csr_sum_duplicates": m_csr_sum_duplicates,
    "csr_sort_indices": m_csr_sort_indices,
    "csr_scale_rows": m_csr_scale_rows,
    "csr_scale_columns": m_csr_scale_columns,
    "csr_row_index": m_csr_row_index,
    "csr_row_slice": m_csr_row_slice,
    "csr_tocsc": _movement(ST.csr_tocsc, 4, 7),
    "coo_tocsr": _movement(ST.coo_tocsr, 5, 8),
    "csr_column_index2": _movement(ST.csr_column_index2, 4, 6),
    "csr_hstack": None,
    "get_csr_submatrix": m_get_csr_submatrix,
    "dia_tocsr": m_dia_tocsr,
    "dia_matvec": m_dia_matvec,
}


def _wrapper(name, native):
    model = MODELS.get(name)

    def f(*a):
        a = [x.arr if type(x).__name__ == "MV" else x for x in a]
        if _anysym(a):
            if model is None:
                if name == "csr_hstack":
                    return m_csr_hstack(*a)
                raise Unsupported(f"_sparsetools.{name} on symbolic data")
            return model(*a)
        return native(*a)
    f.__name__ = name
    f.__sparsetool__ = True
    return f


def m_csr_hstack(n_blocks, n_rows, n_cols, ptr_cat, idx_cat, data_cat, indptr, indices, data):
    tags = np.arange(1, data_cat.size + 1, dtype=np.float64)
    out = np.zeros(data.size, dtype=np.float64)
    ST_NATIVE["csr_hstack"](n_blocks, n_rows, n_cols, ptr_cat, idx_cat, tags, indptr, indices, out)
    for i, t in enumerate(out):
        if t:
            data[i] = data_cat[int(t) - 1]


ST_NATIVE = {}
WRAPPED = {}


class SymLil:
    """lil_matrix of symbolic numbers (element access only)"""
    format = "lil"

    def __init__(self, shape, dtype=None, copy=False):
        if not isinstance(shape, tuple):
            raise Unsupported("lil_matrix of a matrix")
        self.shape = shape
        self.d = {}

    def _k(self, k):
        if not isinstance(k, tuple) or len(k) != 2:
            raise Unsupported("lil_matrix index")
        out = []
        for x, n in zip(k, self.shape):
            if isinstance(x, slice):
                if x != slice(None):
                    raise Unsupported("lil_matrix slice")
                out.append(None)
                continue
            x = int(x)
            if x < -n or x >= n:
                raise IndexError("index out of range")
            out.append(x % n)
        return tuple(out)

    def __getitem__(self, k):
        i, j = self._k(k)
        if i is None or j is None:
            r = SymLil((self.shape[0] if i is None else 1, self.shape[1] if j is None else 1))
            r.d = {(a if i is None else 0, b if j is None else 0): v for (a, b), v in self.d.items()
                   if (i is None or a == i) and (j is None or b == j)}
            return r
        return self.d.get((i, j), 0.0)

    def __setitem__(self, k, v):
        i, j = self._k(k)
        if i is None or j is None:
            raise Unsupported("lil_matrix slice assignment")
        if not isinstance(v, R) and v == 0:
            self.d.pop((i, j), None)
        else:
            self.d[i, j] = v

    def nonzero(self):
        ks = sorted(k for k, v in self.d.items() if bool(v != 0))
        return np.array([k[0] for k in ks], dtype=np.int32), np.array([k[1] for k in ks], dtype=np.int32)

    def copy(self):
        r = SymLil(self.shape)
        r.d = dict(self.d)
        return r

    def toarray(self):
        a = NP.zeros(self.shape)
        for (i, j), v in self.d.items():
            a[i, j] = v
        return a

    todense = toarray

    def tocsr(self):
        import scipy.sparse as sp
        return sp.csr_matrix(self.toarray())


def make_lil(real):
    def lil_matrix(arg1, shape=None, dtype=None, copy=False):
        if isinstance(arg1, tuple) and (dtype is None or getattr(dtype, "__symfloat__", False)
                                        or np.dtype(dtype).kind == "f"):
            return SymLil(arg1)
        return real(arg1, shape=shape, dtype=dtype, copy=copy)
    return lil_matrix


def install():
    if WRAPPED:
        return
    native_ids = {}
    for n in dir(ST):
        f = getattr(ST, n)
        if isinstance(f, types.BuiltinFunctionType):
            ST_NATIVE[n] = f
            WRAPPED[n] = _wrapper(n, f)
            native_ids[id(f)] = n
    proxy = types.ModuleType("scipy.sparse._sparsetools")
    proxy.__dict__.update(WRAPPED)
    WRAPPED["__module__"] = proxy
    for mn, m in list(sys.modules.items()):
        if not mn.startswith("scipy.sparse") or m is None:
            continue
        if mn.startswith(("scipy.sparse.csgraph", "scipy.sparse.linalg")) or mn == "scipy.sparse._sparsetools":
            continue
        d = m.__dict__
        for k, v in list(d.items()):
            if v is np:
                d[k] = NP
            elif v is ST:
                d[k] = proxy
            elif isinstance(v, types.BuiltinFunctionType) and id(v) in native_ids:
                d[k] = WRAPPED[native_ids[id(v)]]
    import scipy.sparse._sputils as su
    _oisl = su.isscalarlike

    def isscalarlike(x):
        return isinstance(x, R) or _oisl(x)
    import scipy.sparse._base as b
    import scipy._lib._util as u
    for mn, m in list(sys.modules.items()):
        if mn.startswith("scipy.sparse") and m is not None:
            for k, v in list(m.__dict__.items()):
                if v is _oisl:
                    m.__dict__[k] = isscalarlike
    oup = su.upcast_scalar

    def upcast_scalar(dtype, scalar):
        if isinstance(scalar, R):
            return np.result_type(dtype, np.float64)
        return oup(dtype, scalar)
    for mn, m in list(sys.modules.items()):
        if mn.startswith("scipy.sparse") and m is not None:
            for k, v in list(m.__dict__.items()):
                if v is oup:
                    m.__dict__[k] = upcast_scalar

    def _prune(a):
        return a.copy() if a.size < (a.base.size // 2 if a.base is not None else 0) else a
    for mn, m in list(sys.modules.items()):
        if mn.startswith("scipy.sparse") and m is not None and "_prune_array" in m.__dict__:
            m.__dict__["_prune_array"] = _prune

    import scipy.sparse._lil as lil
    from bisect import bisect_left
    oset = lil._lil_base.__setitem__

    def lset(self, key, x):
        if isinstance(x, R) and isinstance(key, tuple) and len(key) == 2 and all(
                isinstance(k, (int, np.integer, R)) for k in key):
            i, j = int(key[0]), int(key[1])
            M, N = self.shape
            if not (-M <= i < M and -N <= j < N):
                raise IndexError("index out of bounds")
            i, j = i % M, j % N
            row, data = self.rows[i], self.data[i]
            p = bisect_left(row, j)
            here = p < len(row) and row[p] == j
            if bool(x == 0):
                if here:
                    del row[p]
                    del data[p]
            elif here:
                data[p] = x
            else:
                row.insert(p, j)
                data.insert(p, x)
            return
        return oset(self, key, x)
    lil._lil_base.__setitem__ = lset

    cs = lil._csparsetools
    pr = types.ModuleType("_csparsetools")
    for n in dir(cs):
        if not n.startswith("__"):
            setattr(pr, n, getattr(cs, n))

    def flat(inp, out):
        if is_sym(out):
            t = 0
            for row in inp:
                for v in row:
                    out[t] = v
                    t += 1
            return
        return cs.lil_flatten_to_array(inp, out)
    pr.lil_flatten_to_array = flat
    lil._csparsetools = pr
    oget = lil._lil_base._get_intXint

    def gii(self, i, j):
        row, data = self.rows[i], self.data[i]
        p = bisect_left(row, j)
        if p < len(row) and row[p] == j:
            return data[p]
        return self.dtype.type(0)
    lil._lil_base._get_intXint = gii
