"""Environment model: lets numpy/scipy carry symbolic entries (object dtype).

Nothing of /repo is replaced.  numpy functions get a wrapper that behaves exactly as before unless an
argument has object dtype (then it works entry by entry) or - while `MODE.on` - a function of /repo
allocates a float array (then the array is allocated with object dtype so it can hold symbolic
values).  scipy.sparse's compiled kernels get Python twins for object data.
"""
import sys
import math
import functools
import numpy as np

from . import sym
from .sym import S, SB, SI, EngineUnsupported

REPO = '/repo/'


class _Mode(object):
    on = False
    used = set()


MODE = _Mode()


class symbolic_mode(object):
    """with symbolic_mode(): float arrays allocated by /repo code can hold symbolic values."""

    def __init__(self, on=True):
        self._on = on

    def __enter__(self):
        self._old = MODE.on
        MODE.on = self._on

    def __exit__(self, *a):
        MODE.on = self._old


def _is_obj(a):
    return isinstance(a, (S, SI, SB)) or (isinstance(a, np.ndarray) and a.dtype == object)


def _maybe_obj(a):
    if isinstance(a, np.ndarray):
        return a.dtype == object
    if isinstance(a, (S, SI, SB)):
        return True
    if isinstance(a, (list, tuple)):
        return any(_maybe_obj(i) for i in a)
    return False


def has_sym(a):
    if isinstance(a, (S, SI, SB)):
        return not (isinstance(a, S) and a.is_const)
    if isinstance(a, np.ndarray):
        if a.dtype != object:
            return False
        return any(has_sym(i) for i in a.reshape(-1))
    if isinstance(a, (list, tuple)):
        return any(has_sym(i) for i in a)
    return False


def to_float(a):
    """object array without symbolic entries -> float array (else EngineUnsupported)."""
    if isinstance(a, np.ndarray) and a.dtype == object:
        out = np.empty(a.shape, dtype=float)
        f = out.reshape(-1)
        for i, e in enumerate(a.reshape(-1)):
            f[i] = float(e)
        return out
    if isinstance(a, S):
        return float(a)
    return a


_orig = {}


def _caller_in_repo(depth=2):
    return sys._getframe(depth).f_code.co_filename.startswith(REPO)


def _floatish(dtype):
    if dtype is None:
        return True
    try:
        return np.dtype(dtype).kind == 'f'
    except TypeError:
        return False


def _wrap_alloc(name):
    orig = getattr(np, name)
    _orig[name] = orig

    @functools.wraps(orig)
    def f(*a, **k):
        if MODE.on and _caller_in_repo():
            dtype = k.get('dtype', a[1] if len(a) > 1 else None)
            if _floatish(dtype):
                k = dict(k)
                a = list(a)
                if len(a) > 1:
                    a[1] = object
                else:
                    k['dtype'] = object
        return orig(*a, **k)
    setattr(np, name, f)


def _wrap_like(name):
    orig = getattr(np, name)
    _orig[name] = orig

    @functools.wraps(orig)
    def f(x, *a, **k):
        if MODE.on and _caller_in_repo() and not a and 'dtype' not in k:
            if np.asarray(x).dtype.kind in 'fO':
                k = dict(k, dtype=object)
        return orig(x, *a, **k)
    setattr(np, name, f)


_METH = {'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'exp': math.exp, 'sqrt': math.sqrt,
         'log': math.log, 'arctan': math.atan, 'arccos': math.acos, 'arcsin': math.asin,
         'floor': math.floor, 'ceil': math.ceil, 'sinh': math.sinh, 'cosh': math.cosh, 'tanh': math.tanh,
         'log2': math.log2, 'log10': math.log10}


def _wrap_unary(name, pyf):
    orig = getattr(np, name)
    _orig[name] = orig

    def one(e):
        if isinstance(e, (S, SI)):
            m = getattr(e, name, None)
            if m is None:
                raise EngineUnsupported('np.' + name)
            return m()
        if type(e).__name__ == 'SQ':
            return getattr(e, name)()
        return pyf(e)

    @functools.wraps(orig)
    def f(*a, **k):
        if a and not k and len(a) == 1:
            x = a[0]
            if isinstance(x, (S, SI)) or type(x).__name__ == 'SQ':
                return one(x)
            if isinstance(x, (list, tuple)) and _maybe_obj(x):
                x = np.array(x, dtype=object)
            if isinstance(x, np.ndarray) and x.dtype == object:
                return _emap(x, one)
        return orig(*a, **k)
    setattr(np, name, f)


def _emap(x, one):
    out = np.empty(x.shape, dtype=object)
    o = out.reshape(-1)
    for i, e in enumerate(x.reshape(-1)):
        o[i] = one(e)
    return out


def _wrap_array():
    orig = np.array
    _orig['array'] = orig

    @functools.wraps(orig)
    def array(obj, *a, **k):
        dt = k.get('dtype', a[0] if a else None)
        if dt is not None and _floatish(dt) and _maybe_obj(obj) and has_sym(obj):
            k = {kk: v for kk, v in k.items() if kk != 'dtype'}
            return orig(obj, dtype=object, **k)
        return orig(obj, *a, **k)
    np.array = array


def _close(a, b, rtol, atol):
    d = abs(sym.lift(a) - sym.lift(b))
    r = atol + rtol * abs(sym.lift(b))
    return d <= r


def _wrap_close():
    oc, oa = np.isclose, np.allclose

    @functools.wraps(oc)
    def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
        if _maybe_obj(a) or _maybe_obj(b):
            A, B = np.broadcast_arrays(np.array(a, dtype=object), np.array(b, dtype=object))
            out = np.empty(A.shape, dtype=object)
            of = out.reshape(-1)
            for i, (x, y) in enumerate(zip(A.reshape(-1), B.reshape(-1))):
                of[i] = _close(x, y, rtol, atol)
            return out if A.ndim else of[0]
        return oc(a, b, rtol, atol, equal_nan)

    @functools.wraps(oa)
    def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
        if _maybe_obj(a) or _maybe_obj(b):
            return all(bool(i) for i in np.array(isclose(a, b, rtol, atol)).reshape(-1))
        return oa(a, b, rtol, atol, equal_nan)
    np.isclose, np.allclose = isclose, allclose
    T = np.testing

    def aa(name, tolf):
        orig = getattr(T, name)

        @functools.wraps(orig)
        def f(actual, desired, *a, **k):
            if _maybe_obj(actual) or _maybe_obj(desired):
                dec = k.get('decimal', a[0] if a and isinstance(a[0], int) else (7 if name == 'assert_almost_equal' else 6))
                A, B = np.broadcast_arrays(np.array(actual, dtype=object), np.array(desired, dtype=object))
                tol = tolf(dec)
                for x, y in zip(A.reshape(-1), B.reshape(-1)):
                    d = sym.lift(x) - sym.lift(y)
                    if not (bool(d <= tol) and bool(d >= -tol)):
                        raise AssertionError(name)
                return None
            return orig(actual, desired, *a, **k)
        setattr(T, name, f)
    aa('assert_array_almost_equal', lambda d: 1.5 * 10.0 ** (-d))
    aa('assert_almost_equal', lambda d: 1.5 * 10.0 ** (-d))


def _wrap_linalg():
    L = np.linalg

    def solve_obj(A, b):
        A = np.array(A, dtype=object)
        b = np.array(b, dtype=object)
        one = b.ndim == 1
        if one:
            b = b.reshape(-1, 1)
        n = A.shape[0]
        A, b = A.copy(), b.copy()
        if not has_sym(A):
            return_f = L._orig_inv(to_float(A)) @ b
            return return_f[:, 0] if one else return_f
        if n == 2:                                # one case distinction: the determinant
            d = A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
            if bool(d == 0):
                raise np.linalg.LinAlgError('Singular matrix')
            b = np.array([A[1, 1] * b[0] - A[0, 1] * b[1], A[0, 0] * b[1] - A[1, 0] * b[0]], dtype=object) / d
            return b[:, 0] if one else b
        for i in range(n):
            piv = None
            for r in range(i, n):
                if bool(A[r, i] != 0):
                    piv = r
                    break
            if piv is None:
                raise np.linalg.LinAlgError('Singular matrix')
            if piv != i:
                A[[i, piv]] = A[[piv, i]]
                b[[i, piv]] = b[[piv, i]]
            inv = 1 / A[i, i]
            A[i] = A[i] * inv
            b[i] = b[i] * inv
            for r in range(n):
                if r != i:
                    f = A[r, i]
                    A[r] = A[r] - f * A[i]
                    b[r] = b[r] - f * b[i]
        return b[:, 0] if one else b

    L._orig_inv, L._orig_solve = L.inv, L.solve

    def det_obj(A):
        n = A.shape[0]
        if n == 1:
            return A[0, 0]
        r = 0
        for j in range(n):
            r = r + (-1) ** j * A[0, j] * det_obj(np.delete(A[1:], j, axis=1))
        return r

    def inv(A):
        if _maybe_obj(A):
            A = np.asarray(A)
            if not has_sym(A):
                return L._orig_inv(to_float(A))
            n = A.shape[-1]
            if A.ndim == 2:
                I = np.array([[1.0 if i == j else 0.0 for i in range(n)] for j in range(n)], dtype=object)
                return solve_obj(A, I)
            return np.array([inv(i) for i in A], dtype=object)
        return L._orig_inv(A)

    def solve(A, b):
        if _maybe_obj(A) or _maybe_obj(b):
            return solve_obj(A, b)
        return L._orig_solve(A, b)
    L.inv, L.solve = inv, solve
    odet, onorm = L.det, L.norm

    def det(A):
        if _maybe_obj(A):
            A = np.asarray(A)
            if not has_sym(A):
                return odet(to_float(A))
            if A.ndim == 2:
                return det_obj(A)
            return np.array([det(i) for i in A], dtype=object)
        return odet(A)

    def norm(x, ord=None, axis=None, keepdims=False):
        if _maybe_obj(x):
            if not has_sym(x):
                return onorm(to_float(np.asarray(x)), ord, axis, keepdims)
            if ord is None and axis is None:
                r = 0
                for e in np.asarray(x).reshape(-1):
                    r = r + e * e
                return sym.lift(r).sqrt()
            raise EngineUnsupported('norm')
        return onorm(x, ord, axis, keepdims)
    L.det, L.norm = det, norm
    for name in ('eig', 'eigvals', 'matrix_rank', 'cond', 'eigh', 'lstsq'):
        o = getattr(L, name)

        def g(*a, _o=o, **k):
            return _o(*[to_float(i) for i in a], **k)
        setattr(L, name, functools.wraps(o)(g))


# ------------------------------------------------------------------------------------- scipy.sparse
class K(object):
    """Python twins of scipy.sparse._sparsetools kernels (object data)."""

    @staticmethod
    def coo_tocsr(M, N, nnz, I, J, X, Bp, Bj, Bx):
        cnt = np.bincount(np.asarray(I[:nnz], dtype=np.int64), minlength=M)
        Bp[0] = 0
        Bp[1:] = np.cumsum(cnt)
        nxt = Bp[:-1].copy()
        for n in range(nnz):
            r = I[n]
            d = nxt[r]
            Bj[d] = J[n]
            Bx[d] = X[n]
            nxt[r] += 1

    @staticmethod
    def coo_todense(M, N, nnz, I, J, X, B, fortran):
        for n in range(nnz):
            k = (M * J[n] + I[n]) if fortran else (N * I[n] + J[n])
            B[k] = B[k] + X[n]

    @staticmethod
    def coo_matvec(nnz, I, J, X, v, y):
        for n in range(nnz):
            y[I[n]] = y[I[n]] + X[n] * v[J[n]]

    @staticmethod
    def csr_todense(M, N, Ap, Aj, Ax, B):
        for i in range(M):
            for k in range(Ap[i], Ap[i + 1]):
                B[i, Aj[k]] = B[i, Aj[k]] + Ax[k]

    @staticmethod
    def csr_tocsc(M, N, Ap, Aj, Ax, Bp, Bi, Bx):
        nnz = Ap[M]
        cnt = np.bincount(np.asarray(Aj[:nnz], dtype=np.int64), minlength=N)
        Bp[0] = 0
        Bp[1:] = np.cumsum(cnt)
        nxt = Bp[:-1].copy()
        for i in range(M):
            for k in range(Ap[i], Ap[i + 1]):
                c = Aj[k]
                d = nxt[c]
                Bi[d] = i
                Bx[d] = Ax[k]
                nxt[c] += 1

    @staticmethod
    def csc_tocsr(M, N, Ap, Ai, Ax, Bp, Bj, Bx):
        K.csr_tocsc(N, M, Ap, Ai, Ax, Bp, Bj, Bx)

    @staticmethod
    def csr_matvec(M, N, Ap, Aj, Ax, v, y):
        for i in range(M):
            s = y[i]
            for k in range(Ap[i], Ap[i + 1]):
                s = s + Ax[k] * v[Aj[k]]
            y[i] = s

    @staticmethod
    def csc_matvec(M, N, Ap, Ai, Ax, v, y):
        for j in range(N):
            for k in range(Ap[j], Ap[j + 1]):
                y[Ai[k]] = y[Ai[k]] + Ax[k] * v[j]

    @staticmethod
    def csr_matvecs(M, N, nv, Ap, Aj, Ax, X, Y):
        for i in range(M):
            for k in range(Ap[i], Ap[i + 1]):
                for q in range(nv):
                    Y[nv * i + q] = Y[nv * i + q] + Ax[k] * X[nv * Aj[k] + q]

    @staticmethod
    def csc_matvecs(M, N, nv, Ap, Ai, Ax, X, Y):
        for j in range(N):
            for k in range(Ap[j], Ap[j + 1]):
                for q in range(nv):
                    Y[nv * Ai[k] + q] = Y[nv * Ai[k] + q] + Ax[k] * X[nv * j + q]

    @staticmethod
    def csr_matmat(M, N, Ap, Aj, Ax, Bp, Bj, Bx, Cp, Cj, Cx):
        nnz = 0
        Cp[0] = 0
        for i in range(M):
            acc = {}
            for k in range(Ap[i], Ap[i + 1]):
                j, v = Aj[k], Ax[k]
                for q in range(Bp[j], Bp[j + 1]):
                    c = Bj[q]
                    acc[c] = acc[c] + v * Bx[q] if c in acc else v * Bx[q]
            for c, v in acc.items():
                Cj[nnz] = c
                Cx[nnz] = v
                nnz += 1
            Cp[i + 1] = nnz

    @staticmethod
    def csc_matmat(M, N, Ap, Ai, Ax, Bp, Bi, Bx, Cp, Ci, Cx):
        K.csr_matmat(N, M, Bp, Bi, Bx, Ap, Ai, Ax, Cp, Ci, Cx)

    @staticmethod
    def csr_sum_duplicates(M, N, Ap, Aj, Ax):
        nnz = 0
        end = 0
        for i in range(M):
            jj = end
            end = Ap[i + 1]
            while jj < end:
                j = Aj[jj]
                x = Ax[jj]
                jj += 1
                while jj < end and Aj[jj] == j:
                    x = x + Ax[jj]
                    jj += 1
                Aj[nnz] = j
                Ax[nnz] = x
                nnz += 1
            Ap[i + 1] = nnz

    @staticmethod
    def csr_sort_indices(M, Ap, Aj, Ax):
        for i in range(M):
            a, b = Ap[i], Ap[i + 1]
            o = np.argsort(Aj[a:b], kind='stable')
            Aj[a:b] = Aj[a:b][o]
            Ax[a:b] = Ax[a:b][o]

    @staticmethod
    def csr_eliminate_zeros(M, N, Ap, Aj, Ax):
        nnz = 0
        end = 0
        for i in range(M):
            jj = end
            end = Ap[i + 1]
            while jj < end:
                x = Ax[jj]
                z = (not x.t) if isinstance(x, S) else (x == 0)
                if not z:
                    Aj[nnz] = Aj[jj]
                    Ax[nnz] = x
                    nnz += 1
                jj += 1
            Ap[i + 1] = nnz

    @staticmethod
    def csr_row_index(n, rows, Ap, Aj, Ax, Bj, Bx):
        p = 0
        for r in rows[:n]:
            for k in range(Ap[r], Ap[r + 1]):
                Bj[p] = Aj[k]
                Bx[p] = Ax[k]
                p += 1

    @staticmethod
    def csr_row_slice(start, stop, step, Ap, Aj, Ax, Bj, Bx):
        K.csr_row_index(len(range(start, stop, step)), list(range(start, stop, step)), Ap, Aj, Ax, Bj, Bx)

    @staticmethod
    def csr_column_index2(order, offs, nnz, Aj, Ax, Bj, Bx):
        n = 0
        for jj in range(nnz):
            j = Aj[jj]
            offset = offs[j]
            prev = 0 if j == 0 else offs[j - 1]
            if offset != prev:
                v = Ax[jj]
                for k in range(prev, offset):
                    Bj[n] = order[k]
                    Bx[n] = v
                    n += 1

    @staticmethod
    def csr_sample_values(M, N, Ap, Aj, Ax, ns, Bi, Bj, Bx):
        for n in range(ns):
            i = Bi[n] if Bi[n] >= 0 else Bi[n] + M
            j = Bj[n] if Bj[n] >= 0 else Bj[n] + N
            x = 0
            for k in range(Ap[i], Ap[i + 1]):
                if Aj[k] == j:
                    x = x + Ax[k]
            Bx[n] = x

    @staticmethod
    def get_csr_submatrix(M, N, Ap, Aj, Ax, i0, i1, j0, j1):
        p, ind, dat = [0], [], []
        for i in range(i0, i1):
            for k in range(Ap[i], Ap[i + 1]):
                if j0 <= Aj[k] < j1:
                    ind.append(Aj[k] - j0)
                    dat.append(Ax[k])
            p.append(len(ind))
        d = np.empty(len(dat), dtype=object)
        for i, v in enumerate(dat):
            d[i] = v
        return np.array(p, dtype=Ap.dtype), np.array(ind, dtype=Aj.dtype), d

    @staticmethod
    def _diag(k, M, N, Ap, Aj, Ax, Y):
        fi = max(0, -k)
        fc = max(0, k)
        n = min(M - fi, N - fc)
        for i in range(n):
            s = 0
            for q in range(Ap[fi + i], Ap[fi + i + 1]):
                if Aj[q] == fc + i:
                    s = s + Ax[q]
            Y[i] = s

    @staticmethod
    def csr_diagonal(k, M, N, Ap, Aj, Ax, Y):
        K._diag(k, M, N, Ap, Aj, Ax, Y)

    @staticmethod
    def csc_diagonal(k, M, N, Ap, Aj, Ax, Y):
        K._diag(-k, N, M, Ap, Aj, Ax, Y)

    @staticmethod
    def csr_scale_rows(M, N, Ap, Aj, Ax, Xx):
        for i in range(M):
            for k in range(Ap[i], Ap[i + 1]):
                Ax[k] = Ax[k] * Xx[i]

    @staticmethod
    def csr_scale_columns(M, N, Ap, Aj, Ax, Xx):
        for i in range(M):
            for k in range(Ap[i], Ap[i + 1]):
                Ax[k] = Ax[k] * Xx[Aj[k]]

    @staticmethod
    def csr_hstack(nb, nrow, ncols, indptr, indices, data, ip, ix, dx):
        offs = np.concatenate([[0], np.cumsum(ncols)])
        ptrs, base = [], 0
        for b in range(nb):
            p = indptr[b * (nrow + 1):(b + 1) * (nrow + 1)]
            ptrs.append((p, base))
            base += p[-1]
        n = 0
        ip[0] = 0
        for i in range(nrow):
            for b, (p, bs) in enumerate(ptrs):
                for k in range(bs + p[i], bs + p[i + 1]):
                    ix[n] = indices[k] + offs[b]
                    dx[n] = data[k]
                    n += 1
            ip[i + 1] = n

    @staticmethod
    def dia_matvec(M, N, nd, L, offs, diags, v, y):
        for i in range(nd):
            k = offs[i]
            i0 = max(0, -k)
            j0 = max(0, k)
            j1 = min(min(M + k, N), L)
            for n in range(j1 - j0):
                y[i0 + n] = y[i0 + n] + diags[i, j0 + n] * v[j0 + n]


def _binop(op):
    def f(M, N, Ap, Aj, Ax, Bp, Bj, Bx, Cp, Cj, Cx):
        nnz = 0
        Cp[0] = 0
        for i in range(M):
            a, b = {}, {}
            for k in range(Ap[i], Ap[i + 1]):
                a[Aj[k]] = a[Aj[k]] + Ax[k] if Aj[k] in a else Ax[k]
            for k in range(Bp[i], Bp[i + 1]):
                b[Bj[k]] = b[Bj[k]] + Bx[k] if Bj[k] in b else Bx[k]
            for c in sorted(set(a) | set(b)):
                v = op(a.get(c, 0), b.get(c, 0))
                if isinstance(v, S):
                    z = not v.t
                elif isinstance(v, SB):
                    v = bool(v)
                    z = not v
                else:
                    z = (v == 0)
                if not z:
                    Cj[nnz] = c
                    Cx[nnz] = v
                    nnz += 1
            Cp[i + 1] = nnz
    return f


for _f in ('csr', 'csc'):
    def _mk(_f=_f):
        import operator as o

        def wrap(op):
            g = _binop(op)
            if _f == 'csc':
                return lambda M, N, *a: g(N, M, *a) if False else g(M, N, *a)
            return g
        for nm, op in (('plus', o.add), ('minus', o.sub), ('elmul', o.mul), ('eldiv', o.truediv),
                       ('ne', lambda a, b: a != b), ('lt', lambda a, b: a < b), ('gt', lambda a, b: a > b),
                       ('le', lambda a, b: a <= b), ('ge', lambda a, b: a >= b)):
            h = _binop(op)
            if _f == 'csr':
                setattr(K, f'csr_{nm}_csr', staticmethod(h))
            else:
                setattr(K, f'csc_{nm}_csc', staticmethod(
                    lambda M, N, *a, _h=h: _h(N, M, *a)))
    _mk()


def _wrap_scipy():
    import scipy.sparse as sp
    from scipy.sparse import _sparsetools, _sputils
    import scipy.sparse._compressed, scipy.sparse._csr, scipy.sparse._csc, scipy.sparse._coo
    import scipy.sparse._index, scipy.sparse._data, scipy.sparse._dia, scipy.sparse._construct
    import scipy.sparse._lil, scipy.sparse._bsr, scipy.sparse._base
    mods = [getattr(sp, '_' + m) for m in
            ('compressed', 'csr', 'csc', 'coo', 'index', 'data', 'dia', 'construct', 'lil', 'bsr', 'base', 'dok')]

    def twin(name, orig):
        py = getattr(K, name, None)

        @functools.wraps(orig)
        def f(*a):
            for i in a:
                if isinstance(i, np.ndarray) and i.dtype == object:
                    if py is None:
                        raise EngineUnsupported('scipy kernel ' + name)
                    MODE.used.add('scipy.' + name)
                    return py(*a)
            return orig(*a)
        return f

    class Proxy(object):
        pass
    proxy = Proxy()
    wrapped = {}
    for n in dir(_sparsetools):
        o = getattr(_sparsetools, n)
        if callable(o) and not n.startswith('__'):
            wrapped[n] = twin(n, o)
            setattr(proxy, n, wrapped[n])
    for m in mods:
        for n in list(vars(m)):
            if n == '_sparsetools':
                setattr(m, n, proxy)
            elif n in wrapped and getattr(m, n) is getattr(_sparsetools, n):
                setattr(m, n, wrapped[n])

    up, upc, gd, gdata = _sputils.upcast, _sputils.upcast_char, _sputils.getdtype, _sputils.getdata

    def upcast(*args):
        if any(np.dtype(a) == np.object_ for a in args):
            return np.object_
        return up(*args)

    def upcast_char(*args):
        if 'O' in args:
            return np.dtype(object)
        return upc(*args)

    def getdtype(dtype, a=None, default=None):
        if dtype is not None and np.dtype(dtype) == np.object_:
            return np.dtype(object)
        return gd(dtype, a, default)

    def getdata(obj, dtype=None, copy=False):
        return np.array(obj, dtype=dtype, copy=copy)

    gs = _sputils.get_sum_dtype

    def get_sum_dtype(dtype):
        if dtype == np.object_:
            return np.dtype(object)
        return gs(dtype)
    isl = _sputils.isscalarlike

    def isscalarlike(x):
        return isinstance(x, (S, SI)) or isl(x)
    new = dict(upcast=upcast, upcast_char=upcast_char, getdtype=getdtype, getdata=getdata,
               get_sum_dtype=get_sum_dtype, isscalarlike=isscalarlike)
    for m in mods + [_sputils]:
        for n, o in new.items():
            if hasattr(m, n):
                setattr(m, n, o)


def _wrap_lil():
    from bisect import bisect_left
    import scipy.sparse._lil as ml
    from scipy.sparse._index import IndexMixin
    base = ml._lil_base if hasattr(ml, '_lil_base') else ml.lil_array
    o_set, o_int, o_arr = base.__setitem__, base._set_intXint, base._set_arrayXarray

    def put(self, i, j, x):
        i, j = int(i), int(j)
        r, d = self.rows[i], self.data[i]
        p = bisect_left(r, j)
        here = p < len(r) and r[p] == j
        zero = (not x.t) if isinstance(x, S) else (x == 0)
        if zero:
            if here:
                del r[p], d[p]
        elif here:
            d[p] = x
        else:
            r.insert(p, j)
            d.insert(p, x)

    def setitem(self, key, x):
        if self.dtype != object and (isinstance(x, (S, SI)) or
                                     (hasattr(x, 'dtype') and x.dtype == object) or
                                     (isinstance(x, (list, tuple)) and has_sym(x))):
            self.dtype = np.dtype(object)
        if self.dtype == object:
            return IndexMixin.__setitem__(self, key, x)
        return o_set(self, key, x)

    def set_int(self, i, j, x):
        if self.dtype == object:
            return put(self, i, j, x)
        return o_int(self, i, j, x)

    def set_arr(self, i, j, x):
        if self.dtype == object:
            i, j, x = map(np.atleast_2d, (i, j, x))
            for a, b, c in zip(i.reshape(-1), j.reshape(-1), np.broadcast_to(x, i.shape).reshape(-1)):
                put(self, a, b, c)
            return
        return o_arr(self, i, j, x)

    class P(object):
        def __getattr__(self, n):
            return getattr(ocp, n)

        @staticmethod
        def lil_flatten_to_array(inp, out):
            if out.dtype == object:
                k = 0
                for row in inp:
                    for e in row:
                        out[k] = e
                        k += 1
                return
            return ocp.lil_flatten_to_array(inp, out)

        @staticmethod
        def lil_fancy_get(M, N, rows, datas, nrows, ndatas, i, j):
            for x in range(i.shape[0]):
                for y in range(i.shape[1]):
                    a, b = int(i[x, y]), int(j[x, y])
                    a, b = a % M, b % N
                    p = bisect_left(rows[a], b)
                    if p < len(rows[a]) and rows[a][p] == b:
                        nrows[x].append(y)
                        ndatas[x].append(datas[a][p])
    ocp = ml._csparsetools
    ml._csparsetools = P()
    base.__setitem__, base._set_intXint, base._set_arrayXarray = setitem, set_int, set_arr


def _wrap_spsolve():
    import scipy.sparse as sp
    import scipy.sparse.linalg as L
    oi, os_ = L.inv, L.spsolve

    def fl(A):
        A = A.tocsc()
        return type(A)((np.asarray(to_float(A.data), float), A.indices, A.indptr), shape=A.shape)

    @functools.wraps(oi)
    def inv(A):
        if sp.issparse(A) and A.dtype == object:
            if not has_sym(A.data):
                return oi(fl(A))
            return sp.csc_matrix(np.linalg.inv(A.toarray()))
        return oi(A)

    @functools.wraps(os_)
    def spsolve(A, b, *a, **k):
        bs = sp.issparse(b)
        sa = A.dtype == object and has_sym(A.data if sp.issparse(A) else A)
        sb = b.dtype == object and has_sym(b.data if bs else b)
        if not sa and not sb:
            A = fl(A) if A.dtype == object else A
            if b.dtype == object:
                b = fl(b) if bs else to_float(b)
            return os_(A, b, *a, **k)
        MODE.used.add('scipy.spsolve')
        x = np.linalg.solve(np.array(A.toarray(), dtype=object), np.array(b.toarray() if bs else b, dtype=object))
        return sp.csc_matrix(x) if bs and b.shape[1] > 1 else x.reshape(-1) if bs else x
    L.inv, L.spsolve = inv, spsolve


_installed = False


def _wrap_orthopoly():
    from scipy.special import _orthogonal as o
    orig = o.orthopoly1d.__call__

    def call(self, v):
        if isinstance(v, np.ndarray) and v.dtype == object:
            if has_sym(v):
                out = 0 * v
                for c in self.coeffs:
                    out = out * v + c
                return out
            r = np.empty(v.shape, dtype=object)
            r[...] = orig(self, to_float(v))
            return r
        if isinstance(v, S):
            out = 0
            for c in self.coeffs:
                out = out * v + c
            return out
        return orig(self, v)
    o.orthopoly1d.__call__ = call


def _wrap_isinstance():
    """In /repo's modules a symbolic real counts as a float and a symbolic integer as an int."""
    import builtins
    import numbers
    from importlib.machinery import SourceFileLoader
    orig, exec_module = builtins.isinstance, SourceFileLoader.exec_module
    reals = (float, np.floating, numbers.Real, numbers.Number)
    ints = (int, np.integer, numbers.Integral) + reals[2:]

    def flat(T):
        for q in (T if orig(T, tuple) else (T,)):
            if orig(q, tuple):
                yield from flat(q)
            else:
                yield q

    def sym_isinstance(x, T, /):
        if orig(x, T):
            return True
        c = type(x)
        if c is S:
            return any(q in reals for q in flat(T))
        if c is SI:
            return any(q in ints for q in flat(T))
        return False

    def exec_(self, module):
        if self.path.startswith(REPO):
            module.__dict__['isinstance'] = sym_isinstance
        return exec_module(self, module)
    SourceFileLoader.exec_module = exec_


def install():
    global _installed
    if _installed:
        return
    _installed = True
    for n in ('zeros', 'ones', 'empty', 'full'):
        if n == 'full':
            continue
        _wrap_alloc(n)
    for n in ('zeros_like', 'ones_like', 'empty_like'):
        _wrap_like(n)
    for n, f in _METH.items():
        _wrap_unary(n, f)
    _wrap_array()
    _wrap_close()
    _wrap_linalg()
    _wrap_scipy()
    _wrap_lil()
    _wrap_spsolve()
    _wrap_orthopoly()
    _wrap_isinstance()
