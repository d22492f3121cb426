"""Sparse matrices with symbolic entries, and products of real scipy matrices with symbolic arrays."""
import numpy as np
import scipy.sparse
import scipy.sparse._base as _sb

from vsym.core import S, SBool, Unsupported, is_sym
from vsym import arr as A
from vsym.arr import SymArr, wrap, contains_sym, wrap_out, sum_many, new


def mat_entries(m):
    """(rows, cols, vals) of any sparse matrix, duplicates summed"""
    if isinstance(m, SymSparse):
        return m.summed()
    c = m.tocsr().tocoo()
    return c.row.tolist(), c.col.tolist(), c.data.tolist()


class SymSparse:
    _vsym_sparse = True
    __array_ufunc__ = None
    __array_priority__ = 10.1
    ndim = 2
    array = False

    def __init__(self, rows, cols, vals, shape, fmt='csr'):
        self.rows = [int(r) for r in rows]
        self.cols = [int(c) for c in cols]
        self.vals = list(vals)
        self.shape = (int(shape[0]), int(shape[1]))
        self.format = fmt
        if self.rows and (max(self.rows) >= self.shape[0] or max(self.cols) >= self.shape[1] or min(self.rows) < 0 or min(self.cols) < 0):
            raise ValueError('index exceeds matrix dimensions')

    @property
    def _vsym_symbolic(self):
        return any(is_sym(v) for v in self.vals)

    @property
    def dtype(self):
        return A.guess_dtype(np.array(self.vals + [0], dtype=object))

    @property
    def nnz(self):
        return len(self.vals)

    def summed(self):
        d = {}
        for r, c, v in zip(self.rows, self.cols, self.vals):
            d.setdefault((r, c), []).append(v)
        ks = sorted(d)
        vs = [d[k][0] if len(d[k]) == 1 else sum_many(d[k]) for k in ks]
        return [k[0] for k in ks], [k[1] for k in ks], vs

    def _new(self, r, c, v, shape, fmt=None):
        m = SymSparse(r, c, v, shape, fmt or self.format)
        m.array = self.array
        return m

    def copy(self):
        return self._new(self.rows, self.cols, self.vals, self.shape)

    def tocsr(self, *a, **k):
        r, c, v = self.summed()
        return self._new(r, c, v, self.shape, 'csr')

    def tocsc(self, *a, **k):
        r, c, v = self.summed()
        return self._new(r, c, v, self.shape, 'csc')

    def tocoo(self, *a, **k):
        return self._new(self.rows, self.cols, self.vals, self.shape, 'coo')

    def todia(self, *a, **k):
        r, c, v = self.summed()
        return self._new(r, c, v, self.shape, 'dia')

    def tobsr(self, *a, **k):
        return self.tocsr()
    tolil = todok = tobsr

    @property
    def offsets(self):
        if self.format != 'dia':
            raise AttributeError('offsets')
        o = sorted({c - r for r, c in zip(self.rows, self.cols)})
        return wrap(np.array(o, dtype=np.int32))

    def asformat(self, f, *a, **k):
        return self._new(self.rows, self.cols, self.vals, self.shape, f or self.format)

    def astype(self, dt, *a, **k):
        return self

    def eliminate_zeros(self):
        keep = [i for i, v in enumerate(self.vals) if is_sym(v) or v != 0]
        self.rows = [self.rows[i] for i in keep]
        self.cols = [self.cols[i] for i in keep]
        self.vals = [self.vals[i] for i in keep]

    def sum_duplicates(self):
        self.rows, self.cols, self.vals = self.summed()

    def sort_indices(self):
        self.sum_duplicates()

    @property
    def row(self):
        return wrap(np.array(self.rows, dtype=np.int32))

    @property
    def col(self):
        return wrap(np.array(self.cols, dtype=np.int32))

    @property
    def indices(self):
        return self.col

    @property
    def data(self):
        if self.format == 'dia':
            o = {k: i for i, k in enumerate(sorted({c - r for r, c in zip(self.rows, self.cols)}))}
            d = np.zeros((len(o), self.shape[1]), object)
            for r, c, v in zip(*self.summed()):
                d[o[c - r], c] = v
            return wrap(d)
        d = np.empty(len(self.vals), object)
        for i, v in enumerate(self.vals):
            d[i] = v
        return wrap(d)

    @data.setter
    def data(self, v):
        if self.format == 'dia':
            raise Unsupported('entries of a symbolic dia matrix assigned')
        v = wrap(v)
        self.vals = v.view_raw().tolist()

    def toarray(self, *a, **k):
        d = new(self.shape, 0, float)
        raw = d.view_raw()
        for r, c, v in zip(*self.summed()):
            raw[r, c] = v
        return d
    todense = toarray

    @property
    def A(self):
        return self.toarray()

    def transpose(self, *a, **k):
        return self._new(self.cols, self.rows, self.vals, (self.shape[1], self.shape[0]))

    @property
    def T(self):
        return self.transpose()

    @property
    def H(self):
        return self.transpose()
    getH = transpose

    def conj(self):
        return self
    conjugate = conj

    def diagonal(self, k=0):
        n = min(self.shape[0] + min(k, 0), self.shape[1] - max(k, 0))
        d = new(n, 0, float)
        raw = d.view_raw()
        for r, c, v in zip(*self.summed()):
            if c - r == k:
                raw[r if k >= 0 else c] = v
        return d

    def sum(self, axis=None, dtype=None, out=None):
        r, c, v = self.summed()
        if axis is None:
            return sum_many(v)
        axis = axis % 2
        n = self.shape[1 - axis]
        acc = [[] for _ in range(n)]
        for i, j, x in zip(r, c, v):
            acc[j if axis == 0 else i].append(x)
        d = new(n, 0, float)
        raw = d.view_raw()
        for i in range(n):
            raw[i] = sum_many(acc[i])
        return d.reshape((1, -1) if axis == 0 else (-1, 1))

    def mean(self, axis=None, **k):
        s = self.sum(axis)
        return s / (self.shape[0] * self.shape[1] if axis is None else self.shape[axis % 2])

    def scale(self, s):
        return self._new(self.rows, self.cols, [A._num(v) * s for v in self.vals], self.shape)

    def __neg__(self):
        return self.scale(-1)

    def __abs__(self):
        r, c, v = self.summed()
        return self._new(r, c, [abs(x) for x in v], self.shape)

    def power(self, n, dtype=None):
        r, c, v = self.summed()
        return self._new(r, c, [A._pow(x, n) for x in v], self.shape)

    def sqrt(self):
        r, c, v = self.summed()
        return self._new(r, c, [A._sqrt(x) for x in v], self.shape)

    def __mul__(self, o):
        return self.multiply(o) if self.array else sp_mul(self, o)

    def __rmul__(self, o):
        return self.multiply(o) if self.array else sp_rmul(self, o)

    def __matmul__(self, o):
        return sp_mul(self, o)

    def __rmatmul__(self, o):
        return sp_rmul(self, o)

    def dot(self, o):
        return sp_mul(self, o)

    def __truediv__(self, o):
        if A.is_sym(o) or isinstance(o, (int, float, np.generic)):
            return self._new(self.rows, self.cols, [A._div(A._num(v), o) for v in self.vals], self.shape)
        return NotImplemented

    def __imul__(self, o):
        return self * o

    def __itruediv__(self, o):
        return self / o

    def __add__(self, o):
        if isinstance(o, SymSparse) or scipy.sparse.issparse(o):
            if o.shape != self.shape:
                raise ValueError('inconsistent shapes')
            r, c, v = mat_entries(o)
            s = self._new(self.rows + r, self.cols + c, self.vals + v, self.shape, 'csr').tocsr()
            k = [i for i, x in enumerate(s.vals) if (x.const() if isinstance(x, S) else x) != 0]      # so does scipy
            return s._new([s.rows[i] for i in k], [s.cols[i] for i in k], [s.vals[i] for i in k], s.shape, 'csr')
        if isinstance(o, (int, float)) and o == 0:
            return self
        if isinstance(o, np.ndarray):
            return self.toarray() + o
        return NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, SymSparse):
            return self + o.scale(-1)
        if scipy.sparse.issparse(o):
            return self + (-o)
        if isinstance(o, (int, float)) and o == 0:
            return self
        return NotImplemented

    def __rsub__(self, o):
        return (-self) + o

    def multiply(self, o):
        if is_sym(o) or isinstance(o, (int, float, np.generic)):
            return self.scale(o)
        r, c, v = self.summed()
        if isinstance(o, SymSparse) or scipy.sparse.issparse(o):
            d = dict(zip(zip(*mat_entries(o)[:2]), mat_entries(o)[2]))
            k = [i for i in range(len(r)) if (r[i], c[i]) in d]
            return self._new([r[i] for i in k], [c[i] for i in k], [v[i] * d[r[i], c[i]] for i in k], self.shape)
        o = np.broadcast_to(wrap(o).view_raw(), self.shape)
        return self._new(r, c, [v[i] * o[r[i], c[i]] for i in range(len(r))], self.shape, 'coo')

    def __getitem__(self, key):
        return self.toarray()[key]

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)

    def __len__(self):
        raise TypeError('sparse matrix length is ambiguous; use getnnz()')

    def __repr__(self):
        return 'SymSparse%s' % (self.shape,)


def sp_mul(m, o):
    if is_sym(o) or isinstance(o, (int, float, np.generic)) and np.ndim(o) == 0:
        if isinstance(m, SymSparse):
            return m.scale(o)
        r, c, v = mat_entries(m)
        return SymSparse(r, c, [x * o for x in v], m.shape)
    if isinstance(o, SymSparse) or scipy.sparse.issparse(o):
        if m.shape[1] != o.shape[0]:
            raise ValueError('dimension mismatch')
        r1, c1, v1 = mat_entries(m)
        r2, c2, v2 = mat_entries(o)
        rows = {}
        for r, c, v in zip(r2, c2, v2):
            rows.setdefault(r, []).append((c, v))
        acc = {}
        for r, c, v in zip(r1, c1, v1):
            for c_, w in rows.get(c, ()):
                acc.setdefault((r, c_), []).append(A._num(v) * w)
        ks = sorted(acc)
        vs = {k: sum_many(acc[k]) for k in ks}
        ks = [k for k in ks if vs[k].const() != 0]     # scipy drops exact cancellations
        return SymSparse([k[0] for k in ks], [k[1] for k in ks], [vs[k] for k in ks], (m.shape[0], o.shape[1]))
    if isinstance(o, (np.ndarray, list, tuple)):
        o = wrap(o)
        if o.ndim == 0:
            return sp_mul(m, o.item())
        if o.ndim > 2 or o.shape[0] != m.shape[1]:
            raise ValueError('dimension mismatch')
        r1, c1, v1 = mat_entries(m)
        raw = o.view_raw()
        out = np.empty((m.shape[0],) + o.shape[1:], object)
        rows = [[] for _ in range(m.shape[0])]
        for r, c, v in zip(r1, c1, v1):
            rows[r].append((c, v))
        for i in range(m.shape[0]):
            if o.ndim == 1:
                out[i] = A.dot1([v for c, v in rows[i]], [raw[c] for c, v in rows[i]])
            else:
                for j in range(o.shape[1]):
                    out[i, j] = A.dot1([v for c, v in rows[i]], [raw[c, j] for c, v in rows[i]])
        r = np.ndarray.view(out, SymArr)
        r._dt = np.promote_types(m.dtype, o.dtype) if o.dtype.kind in 'ifbu' else None
        return r
    if hasattr(o, '__rmul__'):
        return NotImplemented
    return NotImplemented


def sp_rmul(m, o):
    if is_sym(o) or (isinstance(o, (int, float, np.generic)) and np.ndim(o) == 0):
        return sp_mul(m, o)
    if isinstance(o, (np.ndarray, list, tuple)):
        o = wrap(o)
        mt = m.T
        r = sp_mul(mt, o.T if o.ndim == 2 else o)
        return r.T if o.ndim == 2 else r
    if scipy.sparse.issparse(o):
        return sp_mul(o, m)
    return NotImplemented


# ---- patch the real scipy classes so that products with symbolic arrays are exact

_orig_mm = _sb._spbase._matmul_dispatch
_orig_rmm = _sb._spbase._rmatmul_dispatch
_orig_mul = _sb._spbase.multiply


def _mm(self, other, *a, **k):
    if isinstance(other, SymArr) or (isinstance(other, np.ndarray) and other.dtype == object):
        other = wrap(other)
        if not other.is_symbolic():
            return wrap_out(_orig_mm(self, other.plain()))
        return sp_mul(self, other)
    if is_sym(other) or isinstance(other, SymSparse):
        return sp_mul(self, other)
    return _orig_mm(self, other, *a, **k)


def _rmm(self, other, *a, **k):
    if isinstance(other, SymArr) or (isinstance(other, np.ndarray) and other.dtype == object):
        other = wrap(other)
        if not other.is_symbolic():
            return wrap_out(_orig_rmm(self, other.plain()))
        return sp_rmul(self, other)
    if is_sym(other):
        return sp_mul(self, other)
    return _orig_rmm(self, other, *a, **k)


def _wrap_method(cls, name):
    orig = cls.__dict__.get(name)
    if orig is None:
        return

    def f(self, other, *a, **k):
        if isinstance(other, SymArr):
            if not other.is_symbolic():
                return wrap_out(orig(self, other.plain(), *a, **k))
            r, c, v = mat_entries(self)
            return getattr(SymSparse(r, c, v, self.shape), name)(other)
        if is_sym(other) or isinstance(other, SymSparse):
            r, c, v = mat_entries(self)
            return getattr(SymSparse(r, c, v, self.shape), name)(other)
        return orig(self, other, *a, **k)
    setattr(cls, name, f)


def install():
    _sb._spbase._matmul_dispatch = _mm
    _sb._spbase._rmatmul_dispatch = _rmm
    def setter(self, name, v):
        if isinstance(v, A.SymArr):
            if v.is_symbolic():
                raise Unsupported('symbolic values assigned to %s of a sparse matrix' % name)
            v = v.plain()
        object.__setattr__(self, name, v)
    _sb._spbase.__setattr__ = setter
    seen = set()
    for n in dir(scipy.sparse):
        c = getattr(scipy.sparse, n)
        if isinstance(c, type) and issubclass(c, _sb._spbase):
            for k in c.__mro__:
                if k in seen or not issubclass(k, _sb._spbase) and k.__module__.split('.')[0] != 'scipy':
                    continue
                seen.add(k)
                for name in ('multiply', '__truediv__', '__add__', '__radd__', '__sub__', '__rsub__'):
                    _wrap_method(k, name)


# ---- constructors

def sym_ctor(real, fmt):
    def f(arg, *rest, **kw):
        if not contains_sym(arg):
            return real(A.unwrap_nested(arg), *A.unwrap_nested(tuple(rest)), **A.unwrap_nested(kw))
        shape = kw.get('shape', rest[0] if rest else None)
        if isinstance(arg, SymSparse):
            return arg.asformat(fmt)
        if isinstance(arg, tuple) and len(arg) == 2 and isinstance(arg[1], (tuple, list)):
            data, (r, c) = arg
            r, c = A.index_array(r), A.index_array(c)
            data = wrap(data)
            if not data.is_symbolic():
                kw = {k: v for k, v in kw.items() if k != 'shape'}
                return real((data.plain(), (r, c)), shape=A.unwrap_nested(shape), **kw)
            if shape is None:
                shape = (int(r.max()) + 1, int(c.max()) + 1)
            return SymSparse(r.tolist(), c.tolist(), data.view_raw().tolist(), shape, fmt)
        if isinstance(arg, tuple) and len(arg) == 2 and fmt == 'dia':
            data, off = arg
            return sym_diags(wrap(data), off, shape, fmt, dia=True)
        if isinstance(arg, tuple) and len(arg) == 2 and fmt == 'coo':
            raise Unsupported('coo ctor')
        if isinstance(arg, tuple) and len(arg) == 3:
            data, ind, ptr = arg
            ind, ptr = A.index_array(ind), A.index_array(ptr)
            rows = np.repeat(np.arange(len(ptr) - 1), np.diff(ptr))
            if shape is None:
                shape = (len(ptr) - 1, int(ind.max()) + 1)
            if fmt == 'csc':
                return SymSparse(ind.tolist(), rows.tolist(), wrap(data).view_raw().tolist(), shape, fmt)
            return SymSparse(rows.tolist(), ind.tolist(), wrap(data).view_raw().tolist(), shape, fmt)
        d = wrap(arg)
        if d.ndim == 1:
            d = d[None]
        r, c, v = [], [], []
        raw = d.view_raw()
        for i, j in np.ndindex(d.shape):
            if is_sym(raw[i, j]) or raw[i, j] != 0:
                r.append(i), c.append(j), v.append(raw[i, j])
        return SymSparse(r, c, v, d.shape, fmt)
    return f


def sym_diags(diagonals, offsets=0, shape=None, format=None, dtype=None, dia=False):
    if not contains_sym(diagonals):
        if dia:
            raise Unsupported('dia')
        return scipy.sparse.diags(A.unwrap_nested(diagonals), A.unwrap_nested(offsets), shape=shape, format=format, dtype=dtype)
    if np.ndim(offsets) == 0:
        offsets = [offsets]
        dd = diagonals
        if isinstance(dd, (list, tuple)) and len(dd) == 1 and isinstance(dd[0], (np.ndarray, list)):
            dd = dd[0]
        dd = wrap(dd)
        if dd.ndim == 2 and len(dd) == 1:
            dd = dd[0]
        ds = [dd.view_raw().ravel().tolist()]
    else:
        ds = [wrap(d).view_raw().ravel().tolist() for d in diagonals]
    offsets = [int(o) for o in A.unwrap_nested(offsets)]
    if shape is None:
        m = len(ds[0]) + abs(offsets[0])
        shape = (m, m)
    r, c, v = [], [], []
    for d, k in zip(ds, offsets):
        n = min(shape[0] + min(k, 0), shape[1] - max(k, 0))
        for i in range(n):
            if dia:
                col = i + max(k, 0)
                x = d[col] if col < len(d) else 0
            else:
                x = d[i] if len(d) > 1 else d[0]
                if len(d) not in (1, n):
                    raise ValueError('Diagonal length does not agree with matrix size')
            r.append(i - min(k, 0))
            c.append(i + max(k, 0))
            v.append(x)
    return SymSparse(r, c, v, shape, format or 'dia')


def sym_bmat(blocks, format=None, dtype=None):
    target = blocks if isinstance(blocks, np.ndarray) and blocks.dtype == object and blocks.ndim == 2 else None
    r = _sym_bmat(blocks, format, dtype)
    if target is not None:
        # scipy 1.13 replaces the blocks of an object array by coo_arrays, with elementwise products
        for i, j in np.ndindex(target.shape):
            b = target[i, j]
            if b is None:
                continue
            if isinstance(b, SymSparse):
                b = b.tocoo()
                b.array = True
                target[i, j] = b
            else:
                target[i, j] = scipy.sparse.coo_array(A.unwrap_nested(b))
    return r


def _sym_bmat(blocks, format=None, dtype=None):
    if not contains_sym(blocks) and not any(isinstance(b, SymSparse) for row in blocks for b in row):
        return scipy.sparse.bmat([[A.unwrap_nested(b) for b in r] for r in blocks], format=format, dtype=dtype)
    blocks = [list(r) for r in blocks]
    nr, nc = len(blocks), len(blocks[0])
    h = [None] * nr
    w = [None] * nc
    for i in range(nr):
        for j in range(nc):
            b = blocks[i][j]
            if b is None:
                continue
            if isinstance(b, np.ndarray):
                blocks[i][j] = b = sym_ctor(scipy.sparse.coo_matrix, 'coo')(b)
            for arr, k, s in ((h, i, b.shape[0]), (w, j, b.shape[1])):
                if arr[k] is None:
                    arr[k] = s
                elif arr[k] != s:
                    raise ValueError('incompatible block dimensions')
    if any(x is None for x in h + w):
        raise ValueError('blocks: row or column is all None')
    r, c, v = [], [], []
    for i in range(nr):
        for j in range(nc):
            b = blocks[i][j]
            if b is None:
                continue
            r_, c_, v_ = mat_entries(b)
            r += [x + sum(h[:i]) for x in r_]
            c += [x + sum(w[:j]) for x in c_]
            v += v_
    return SymSparse(r, c, v, (sum(h), sum(w)), format or 'coo')


def sym_block_diag(mats, format=None, dtype=None):
    n = len(mats)
    return sym_bmat([[mats[i] if i == j else None for j in range(n)] for i in range(n)], format, dtype) if \
        contains_sym(mats) or any(isinstance(m, SymSparse) for m in mats) else scipy.sparse.block_diag(A.unwrap_nested(mats), format, dtype)


def sym_kron(a, b, format=None):
    if not isinstance(a, SymSparse) and not isinstance(b, SymSparse) and not contains_sym([a, b]):
        return scipy.sparse.kron(A.unwrap_nested(a), A.unwrap_nested(b), format)
    ra, ca, va = mat_entries(a)
    rb, cb, vb = mat_entries(b)
    r, c, v = [], [], []
    for i, j, x in zip(ra, ca, va):
        for k, l, y in zip(rb, cb, vb):
            r.append(i * b.shape[0] + k), c.append(j * b.shape[1] + l), v.append(A._num(x) * y)
    return SymSparse(r, c, v, (a.shape[0] * b.shape[0], a.shape[1] * b.shape[1]))
