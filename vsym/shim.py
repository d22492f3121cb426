"""Import hook: modules of the code under test see proxies of numpy / scipy / numpy_indexed / math that
understand symbolic values. Nothing in /repo is edited; its current sources are imported and executed."""
import builtins
import importlib
import math
import sys
import types

import numpy as np
import numpy_indexed as npi
import scipy
import scipy.sparse
import scipy.sparse.linalg
import scipy.sparse.csgraph
import scipy.ndimage
import scipy.spatial
import scipy.special
import scipy.optimize
import scipy.linalg

from vsym import arr as A
from vsym import sparse as SP
from vsym import spectral as SPEC
from vsym.arr import SymArr, wrap, wrap_out, contains_sym, unwrap_nested, new
from vsym.core import S, SBool, Unsupported, is_sym, uf

PREFIXES = ('pycomplex', 'examples')


def has_symarr(x, d=0):
    if isinstance(x, (SymArr, S, SBool, SP.SymSparse)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and A.has_sym_obj(x)
    if isinstance(x, (list, tuple)):
        return d < 6 and any(has_symarr(y, d + 1) for y in x)
    if isinstance(x, dict):
        return any(has_symarr(y, d + 1) for y in x.values())
    return False


def generic(real):
    def f(*a, **k):
        if SPEC.has_spec(a):
            return SPEC.call(real, a, k)
        if has_symarr(a) or has_symarr(k):
            return A.func_dispatch(real, a, k)
        return wrap_out(real(*a, **k))
    f.__name__ = getattr(real, '__name__', 'f')
    f._vsym_real = real
    return f


class UfuncProxy:
    def __init__(self, u):
        self.u = u
        self.__name__ = u.__name__

    def __call__(self, *a, out=None, **k):
        n = self.u.nin
        if len(a) > n:
            out = a[n:]
            a = a[:n]
        if out is not None and not isinstance(out, tuple):
            out = (out,)
        if SPEC.has_spec(a):
            return SPEC.call(self.u, a, k)
        if has_symarr(a) or has_symarr(out):
            a = tuple(A.wrap(x) if isinstance(x, (list, tuple)) else x for x in a)
            r = A.ufunc_dispatch(self.u, '__call__', a, out, dict(k))
            if r is NotImplemented:
                # sparse operand or foreign object: defer to the operators
                r = foreign(self.u.__name__, a)
            return r
        if out is not None:
            k['out'] = out
        return wrap_out(self.u(*a, **k))

    def _m(self, m):
        def f(*a, out=None, **k):
            a = tuple(A.wrap(x) if isinstance(x, list) and i != 1 else x for i, x in enumerate(a))
            if has_symarr(a) or has_symarr(out):
                return A.ufunc_dispatch(self.u, m, a, None if out is None else (out,), dict(k))
            if out is not None:
                k['out'] = out
            return wrap_out(getattr(self.u, m)(*a, **k))
        return f

    def __getattr__(self, name):
        if name in ('reduce', 'accumulate', 'outer', 'at', 'reduceat'):
            return self._m(name)
        return getattr(self.u, name)


def foreign(name, a):
    import operator
    ops = {'add': operator.add, 'subtract': operator.sub, 'multiply': operator.mul, 'true_divide': operator.truediv,
           'divide': operator.truediv, 'matmul': operator.matmul, 'negative': operator.neg, 'absolute': abs}
    if name in ops:
        return ops[name](*a)
    if name == 'sqrt' and hasattr(a[0], 'sqrt'):
        return a[0].sqrt()
    raise Unsupported('ufunc %s on foreign operand' % name)


class ModProxy(types.ModuleType):
    def __init__(self, real, overrides=None, subs=None):
        super().__init__(real.__name__)
        d = object.__getattribute__(self, '__dict__')
        d['_real'] = real
        d['_over'] = overrides or {}
        d['_cache'] = {}

    def __getattr__(self, name):
        d = object.__getattribute__(self, '__dict__')
        if name in d['_over']:
            return d['_over'][name]
        if name in d['_cache']:
            return d['_cache'][name]
        v = getattr(d['_real'], name)
        r = proxy_value(v)
        d['_cache'][name] = r
        return r

    def __dir__(self):
        return dir(self._real)


class IndexTrick:
    def __init__(self, real):
        self.real = real

    def __getitem__(self, k):
        if has_symarr(k):
            if self.real is np.r_:
                return np.concatenate([np.atleast_1d(wrap(x)) for x in (k if isinstance(k, tuple) else (k,))])
            if self.real is np.c_:
                return np.column_stack([wrap(x) for x in k])
            raise Unsupported('index trick')
        return wrap_out(self.real[k])


PROXIES = {}


def proxy_value(v):
    if isinstance(v, types.ModuleType):
        n = v.__name__
        if n.split('.')[0] in ('numpy', 'scipy', 'numpy_indexed', 'math'):
            return proxy_module(v)
        return v
    if isinstance(v, np.ufunc):
        return UfuncProxy(v)
    if v is np.r_ or v is np.c_ or v is np.mgrid or v is np.ogrid:
        return IndexTrick(v)
    if isinstance(v, type):
        return v
    if callable(v):
        if v in CREATORS:
            return CREATORS[v]
        return generic(v)
    return v


def proxy_module(real):
    if real.__name__ in PROXIES:
        return PROXIES[real.__name__]
    p = ModProxy(real, OVERRIDES.get(real.__name__, {}))
    PROXIES[real.__name__] = p
    return p


# -- numpy creators

def c_array(x, dtype=None, *a, copy=True, order=None, subok=False, ndmin=0):
    if isinstance(x, SPEC.Spec):
        return x.copy()
    if not has_symarr(x):
        if isinstance(x, np.ndarray) and x.dtype == object and dtype is None:
            return np.array(x, copy=copy)
        r = wrap_out(np.array(x, dtype=dtype, ndmin=ndmin))
        return r
    if dtype is not None and np.dtype(dtype) == object:
        return np.array(x, dtype=object)
    if isinstance(x, (list, tuple)) and not contains_sym(x):
        return wrap_out(np.array(unwrap_nested(x), dtype=dtype, ndmin=ndmin))
    if isinstance(x, (list, tuple)) and len(x) and any(isinstance(y, SP.SymSparse) for y in x):
        r = np.empty(len(x), object)
        for i, y in enumerate(x):
            r[i] = y
        return r
    w = wrap(x)
    r = w.copy() if dtype is None else w.astype(dtype)
    if r is w:
        r = w.copy()
    while r.ndim < ndmin:
        r = r[None]
    return r


def c_asarray(x, dtype=None, order=None, **k):
    if isinstance(x, SPEC.Spec):
        return x
    if isinstance(x, SymArr):
        if dtype is None or np.dtype(dtype) == x.dtype:
            return x
        return x.astype(dtype)
    if isinstance(x, np.ndarray) and x.dtype == object and not A.has_sym_obj(x) and (dtype is None or np.dtype(dtype) == object):
        return x
    return c_array(x, dtype=dtype)


def c_contiguous(x, dtype=None, **k):
    r = c_asarray(x, dtype=dtype)
    if isinstance(r, np.ndarray) and not r.flags.c_contiguous:
        r = r.copy()
    return r


def creator(fill):
    def f(shape, dtype=float, order='C', **k):
        if has_symarr(shape):
            if isinstance(shape, (list, tuple)):
                shape = tuple(int(s) for s in shape)
            else:
                shape = int(shape) if np.ndim(shape) == 0 else tuple(int(s) for s in shape)
        return new(shape, fill, dtype)
    return f


def c_full(shape, fill_value, dtype=None, order='C', **k):
    if dtype is None:
        dtype = wrap(fill_value).dtype
    return new(shape, fill_value if not isinstance(fill_value, (list, tuple)) else wrap(fill_value), dtype)


def like(f):
    def g(a, dtype=None, *r, **k):
        if not isinstance(a, np.ndarray):
            a = wrap(a)
        if a.dtype == object and not isinstance(a, SymArr) and dtype is None and not A.has_sym_obj(a):
            return {'0': np.zeros_like, '1': np.ones_like}[f](a)
        return A._like(int(f))(a, dtype, **k)
    return g


def c_fromfunction(function, shape, dtype=float, **k):
    idx = wrap(np.indices(shape, dtype=dtype))
    return function(*[idx[i] for i in range(len(shape))], **k)


def c_isscalar(x):
    return True if is_sym(x) else np.isscalar(x)


class NDMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, np.ndarray)

    def __subclasscheck__(cls, c):
        return issubclass(c, np.ndarray)

    def __call__(cls, *a, **k):
        b = k.get('buffer')
        if isinstance(b, SymArr):
            if not b.flags.c_contiguous:
                raise BufferError('memoryview: underlying buffer is not contiguous')
            t = np.dtype('i%d' % b.itemsize)   # same item size as b claims
            k = dict(k, buffer=np.arange(b.size, dtype=t), dtype=t)
            i = np.ndarray(*a, **k)
            return b.reshape(-1)[i]
        return wrap_out(np.ndarray(*a, **k))


class NDArrayProxy(metaclass=NDMeta):
    pass


CREATORS = {
    np.array: c_array, np.asarray: c_asarray, np.asanyarray: c_asarray, np.ascontiguousarray: c_contiguous,
    np.require: lambda a, dtype=None, requirements=None, **k: c_asarray(a, dtype),
    np.zeros: creator(0), np.ones: creator(1), np.empty: creator(0), np.full: c_full,
    np.zeros_like: like('0'), np.ones_like: like('1'), np.empty_like: like('0'),
    np.fromfunction: c_fromfunction, np.isscalar: c_isscalar,
    np.nonzero: generic(np.nonzero),
    np.fromiter: lambda iter, dtype, count=-1, **k: c_array(list(iter) if count < 0 else [x for x, _ in zip(iter, range(count))], dtype),
}


def c_nditer(*a, **k):
    raise Unsupported('nditer')


class Vectorize:
    def __init__(self, f, *a, **k):
        self.f = f

    def __call__(self, *args):
        g = np.frompyfunc(self.f, len(args), 1)
        return wrap(g(*[A.raw(x) for x in args]))


# -- numpy_indexed

class ObjProxy:
    """wraps GroupBy / Index objects of numpy_indexed built over order-isomorphic keys"""

    def __init__(self, obj, back):
        self._obj = obj
        self._back = back

    def __getattr__(self, name):
        v = getattr(self._obj, name)
        if name in ('unique', 'sorted', '_keys', 'keys') and self._back is not None:
            return self._back(v)
        if callable(v) and not isinstance(v, np.ndarray):
            def f(*a, **k):
                a = tuple(x.view_raw() if isinstance(x, SymArr) and x.is_symbolic() else unwrap_nested(x) for x in a)
                k = {q: (x.view_raw() if isinstance(x, SymArr) and x.is_symbolic() else unwrap_nested(x)) for q, x in k.items()}
                r = v(*a, **k)
                if isinstance(r, tuple) and len(r) == 2 and self._back is not None and isinstance(r[0], np.ndarray):
                    return (self._back(r[0]), wrap_out(r[1]))
                return wrap_deep(r)
            return f
        return wrap_deep(v)

    def __iter__(self):
        return iter(self._obj)


def wrap_deep(r):
    if isinstance(r, (list,)):
        return [wrap_deep(x) for x in r]
    if type(r) is tuple:
        return tuple(wrap_deep(x) for x in r)
    return wrap_out(r)


def as_keys(keys):
    """(real keys, back-translation) with symbolic entries replaced by joint ranks"""
    if isinstance(keys, ObjProxy):
        return keys._obj, keys._back
    if isinstance(keys, (tuple, list)) and len(keys) and isinstance(keys[0], np.ndarray):
        out = [as_keys(k)[0] for k in keys]
        return type(keys)(out), None
    k = wrap(keys)
    if not k.is_symbolic():
        return k.plain(), wrap_deep
    (r,), vals = A.rank_arrays(k)
    return r, (lambda q: A.values_from_ranks(np.asarray(q), vals, k._dt))


def n_group_by(keys, values=None, reduction=None, axis=0):
    k, back = as_keys(keys)
    g = ObjProxy(npi.group_by(k, axis=axis), back)
    if values is None:
        return g
    groups = g.split(values)
    if reduction is None:
        return g.unique, groups
    return [(key, reduction(group)) for key, group in zip(g.unique, groups)]


def n_as_index(keys, axis=0, base=False, lex_as_struct=False):
    k, back = as_keys(keys)
    return ObjProxy(npi.as_index(k, axis=axis, base=base, lex_as_struct=lex_as_struct), back)


def n_unique(keys, axis=0, return_index=False, return_inverse=False, return_count=False, **kw):
    k, back = as_keys(keys)
    r = npi.unique(k, axis, return_index, return_inverse, return_count, **kw)
    if isinstance(r, tuple):
        return (back(r[0]) if back else wrap_deep(r[0]),) + tuple(wrap_out(x) for x in r[1:])
    return back(r) if back else wrap_deep(r)


def two(real):
    def f(this, that, *a, **k):
        if isinstance(this, (tuple, list)) and isinstance(this[0], np.ndarray):
            pairs = [A.rank_arrays(x, y)[0] for x, y in zip(this, that)]
            return wrap_out(real(type(this)(p[0] for p in pairs), type(that)(p[1] for p in pairs), *a, **k))
        x, y = wrap(this), wrap(that)
        if not x.is_symbolic() and not y.is_symbolic():
            return wrap_deep(real(x.plain(), y.plain(), *unwrap_nested(a), **unwrap_nested(k)))
        (rx, ry), vals = A.rank_arrays(x, y)
        r = real(rx, ry, *a, **k)
        if real in SETOPS:
            return A.values_from_ranks(r, vals, x._dt)
        return wrap_deep(r)
    return f


SETOPS = {npi.union, npi.intersection, npi.difference, npi.exclusive}


def one(real):
    def f(keys, *a, **k):
        q, back = as_keys(keys)
        r = real(q, *unwrap_nested(a), **unwrap_nested(k))
        if isinstance(r, tuple) and len(r) == 2 and back:
            return back(r[0]), wrap_out(r[1])
        return wrap_deep(r)
    return f


# -- scipy

PROBES = {}


def probe_key(x):
    if isinstance(x, np.ndarray):
        return (x.shape, str(x.dtype), x.tobytes())
    if isinstance(x, (list, tuple)):
        return tuple(probe_key(y) for y in x)
    return (type(x).__name__, x)


def linear_probe(real, nout_shape=None):
    """model of a C routine that is linear in its first argument: the real routine applied to the basis"""
    import inspect
    names = list(inspect.signature(real).parameters)

    def f(x, *a, **k):
        k = dict(zip(names[1:], a), **k)
        o = k.pop('output', None)
        w = wrap(x)
        k = {n: v.plain() if isinstance(v, SymArr) and not v.is_symbolic() else unwrap_nested(v) for n, v in k.items()}
        if any(contains_sym(v) for v in k.values()):
            raise Unsupported('%s with symbolic parameters' % real.__name__)
        if not w.is_symbolic():
            r = wrap_out(real(w.plain().astype(float) if w.dtype.kind in 'f' else w.plain(), **k))
        else:
            key = (real.__name__, w.shape, tuple(sorted((n, probe_key(v)) for n, v in k.items())))
            n = w.size
            if key not in PROBES:
                cols = []
                for i in range(n):
                    e = np.zeros(n)
                    e[i] = 1
                    cols.append(real(e.reshape(w.shape), **k))
                M = np.stack(cols, -1)
                PROBES[key] = M.shape[:-1], M.reshape(-1, n)
            oshape, M = PROBES[key]
            xs = w.view_raw().ravel().tolist()
            out = np.empty(len(M), object)
            for i in range(len(M)):
                nz = np.flatnonzero(M[i])
                out[i] = A.dot1([float(M[i, j]) for j in nz], [xs[j] for j in nz])
            r = np.ndarray.view(out.reshape(oshape), SymArr)
            r._dt = np.dtype(float)
        if isinstance(o, np.ndarray):
            if o.shape != r.shape:
                raise RuntimeError('output shape not correct')
            o[...] = r
            return None if real.__name__ in ('convolve1d', 'correlate1d') and False else o
        if o is not None:
            r = r.astype(o)
        return r
    f.__name__ = real.__name__
    return f


_mapc = linear_probe(scipy.ndimage.map_coordinates)


def p_map_coordinates(input, coordinates, output=None, order=3, mode='constant', cval=0.0, prefilter=True):
    """multilinear interpolation at symbolic points (order 1, mode constant): cells found by forking"""
    c = wrap(coordinates)
    if not c.is_symbolic():
        return _mapc(input, c.plain(), order=order, mode=mode, cval=cval, prefilter=prefilter)
    if order != 1 or mode != 'constant' or output is not None:
        raise Unsupported('map_coordinates at symbolic points')
    f = wrap(input)
    n = f.ndim
    F = f.view_raw()
    C = c.view_raw()
    out = np.empty(C.shape[1:], object)
    for q in np.ndindex(*C.shape[1:]):
        lo, w = [], []
        for d in range(n):
            x = C[(d,) + q]
            N = f.shape[d]
            if bool(A.truth(x < 0)) or bool(A.truth(x > N - 1)):
                lo = None
                break
            i = min(int(np.floor(wrap(x)).item()) if is_sym(x) else int(math.floor(x)), N - 1)
            lo.append(i)
            w.append(x - i)
        if lo is None:
            out[q] = cval
            continue
        terms = []
        for J in __import__('itertools').product((0, 1), repeat=n):
            idx = tuple(min(i + j, N - 1) for i, j, N in zip(lo, J, f.shape))
            v = F[idx]
            for j, t in zip(J, w):
                v = A._mul(v, t if j else 1 - t)
            terms.append(v)
        out[q] = A.sum_many(terms)
    r = np.ndarray.view(out, SymArr)
    r._dt = np.dtype(float)
    return r


class SparseMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls._real) or (isinstance(x, SP.SymSparse) and x.format == cls._fmt)

    def __call__(cls, *a, **k):
        return cls._ctor(*a, **k)


def sparse_class(real, fmt):
    return SparseMeta(real.__name__, (), {'_real': real, '_fmt': fmt, '_ctor': staticmethod(SP.sym_ctor(real, fmt))})


def p_issparse(x):
    return isinstance(x, SP.SymSparse) or scipy.sparse.issparse(x)


def concrete_only(real):
    def f(*a, **k):
        if contains_sym(a) or contains_sym(k):
            raise Unsupported('%s on symbolic arguments' % getattr(real, '__name__', real))
        return wrap_out(real(*unwrap_nested(a), **unwrap_nested(k)))
    f.__name__ = getattr(real, '__name__', 'f')
    return f


class KDTree:
    """nearest neighbour search; model: index of a minimiser of the squared distance, found by forking"""

    def __init__(self, data, *a, **k):
        self.data_ = wrap(data)
        self.sym = self.data_.is_symbolic()
        self.real = None if self.sym else scipy.spatial.cKDTree(self.data_.plain(), *a, **k)
        self.n, self.m = self.data_.shape

    @property
    def data(self):
        return self.data_

    def query(self, x, k=1, **kw):
        w = wrap(x)
        if not self.sym and not w.is_symbolic():
            return wrap_out(self.real.query(w.plain(), k=k, **kw))
        if k != 1:
            raise Unsupported('kd-tree query k>1 on symbolic points')
        lead = w.shape[:-1]
        idx = np.empty(lead, int)
        dist = np.empty(lead, object)
        D = self.data_.view_raw()
        for q in np.ndindex(lead):
            p = w.view_raw()[q]
            ds = [A.sum_many([(p[j] - D[i, j]) ** 2 if is_sym(p[j] - D[i, j]) else (p[j] - D[i, j]) ** 2 for j in range(self.m)]) for i in range(self.n)]
            best = 0
            for i in range(1, self.n):
                if bool(A.truth(ds[i] < ds[best])):
                    best = i
            idx[q] = best
            dist[q] = ds[best]
        return wrap(dist) if False else LazySqrt(dist), wrap(idx)


def LazySqrt(d):
    return A.finish(np.frompyfunc(A._sqrt, 1, 1)(d) if d.ndim else A._sqrt(d.item()), np.dtype(float))


sparse_over = dict(
    diags=SP.sym_diags,
    spdiags=concrete_only(scipy.sparse.spdiags),
    bmat=SP.sym_bmat, block_diag=SP.sym_block_diag, kron=SP.sym_kron,
    vstack=lambda blocks, format=None, dtype=None: SP.sym_bmat([[b] for b in blocks], format, dtype),
    hstack=lambda blocks, format=None, dtype=None: SP.sym_bmat([list(blocks)], format, dtype),
    issparse=p_issparse, isspmatrix=p_issparse,
    eye=lambda *a, **k: scipy.sparse.eye(*unwrap_nested(a), **k),
    identity=lambda *a, **k: scipy.sparse.identity(*unwrap_nested(a), **k),
)
for _f in ('csr', 'csc', 'coo', 'dia', 'bsr', 'lil', 'dok'):
    for _s in ('_matrix', '_array'):
        if hasattr(scipy.sparse, _f + _s):
            sparse_over[_f + _s] = sparse_class(getattr(scipy.sparse, _f + _s), _f)

def p_minres(A_, b, *a, **k):
    """model: the solution of least norm (for a concrete matrix)"""
    if not contains_sym(b) and not contains_sym(A_):
        return wrap_out(scipy.sparse.linalg.minres(*unwrap_nested((A_, b) + a), **unwrap_nested(k)))
    M = A_.toarray()
    M = M.plain() if isinstance(M, SymArr) else np.asarray(M)
    M = np.linalg.pinv(M.astype(float))
    xs = wrap(b).view_raw().ravel().tolist()
    out = np.empty(len(M), object)
    for i in range(len(M)):
        nz = np.flatnonzero(np.abs(M[i]) > 1e-12)
        out[i] = A.dot1([float(M[i, j]) for j in nz], [xs[j] for j in nz])
    r = np.ndarray.view(out, SymArr)
    r._dt = np.dtype(float)
    return r, 0


OVERRIDES = {
    'numpy': {'ndarray': NDArrayProxy, 'nditer': c_nditer, 'vectorize': Vectorize},
    'numpy_indexed': dict(group_by=n_group_by, as_index=n_as_index, unique=n_unique,
                          indices=two(npi.indices), contains=two(npi.contains), in_=two(npi.in_),
                          union=two(npi.union), intersection=two(npi.intersection), difference=two(npi.difference),
                          exclusive=two(npi.exclusive), count=one(npi.count), all_unique=one(npi.all_unique),
                          all_equal=one(npi.all_equal), multiplicity=one(npi.multiplicity), any_equal=one(npi.any_equal),
                          any_unique=one(npi.any_unique), rank=one(npi.rank), sort=one(npi.sort), argsort=one(npi.argsort)),
    'scipy.sparse': sparse_over,
    'scipy.sparse.linalg': dict(minres=p_minres),
    'scipy.sparse.csgraph': dict(connected_components=concrete_only(scipy.sparse.csgraph.connected_components)),
    'scipy.ndimage': {n: linear_probe(getattr(scipy.ndimage, n)) for n in
                      ('convolve1d', 'correlate1d', 'convolve', 'correlate', 'gaussian_filter', 'gaussian_filter1d',
                       'uniform_filter', 'uniform_filter1d', 'laplace', 'zoom', 'shift', 'spline_filter', 'affine_transform')},
    'scipy.spatial': dict(cKDTree=KDTree, KDTree=KDTree),
    'scipy.special': dict(factorial=lambda n, exact=False: scipy.special.factorial(unwrap_nested(n) if not isinstance(n, SymArr) else n.plain(), exact=exact)),
    'math': {},
}


def mathfn(name):
    real = getattr(math, name)
    table = {'sqrt': lambda x: x.sqrt(), 'fabs': abs, 'floor': lambda x: x.__floor__(), 'ceil': lambda x: x.__ceil__(),
             'cos': lambda x: uf('cos', x), 'sin': lambda x: uf('sin', x), 'acos': lambda x: uf('arccos', x),
             'asin': lambda x: uf('arcsin', x), 'atan': lambda x: uf('arctan', x), 'exp': lambda x: uf('exp', x),
             'log': lambda x: uf('log', x), 'tan': lambda x: uf('tan', x), 'atan2': lambda *x: uf('arctan2', *x)}

    def f(*a):
        a = tuple(x.item() if isinstance(x, np.ndarray) and x.size == 1 else x for x in a)
        if any(is_sym(x) for x in a):
            if name == 'pow':
                return A._pow(*a)
            if name in table:
                return table[name](*a)
            raise Unsupported('math.%s' % name)
        return real(*a)
    return f


for _n in ('sqrt', 'fabs', 'floor', 'ceil', 'cos', 'sin', 'acos', 'asin', 'atan', 'exp', 'log', 'tan', 'atan2', 'pow', 'isclose'):
    OVERRIDES['math'][_n] = mathfn(_n)

OVERRIDES['scipy.ndimage']['map_coordinates'] = p_map_coordinates
MATRICES = {}

_real_import = builtins.__import__
_installed = False


def _hook(name, globals=None, locals=None, fromlist=(), level=0):
    m = _real_import(name, globals, locals, fromlist, level)
    if level == 0 and globals is not None:
        who = globals.get('__name__') or ''
        if who.split('.')[0] in PREFIXES:
            top = name.split('.')[0]
            if top in ('numpy', 'scipy', 'numpy_indexed', 'math'):
                return proxy_module(m)
    return m


def install():
    global _installed
    if _installed:
        return
    for k in list(sys.modules):
        if k.split('.')[0] in PREFIXES:
            raise RuntimeError('code under test imported before the shim: %s' % k)
    SP.install()
    builtins.__import__ = _hook
    _installed = True
