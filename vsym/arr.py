"""SymArr: an ndarray subclass with object storage holding exact/symbolic scalars plus a dtype tag.

Whenever no symbolic scalar takes part in an operation the real numpy routine runs on the plain typed
array; otherwise the models below apply.  Order-only routines (sort, argsort, unique, searchsorted, ...)
run the *real* numpy/numpy_indexed code on order-isomorphic integer keys found by forking on the
comparisons.
"""
import builtins
import functools
import itertools
import math
import operator

import numpy as np

from vsym.core import S, SBool, Unsupported, is_sym, truth, tobool, ite, uf, UFS, E, Engine, num
import z3

_F = np.dtype(float)
_I = np.dtype(int)
_B = np.dtype(bool)
_O = np.dtype(object)


def has_sym_obj(a):
    """does an object ndarray hold symbolic scalars"""
    for x in a.ravel().tolist() if a.ndim else [a.item()]:
        if isinstance(x, (S, SBool)):
            return True
    return False


def guess_dtype(a):
    kinds = set()
    for x in np.asarray(a).view(np.ndarray).ravel().tolist():
        if isinstance(x, SBool) or isinstance(x, (bool, np.bool_)):
            kinds.add('b')
        elif isinstance(x, S):
            kinds.add('i' if x.is_int() else 'f')
        elif isinstance(x, (int, np.integer)):
            kinds.add('i')
        elif isinstance(x, (float, np.floating)) or type(x).__name__ == 'Fraction':
            kinds.add('f')
        elif isinstance(x, complex):
            kinds.add('c')
        else:
            return _O
    if 'c' in kinds:
        return np.dtype(complex)
    if 'f' in kinds:
        return _F
    if 'i' in kinds:
        return _I
    if 'b' in kinds:
        return _B
    return _F


class SymArr(np.ndarray):
    """object-storage array with dtype tag"""

    def __array_finalize__(self, obj):
        self._dt = getattr(obj, '_dt', None)

    # -- identity
    @property
    def dtype(self):
        d = self._dt
        if d is None:
            d = self._dt = guess_dtype(self)
        return d

    @dtype.setter
    def dtype(self, v):
        raise Unsupported('in-place dtype change')

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def nbytes(self):
        return self.size * self.itemsize

    @property
    def strides(self):
        return tuple(x // 8 * self.itemsize for x in np.ndarray.view(self, np.ndarray).strides)

    @property
    def data(self):
        return self if self.is_symbolic() or not self.flags.c_contiguous else self.plain().data

    @property
    def raw(self):
        return self.view_raw()

    def view_raw(self):
        return np.ndarray.view(self, np.ndarray)

    @property
    def T(self):
        return self.transpose()

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return self * 0

    @property
    def flat(self):
        return FlatProxy(self)

    def is_symbolic(self):
        return has_sym_obj(self.view_raw())

    def plain(self):
        """typed plain ndarray; only for arrays without symbolic values"""
        r = self.view_raw()
        d = self.dtype
        if d == _O:
            return r
        if r.ndim == 0:
            return np.array(conv(r.item(), d), dtype=d)
        return np.array([conv(x, d) for x in r.ravel().tolist()], dtype=d).reshape(r.shape)

    def __array__(self, dtype=None):
        if self.is_symbolic():
            r = self.view_raw()
            if dtype is None or np.dtype(dtype) == _O:
                return r
            dt = np.dtype(dtype)
            if dt.kind in 'iub':
                out = np.empty(r.shape, dt)
                f = out.reshape(-1)
                for i, x in enumerate(r.ravel().tolist()):
                    f[i] = int(x) if dt.kind != 'b' else bool(x)
                return out
            raise Unsupported('symbolic array forced to dtype %s' % dt)
        p = self.plain()
        return p if dtype is None else p.astype(dtype)

    def __repr__(self):
        return 'SymArr(%s, %s)' % (np.array2string(self.view_raw(), threshold=20), self._dt)
    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    # -- indexing
    def _key(self, key):
        if isinstance(key, list) and len(key) < 32 and any(x is None or x is Ellipsis or isinstance(x, (slice, list, tuple, np.ndarray)) for x in key) \
                and not all(isinstance(x, np.ndarray) and x.ndim == 0 for x in key):
            key = tuple(key)      # numpy 1.22 reads such lists as tuples
        if not isinstance(key, tuple):
            key = (key,)
            single = True
        else:
            single = False
        out = []
        for k in key:
            if isinstance(k, (S,)):
                k = int(k)
            elif isinstance(k, SBool):
                k = bool(k)
            elif isinstance(k, tuple) and not single:
                k = index_array(list(k))      # numpy reads nested sequences as index arrays
            elif isinstance(k, (list,)) or (isinstance(k, np.ndarray)):
                k = index_array(k)
            elif isinstance(k, slice):
                k = slice(*[int(x) if isinstance(x, S) else x for x in (k.start, k.stop, k.step)])
            out.append(k)
        return out[0] if single else tuple(out)

    def __getitem__(self, key):
        sel = self._sym_select(key)
        if sel is not None:
            return sel
        r = np.ndarray.__getitem__(self.view_raw(), self._key(key))
        return self._out(r)

    def _sym_select(self, key):
        """read with one symbolic integer index on the first axis: an if-then-else chain"""
        return None

    def _out(self, r):
        if isinstance(r, np.ndarray) and r.dtype == _O:
            r = np.ndarray.view(r, SymArr)
            r._dt = self._dt
            return r
        return scalar_out(r, self.dtype)

    def __setitem__(self, key, v):
        d = self.dtype
        if isinstance(v, np.ndarray) or isinstance(v, (list, tuple)):
            v = conv_array(wrap(v), d).view_raw()
        else:
            v = conv(v, d)
        raw = self.view_raw()
        raw[self._key(key)] = v

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        for i in range(len(self)):
            yield self[i]

    def item(self, *a):
        return self.view_raw().item(*a)

    def tolist(self):
        return self.plain().tolist() if not self.is_symbolic() else self.view_raw().tolist()

    def itemset(self, *a):
        *k, v = a
        if k:
            self[k[0] if len(k) == 1 else tuple(k)] = v
        else:
            self[...] = v

    def __bool__(self):
        if self.size == 1:
            return bool(truth(self.item()))
        if self.size == 0:
            return False
        raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')

    def __int__(self):
        return int(self.item())

    def __index__(self):
        if self.ndim == 0:
            return int(self.item())
        raise TypeError('only integer scalar arrays can be converted to a scalar index')

    def __float__(self):
        return float(self.item())

    def __hash__(self):
        raise TypeError('unhashable')

    def __contains__(self, x):
        return bool((self == x).any())

    # -- methods
    def astype(self, dtype, *a, **k):
        if isinstance(dtype, np.dtype) or dtype is not None:
            dtype = np.dtype(dtype)
        if not self.is_symbolic():
            return wrap(self.plain().astype(dtype))
        if dtype.kind in 'iu' and self.dtype.kind == 'f':
            # truncation
            out = np.ndarray.view(_vec1(lambda x: conv(x, dtype))(self.view_raw()), SymArr)
            out._dt = dtype
            return out
        return conv_array(self, dtype)

    def view(self, *a, **k):
        if a or k:
            t = (a or tuple(k.values()))[0]
            if isinstance(t, type) and issubclass(t, np.ndarray):
                return self
            if self.is_symbolic():
                raise Unsupported('dtype view')
            return wrap(self.plain().view(*a, **k))
        return np.ndarray.view(self)

    def copy(self, *a, **k):
        r = np.ndarray.view(self.view_raw().copy(), SymArr)
        r._dt = self._dt
        return r
    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return reduction(np.add, self, axis, keepdims, out, dtype, **k)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return reduction(np.multiply, self, axis, keepdims, out, dtype, **k)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return reduction(np.logical_or, self, axis, keepdims, out, None, **k)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return reduction(np.logical_and, self, axis, keepdims, out, None, **k)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return reduction(np.minimum, self, axis, keepdims, out, None, **k)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return reduction(np.maximum, self, axis, keepdims, out, None, **k)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False):
        if not self.is_symbolic():
            return wrap_out(self.plain().mean(axis=axis, keepdims=keepdims))
        s = self.sum(axis, keepdims=keepdims)
        n = self.size if axis is None else int(np.prod([self.shape[i] for i in np.atleast_1d(axis)]))
        return s / n

    def ptp(self, axis=None, out=None):
        return self.max(axis) - self.min(axis)

    def argmin(self, axis=None, out=None):
        return order_call(lambda r: r.argmin(axis=axis), self)

    def argmax(self, axis=None, out=None):
        return order_call(lambda r: r.argmax(axis=axis), self)

    def argsort(self, axis=-1, kind=None, order=None):
        return order_call(lambda r: r.argsort(axis=axis, kind='stable' if kind is None else kind), self)

    def sort(self, axis=-1, kind=None, order=None):
        self[...] = H_sort(self, axis)

    def searchsorted(self, v, side='left', sorter=None):
        return H_searchsorted(self, v, side)

    def cumsum(self, axis=None, dtype=None, out=None):
        return np.cumsum(self, axis)

    def cumprod(self, axis=None, dtype=None, out=None):
        return np.cumprod(self, axis)

    def nonzero(self):
        return tuple(wrap(i) for i in np.nonzero(bool_plain(self)))

    def clip(self, min=None, max=None, out=None):
        r = self
        if min is not None:
            r = np.maximum(r, min)
        if max is not None:
            r = np.minimum(r, max)
        return r

    def round(self, *a, **k):
        if self.is_symbolic():
            raise Unsupported('round')
        return wrap(self.plain().round(*a, **k))

    def dot(self, b, out=None):
        return np.dot(self, b)

    def conj(self):
        return self
    conjugate = conj

    def take(self, indices, axis=None, out=None, mode='raise'):
        i = index_array(indices)
        r = self.view_raw().take(i, axis=axis, mode=mode)
        return self._out(r)

    def put(self, indices, values, mode='raise'):
        HANDLERS[np.put](self, indices, values)

    def partition(self, kth, axis=-1, **k):
        self.sort(axis)

    def argpartition(self, kth, axis=-1, **k):
        return self.argsort(axis)

    def choose(self, choices, out=None, mode='raise'):
        return HANDLERS[np.choose](self, choices)

    def repeat(self, repeats, axis=None):
        return self._out(self.view_raw().repeat(index_any(repeats), axis=axis))

    def fill(self, v):
        self[...] = v

    def tobytes(self, *a, **k):
        return self.plain().tobytes(*a, **k)

    def tofile(self, *a, **k):
        return self.plain().tofile(*a, **k)

    def __reduce__(self):
        raise Unsupported('pickling a symbolic array')

    # -- protocols
    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        return ufunc_dispatch(ufunc, method, inputs, out, kw)

    def __array_function__(self, func, types, args, kwargs):
        return func_dispatch(func, args, kwargs)


class FlatProxy:
    def __init__(self, a):
        self.a = a

    def __getitem__(self, k):
        return self.a.ravel()[k]

    def __setitem__(self, k, v):
        idx = np.arange(self.a.size).reshape(self.a.shape)
        raw = self.a.view_raw()
        raw.flat[index_any(k)] = conv_array(wrap(v), self.a.dtype).view_raw() if isinstance(v, (list, np.ndarray)) else conv(v, self.a.dtype)

    def __iter__(self):
        return iter(self.a.ravel())

    def __len__(self):
        return self.a.size


# ----------------------------------------------------------------------------------------
# conversions

def conv(x, d):
    """scalar conversion on storing into an array tagged d"""
    if isinstance(x, np.ndarray):
        x = x.item() if x.ndim == 0 else x
    if isinstance(x, SBool):
        return x if d == _B or d == _O else x.as_num()
    if isinstance(x, S):
        if d == _B:
            return truth(x != 0)
        if d.kind in 'iu' and not x.is_int():
            c = x.const()
            if c is not None:
                return int(c)
            return x.__trunc__()
        return x
    if d == _O:
        return x
    if d.kind == 'b':
        return bool(x)
    if d.kind in 'iu':
        if isinstance(x, (int, np.integer)) and not isinstance(x, bool):
            x = int(x)
            if -100 < x < 100:
                return x if not (d.kind == 'u' and x < 0) else int(np.array(x).astype(d))
            return int(np.array(x).astype(d))
        return int(np.array(x).astype(d))
    if d.kind == 'f':
        if type(x).__name__ == 'Fraction':
            return float(x)
        return float(x)
    return x


def conv_array(a, d):
    a = wrap(a)
    d = np.dtype(d)
    if a._dt == d:
        return a.copy()
    if not a.is_symbolic():
        return wrap(a.plain().astype(d))
    r = np.ndarray.view(_vec1(lambda x: conv(x, d))(a.view_raw()), SymArr)
    r._dt = d
    return r


def _vec1(f):
    g = np.frompyfunc(f, 1, 1)

    def h(a):
        r = g(a)
        if not isinstance(r, np.ndarray):
            q = np.empty((), object)
            q[()] = r
            return q
        return r
    return h


def wrap(x, dt=None):
    """anything array-like -> SymArr"""
    if isinstance(x, SymArr):
        return x
    if isinstance(x, np.ndarray):
        if x.dtype == _O:
            r = np.ndarray.view(x, SymArr)
            r._dt = dt
            return r
        # numpy scalars of the plain array become python scalars in storage
        r = np.empty(x.shape, object)
        if x.ndim == 0:
            r[()] = x.item()
        elif x.size:
            r[...] = x.astype(object)
        r = np.ndarray.view(r, SymArr)
        r._dt = x.dtype
        return r
    if is_sym(x):
        r = np.empty((), object)
        r[()] = x
        r = np.ndarray.view(r, SymArr)
        return r
    if isinstance(x, (list, tuple)):
        return from_nested(x)
    return wrap(np.asarray(x))


def from_nested(x):
    if not contains_sym(x):
        return wrap(np.array(unwrap_nested(x)))
    def rec(y):
        if isinstance(y, (list, tuple)):
            return [rec(z) for z in y]
        if isinstance(y, np.ndarray):
            return wrap(y).view_raw().tolist() if y.ndim else wrap(y).item()
        return y
    y = rec(x)
    # shape
    shape = []
    q = y
    while isinstance(q, list):
        shape.append(len(q))
        if not q:
            break
        q = q[0]
    flat = []

    def walk(z, depth):
        if depth == len(shape):
            flat.append(z)
            return
        if not isinstance(z, list) or len(z) != shape[depth]:
            raise ValueError('ragged nested sequence')
        for w in z:
            walk(w, depth + 1)
    walk(y, 0)
    r = np.empty(len(flat), object)
    for i, v in enumerate(flat):
        r[i] = v
    r = r.reshape(shape)
    r = np.ndarray.view(r, SymArr)
    r._dt = None
    return r


def wrap_out(r):
    """result of a real numpy call: arrays become SymArr, the rest passes"""
    if isinstance(r, SymArr):
        return r
    if type(r) is np.ndarray:
        if r.dtype == _O and not has_numeric_obj(r):
            return r
        return wrap(r)
    if type(r) is tuple:
        return tuple(wrap_out(x) for x in r)
    if type(r) is list:
        return [wrap_out(x) for x in r]
    return r


def has_numeric_obj(r):
    for x in r.ravel().tolist():
        if isinstance(x, (S, SBool)):
            return True
        if isinstance(x, (int, float)):
            continue
        return False
    return False


def scalar_out(x, d):
    if is_sym(x):
        return x
    if isinstance(x, (bool, int, float, complex)) and d != _O:
        try:
            return d.type(x)
        except Exception:
            return x
    return x


def contains_sym(x, depth=0):
    if isinstance(x, (S, SBool)):
        return True
    if isinstance(x, SymArr):
        return x.is_symbolic()
    if isinstance(x, np.ndarray):
        return x.dtype == _O and has_sym_obj(x)
    if isinstance(x, (list, tuple)):
        return any(contains_sym(y) for y in x) if depth < 8 else False
    if isinstance(x, dict):
        return any(contains_sym(y) for y in x.values())
    return getattr(x, '_vsym_symbolic', False) is True


def unwrap_nested(x):
    if isinstance(x, SymArr):
        return x.plain()
    if isinstance(x, list):
        return [unwrap_nested(y) for y in x]
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(unwrap_nested(y) for y in x)
    if type(x) is dict:
        return {k: unwrap_nested(v) for k, v in x.items()}
    return x


def index_array(k):
    """index -> plain integer/bool array; symbolic booleans fork, symbolic ints are concretised by the solver"""
    a = k if isinstance(k, np.ndarray) else wrap(k)
    if isinstance(a, SymArr):
        d = a.dtype
        if not a.is_symbolic():
            p = a.plain()
            if p.size == 0 and p.dtype.kind == 'f':
                p = p.astype(int)
            return p
        if d == _B:
            return bool_plain(a)
        if d.kind == 'f':
            raise IndexError('arrays used as indices must be of integer (or boolean) type')
        r = np.empty(a.shape, int)
        f = r.reshape(-1)
        for i, x in enumerate(a.view_raw().ravel().tolist()):
            f[i] = int(x)
        return r
    if a.dtype == _O:
        return index_array(wrap(a))
    return a


def index_any(k):
    if isinstance(k, (np.ndarray, list)):
        return index_array(k)
    if is_sym(k):
        return int(k)
    return k


def bool_plain(a):
    a = wrap(a)
    if not a.is_symbolic():
        return a.plain().astype(bool)
    r = np.empty(a.shape, bool)
    f = r.reshape(-1)
    for i, x in enumerate(a.view_raw().ravel().tolist()):
        f[i] = bool(truth(x))
    return r


# ----------------------------------------------------------------------------------------
# order-isomorphic keys

def _lt(a, b):
    return bool(truth(a < b))


def _eq(a, b):
    if a is b:
        return True
    return bool(truth(a == b))


def dense_ranks(items):
    """ranks (ints, equal values share a rank) of scalar items, forking on the comparisons"""
    items = [x.as_num() if isinstance(x, SBool) else x for x in items]
    order = []     # list of [representative, members]
    memo = {}
    for i, x in enumerate(items):
        k = None if isinstance(x, S) else x
        if not isinstance(x, S) and k in memo:
            memo[k][1].append(i)
            continue
        lo, hi = 0, len(order)
        found = None
        while lo < hi:
            mid = (lo + hi) // 2
            r = order[mid][0]
            if _eq(x, r):
                found = order[mid]
                break
            if _lt(x, r):
                hi = mid
            else:
                lo = mid + 1
        if found is None:
            found = [x, [i]]
            order.insert(lo, found)
        else:
            found[1].append(i)
        if not isinstance(x, S):
            memo[k] = found
    out = [0] * len(items)
    for r, (_, mem) in enumerate(order):
        for i in mem:
            out[i] = r
    return out, [o[0] for o in order]


def rank_arrays(*arrs):
    """jointly replace arrays by order-isomorphic integer arrays"""
    ws = [wrap(a) for a in arrs]
    flat = []
    for w in ws:
        flat += w.view_raw().ravel().tolist()
    ranks, vals = dense_ranks(flat)
    out = []
    k = 0
    for w in ws:
        out.append(np.array(ranks[k:k + w.size], dtype=int).reshape(w.shape))
        k += w.size
    return out, vals


def values_from_ranks(r, vals, dt):
    f = np.empty(r.size, object)
    for i, x in enumerate(r.ravel().tolist()):
        f[i] = vals[x]
    a = np.ndarray.view(f.reshape(r.shape), SymArr)
    a._dt = dt
    return a


def order_call(f, a):
    """call a routine whose (integer) result depends on the order of a only"""
    a = wrap(a)
    if not a.is_symbolic():
        return wrap_out(f(a.plain()))
    (r,), _ = rank_arrays(a)
    return wrap_out(f(r))


# ----------------------------------------------------------------------------------------
# ufuncs

def extreme(c):
    from vsym.core import E
    c = truth(c)
    return bool(c) if isinstance(c, SBool) and E().fork_extremes else c


def _minimum(a, b):
    c = extreme(a <= b)
    return ite(c, a, b)


def _maximum(a, b):
    c = extreme(a >= b)
    return ite(c, a, b)


def _sign(a):
    from vsym.core import E
    if isinstance(a, S) and a.const() is None and E().fork_signs:
        if bool(a > 0):
            return 1
        return -1 if bool(a < 0) else 0
    c = truth(a > 0)
    if c is True:
        return 1
    d = truth(a < 0)
    return ite(c, 1, ite(d, -1, 0))


def _pow(a, b):
    if isinstance(b, S):
        b2 = b.const()
        if b2 is None:
            return uf('power', a, b)
        b = b2
    if isinstance(a, SBool):
        a = a.as_num()
    if isinstance(a, S):
        return a ** b
    if is_sym(b):
        raise Unsupported('symbolic exponent')
    return a ** b


def _div(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        with np.errstate(all='ignore'):
            return float(np.float64(a) / np.float64(b))
    return a / b


def _band(a, b):
    if isinstance(a, (SBool, bool, np.bool_)) or isinstance(b, (SBool, bool, np.bool_)):
        return truth(SBool(z3.And(tobool(a), tobool(b))))
    if not is_sym(a) and not is_sym(b):
        return a & b
    return int(a) & int(b)


def _bor(a, b):
    if isinstance(a, (SBool, bool, np.bool_)) or isinstance(b, (SBool, bool, np.bool_)):
        return truth(SBool(z3.Or(tobool(a), tobool(b))))
    if not is_sym(a) and not is_sym(b):
        return a | b
    return int(a) | int(b)


def _bxor(a, b):
    if isinstance(a, (SBool, bool, np.bool_)) or isinstance(b, (SBool, bool, np.bool_)):
        return truth(SBool(z3.Xor(tobool(a), tobool(b))))
    if not is_sym(a) and not is_sym(b):
        return a ^ b
    return int(a) ^ int(b)


def _not(a):
    t = truth(a)
    return (not t) if isinstance(t, bool) else ~t


def _inv(a):
    if isinstance(a, SBool):
        return ~a
    if isinstance(a, (bool, np.bool_)):
        return not a
    if isinstance(a, S):
        return -a - 1
    return ~a


def _sqrt(a):
    if isinstance(a, SBool):
        a = a.as_num()
    if isinstance(a, S):
        return a.sqrt()
    return float(np.sqrt(a))


def _bm(f):
    return f


UF2 = {
    'add': lambda a, b: _num(a) + b if not isinstance(b, bool) else _num(a) + int(b),
    'subtract': lambda a, b: _num(a) - b,
    'multiply': lambda a, b: _mul(a, b),
    'true_divide': _div, 'divide': _div,
    'floor_divide': lambda a, b: a // b,
    'remainder': lambda a, b: a % b, 'mod': lambda a, b: a % b,
    'power': _pow, 'float_power': _pow,
    'minimum': _minimum, 'maximum': _maximum, 'fmin': _minimum, 'fmax': _maximum,
    'less': lambda a, b: truth(a < b), 'less_equal': lambda a, b: truth(a <= b),
    'greater': lambda a, b: truth(a > b), 'greater_equal': lambda a, b: truth(a >= b),
    'equal': lambda a, b: truth(a == b), 'not_equal': lambda a, b: truth(a != b),
    'logical_and': lambda a, b: truth(SBool(z3.And(tobool(a), tobool(b)))),
    'logical_or': lambda a, b: truth(SBool(z3.Or(tobool(a), tobool(b)))),
    'logical_xor': lambda a, b: truth(SBool(z3.Xor(tobool(a), tobool(b)))),
    'bitwise_and': _band, 'bitwise_or': _bor, 'bitwise_xor': _bxor,
    'left_shift': lambda a, b: int(a) << int(b), 'right_shift': lambda a, b: int(a) >> int(b), 'gcd': lambda a, b: math.gcd(int(a), int(b)),
    'heaviside': lambda a, b: ite(truth(a < 0), 0., ite(truth(a > 0), 1., b)),
    'copysign': lambda a, b: ite(truth(b < 0), -abs(a), abs(a)),
    'arctan2': lambda a, b: uf('arctan2', a, b), 'hypot': lambda a, b: _sqrt(a * a + b * b),
}


def _rint(a):
    """round half to even"""
    if not isinstance(a, S):
        return float(np.rint(a))
    if a.is_int():
        return a
    f = (a + .5).__floor__()
    if bool(truth(a + .5 == f)) and int(f) % 2:
        return f - 1
    return f


def _num(a):
    if isinstance(a, SBool):
        return a.as_num()
    if isinstance(a, bool):
        return int(a)
    return a


def _mul(a, b):
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
        return _band(a, b)
    return _num(a) * _num(b)


UF1 = {
    'negative': lambda a: -_num(a), 'positive': lambda a: a, 'absolute': lambda a: abs(a), 'fabs': lambda a: abs(a),
    'sqrt': _sqrt, 'square': lambda a: a * a, 'reciprocal': lambda a: _div(1, a),
    'sign': _sign, 'logical_not': _not, 'invert': _inv,
    'conjugate': lambda a: a,
    'floor': lambda a: a.__floor__() if isinstance(a, S) else float(np.floor(a)),
    'ceil': lambda a: a.__ceil__() if isinstance(a, S) else float(np.ceil(a)),
    'trunc': lambda a: a.__trunc__() if isinstance(a, S) else float(np.trunc(a)),
    'isnan': lambda a: False if is_sym(a) else bool(np.isnan(a)),
    'isinf': lambda a: False if is_sym(a) else bool(np.isinf(a)),
    'isfinite': lambda a: True if is_sym(a) else bool(np.isfinite(a)),
    'signbit': lambda a: truth(a < 0),
    'rint': lambda a: _rint(a),
}
for _n in UFS:
    if _n not in UF2:
        UF1[_n] = (lambda n: lambda a: uf(n, a) if is_sym(a) else float(getattr(np, n)(a)))(_n)

BOOLUF = {'less', 'less_equal', 'greater', 'greater_equal', 'equal', 'not_equal', 'logical_and', 'logical_or',
          'logical_xor', 'logical_not', 'isnan', 'isinf', 'isfinite', 'signbit'}
FLOATUF = {'true_divide', 'divide', 'sqrt', 'fabs', 'reciprocal'} | UFS


def tag(x):
    if isinstance(x, SymArr):
        return x.dtype
    if isinstance(x, np.ndarray):
        return x.dtype
    if isinstance(x, SBool):
        return _B
    if isinstance(x, S):
        return _I if x.is_int() else _F
    return None


def result_tag(name, inputs):
    if name in BOOLUF:
        return _B
    ts = []
    for x in inputs:
        t = tag(x)
        if t is None:
            if isinstance(x, (list, tuple)):
                t = wrap(x).dtype
            elif isinstance(x, bool):
                t = _B
            elif isinstance(x, int):
                t = np.dtype(np.int8)
            elif isinstance(x, np.generic):
                t = x.dtype
            elif isinstance(x, float):
                t = _F
            else:
                t = None
        if t is not None:
            ts.append(t)
    if not ts or _O in ts:
        return None
    t = functools.reduce(np.promote_types, ts)
    if name in FLOATUF and t.kind in 'iub':
        t = _F
    return t


def raw(x):
    """operand as object ndarray or scalar"""
    if isinstance(x, SymArr):
        return x.view_raw()
    if isinstance(x, np.ndarray):
        return x if x.dtype == _O else x.astype(object)
    if isinstance(x, (list, tuple)):
        return wrap(x).view_raw()
    if isinstance(x, np.generic):
        return x.item()
    return x


def box(x):
    if is_sym(x):
        return wrap(x)
    return x


_PYUF = {}


def pyuf(name):
    if name not in _PYUF:
        if name in UF2:
            _PYUF[name] = np.frompyfunc(UF2[name], 2, 1)
        elif name in UF1:
            _PYUF[name] = np.frompyfunc(UF1[name], 1, 1)
        else:
            raise Unsupported('ufunc %s' % name)
    return _PYUF[name]


def finish(r, dt, out=None):
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        if isinstance(o, SymArr):
            o[...] = wrap(r) if isinstance(r, np.ndarray) else r
            return o
        raise Unsupported('symbolic result into a plain out array')
    if isinstance(r, np.ndarray):
        r = np.ndarray.view(r, SymArr)
        r._dt = dt
        return r
    if dt is not None and not is_sym(r):
        return scalar_out(r, dt)
    return r


def ufunc_dispatch(ufunc, method, inputs, out, kw):
    name = ufunc.__name__
    for x in inputs:
        if not isinstance(x, (np.ndarray, S, SBool, bool, int, float, complex, np.generic, list, tuple)) and \
                type(x).__name__ != 'Fraction':
            if hasattr(x, 'tocsr') or getattr(x, '_vsym_sparse', False):
                return NotImplemented
            if name in BOOLUF and x is None:
                continue
            return NotImplemented
    sym = contains_sym(list(inputs)) or contains_sym(list(kw.values()))
    if not sym:
        ins = [unwrap_nested(x) for x in inputs]
        kw = {k: unwrap_nested(v) for k, v in kw.items()}
        if method == 'at':
            a = inputs[0]
            p = a.plain()
            ufunc.at(p, *ins[1:])
            a[...] = p
            return None
        r = getattr(ufunc, method)(*ins, **kw)
        if out is not None:
            o = out[0]
            if isinstance(o, SymArr):
                np.ndarray.view(o, np.ndarray)[...] = wrap(np.asarray(r).astype(o.dtype)).view_raw()
            else:
                o[...] = r
            return o
        return wrap_out(r)
    where = kw.pop('where', True)
    dtype = kw.pop('dtype', None)
    kw.pop('casting', None)
    if where is not True:
        return ufunc_where(name, method, inputs, out, kw, where)
    if name == 'matmul':
        return H_matmul(*inputs)
    if name == 'divmod' and method == '__call__':
        return ufunc_dispatch(np.floor_divide, method, inputs, None, dict(kw)), ufunc_dispatch(np.remainder, method, inputs, None, dict(kw))
    if method == '__call__':
        kw.pop('order', None), kw.pop('subok', None)
        if kw:
            raise Unsupported('ufunc kw %s' % list(kw))
        f = pyuf(name)
        r = f(*[raw(box(x)) for x in inputs])
        dt = np.dtype(dtype) if dtype is not None else result_tag(name, inputs)
        return finish(r, dt, out)
    if method == 'reduce':
        a = wrap(inputs[0])
        axis = kw.pop('axis', inputs[1] if len(inputs) > 1 else 0)
        keepdims = kw.pop('keepdims', False)
        initial = kw.pop('initial', np._NoValue)
        r = reduce_sym(name, a, axis, keepdims)
        if initial is not np._NoValue and initial is not None:
            r = UF2[name](r, initial)
        return finish(r, None, out) if not isinstance(r, SymArr) else (r if out is None else finish(r, r._dt, out))
    if method == 'accumulate':
        a = wrap(inputs[0])
        if a.dtype == bool and name in ('add', 'multiply'):
            a = a.astype(int)
        axis = kw.pop('axis', inputs[1] if len(inputs) > 1 else 0)
        b = np.moveaxis(a.view_raw(), axis, 0)
        o = np.empty(b.shape, object)
        f = pyuf(name)
        for i in range(len(b)):
            o[i:i + 1] = b[i:i + 1] if i == 0 else f(o[i - 1:i], b[i:i + 1])
        return finish(np.moveaxis(o, 0, axis), result_tag(name, (a,)), out)
    if method == 'reduceat':
        a = wrap(inputs[0])
        idx = np.asarray(index_array(inputs[1]))
        axis = kw.pop('axis', inputs[2] if len(inputs) > 2 else 0)
        b = np.moveaxis(a.view_raw(), axis, 0)
        o = np.empty((len(idx),) + b.shape[1:], object)
        f = pyuf(name)
        for j, i in enumerate(idx):
            e = idx[j + 1] if j + 1 < len(idx) else len(b)
            acc = b[i:i + 1]
            for k in range(i + 1, e):
                acc = f(acc, b[k:k + 1])
            o[j:j + 1] = acc
        return finish(np.moveaxis(o, 0, axis), result_tag(name, (a,)), out)
    if method == 'outer':
        a, b = [wrap(x) for x in inputs]
        f = pyuf(name)
        r = f(a.view_raw().reshape(a.shape + (1,) * b.ndim), b.view_raw())
        return finish(r, result_tag(name, (a, b)), out)
    if method == 'at':
        a = inputs[0]
        if not isinstance(a, SymArr):
            raise Unsupported('ufunc.at into a plain array')
        idx = index_array(inputs[1]) if not isinstance(inputs[1], tuple) else tuple(index_any(k) for k in inputs[1])
        f = UF2[name]
        r = a.view_raw()
        v = raw(inputs[2])
        if isinstance(idx, tuple):
            bi = np.broadcast_arrays(*idx)
            n = bi[0].size
            vb = np.broadcast_to(v, bi[0].shape).ravel()
            for j in range(n):
                k = tuple(int(b.ravel()[j]) for b in bi)
                r[k] = f(r[k], vb[j])
        else:
            idx = np.asarray(idx)
            if idx.dtype == bool:
                idx = np.flatnonzero(idx)
            vb = np.broadcast_to(np.asarray(v, dtype=object), idx.shape + r.shape[1:])
            for j in np.ndindex(idx.shape):
                g = pyuf(name)
                k = int(idx[j])
                k = k + len(r) if k < 0 else k
                r[k:k + 1] = g(r[k:k + 1], np.broadcast_to(vb[j:j + 1] if not j else vb[j][None] if isinstance(vb[j], np.ndarray) else one(vb[j]), r[k:k + 1].shape))
        return None
    raise Unsupported('ufunc method %s' % method)


def one(x):
    r = np.empty(1, object)
    r[0] = x
    return r


def ufunc_where(name, method, inputs, out, kw, where):
    """element by element: excluded elements are never evaluated"""
    w = bool_plain(where) if isinstance(where, np.ndarray) else np.array(bool(where))
    if method == 'reduce':
        a = wrap(inputs[0])
        r = a.view_raw().copy()
        i = kw.get('initial', np._NoValue)
        if i is np._NoValue or i is None:
            i = {'add': 0, 'multiply': 1, 'logical_and': True, 'logical_or': False}.get(name)
        if i is None:
            raise ValueError('reduction operation %s does not have an identity, so to use a where mask one has to specify initial' % name)
        r[~np.broadcast_to(w, r.shape)] = i
        r = np.ndarray.view(r, SymArr)
        r._dt = a._dt
        axis = kw.get('axis', inputs[1] if len(inputs) > 1 else 0)
        return finish_reduce(reduce_sym(name, r, axis, kw.get('keepdims', False)), out)
    if method != '__call__':
        raise Unsupported('ufunc where=')
    ins = [raw(box(x)) for x in inputs]
    o = out[0] if isinstance(out, tuple) else out
    shape = np.broadcast_shapes(w.shape, *[np.shape(x) for x in ins], *([] if o is None else [o.shape]))
    if o is None:
        o = new(shape, 0, result_tag(name, inputs))
    if not isinstance(o, SymArr):
        raise Unsupported('symbolic result into a plain out array')
    w = np.broadcast_to(w, shape)
    bs = []
    for x in ins:
        b = np.empty(np.shape(x), object)
        b[...] = x
        bs.append(np.broadcast_to(b, shape))
    f = UF2.get(name) or UF1.get(name)
    if f is None:
        raise Unsupported('ufunc %s' % name)
    for k in np.ndindex(*shape):
        if w[k]:
            o[k] = f(*[b[k] for b in bs])
    return o


def finish_reduce(r, out):
    return finish(r, None, out) if not isinstance(r, SymArr) else (r if out is None else finish(r, r._dt, out))


def reduce_op(ufunc, a, axis, keepdims):
    if not a.is_symbolic():
        p = a.plain()
        f = {np.add: np.sum, np.multiply: np.prod, np.logical_or: np.any, np.logical_and: np.all,
             np.minimum: np.min, np.maximum: np.max}[ufunc]
        return wrap_out(f(p, axis=axis if not isinstance(axis, list) else tuple(axis), keepdims=keepdims))
    return reduce_sym(ufunc.__name__, a, axis, keepdims)


def reduce_sym(name, a, axis, keepdims):
    r = a.view_raw()
    f = UF2[name]
    if axis is None:
        axes = tuple(range(r.ndim))
    else:
        axes = axis if isinstance(axis, tuple) else (axis,)
    axes = tuple(int(x) % r.ndim for x in axes)
    rest = [i for i in range(r.ndim) if i not in axes]
    b = r.transpose(rest + list(axes)).reshape([r.shape[i] for i in rest] + [-1])
    o = np.empty(b.shape[:-1], object)
    for k in np.ndindex(o.shape):
        xs = b[k].tolist()
        if name == 'logical_and':
            o[k] = truth(SBool(z3.And([tobool(x) for x in xs])))
        elif name == 'logical_or':
            o[k] = truth(SBool(z3.Or([tobool(x) for x in xs])))
        elif name == 'add':
            o[k] = sum_many(xs)
        else:
            if not xs:
                if name == 'multiply':
                    o[k] = 1
                    continue
                raise ValueError('zero-size array to reduction operation %s which has no identity' % name)
            acc = xs[0]
            for x in xs[1:]:
                acc = f(acc, x)
            o[k] = acc
    if keepdims:
        o = o.reshape([1 if i in axes else s for i, s in enumerate(r.shape)])
    dt = _B if name.startswith('logical') else a.dtype
    if name == 'add' and dt == _B:
        dt = _I
    if o.ndim == 0:
        return scalar_out(o.item(), dt)
    o = np.ndarray.view(o, SymArr)
    o._dt = dt
    return o


def sum_many(xs):
    """sum of scalars in one pass over the polynomials when no denominators occur"""
    acc = {}
    rest = []
    for x in xs:
        if isinstance(x, SBool):
            x = x.as_num()
        if isinstance(x, S):
            if x.d is None:
                for m, c in x.n.items():
                    acc[m] = acc.get(m, 0) + c
            else:
                rest.append(x)
        elif x != 0:
            acc[()] = acc.get((), 0) + num(x)
    r = S({m: c for m, c in acc.items() if c != 0})
    for x in rest:
        r = r + x
    return r


def dot1(xs, ys):
    """inner product of two python lists of scalars"""
    t = []
    for x, y in zip(xs, ys):
        if not is_sym(x) and x == 0:
            continue
        if not is_sym(y) and y == 0:
            continue
        if is_sym(x) or is_sym(y):
            t.append(_num(x) * _num(y))
        else:
            t.append(num(x) * num(y))
    return sum_many(t)


# binary operators of SymArr accept boxed scalars
def _binop(name, ufunc):
    def f(self, o):
        if is_sym(o):
            o = wrap(o)
        elif not isinstance(o, (np.ndarray, bool, int, float, complex, np.generic, list, tuple)) and \
                type(o).__name__ != 'Fraction':
            if name in ('__eq__', '__ne__') and not hasattr(o, '__array_ufunc__') and not hasattr(o, 'tocsr'):
                if o is None or isinstance(o, str):
                    return name == '__ne__'
            return NotImplemented
        return ufunc(self, o)
    f.__name__ = name
    return f


def _rbinop(name, ufunc):
    def f(self, o):
        if is_sym(o):
            o = wrap(o)
        elif not isinstance(o, (np.ndarray, bool, int, float, complex, np.generic, list, tuple)) and \
                type(o).__name__ != 'Fraction':
            return NotImplemented
        return ufunc(o, self)
    f.__name__ = name
    return f


def _ibinop(name, ufunc):
    def f(self, o):
        if not isinstance(o, (np.ndarray, S, SBool, bool, int, float, complex, np.generic, list, tuple)):
            return NotImplemented
        r = ufunc(self, box(o))
        rt = tag(r)
        if rt is not None and rt.kind in 'fc' and self.dtype.kind in 'iub':
            raise np.core._exceptions.UFuncTypeError(ufunc) if False else TypeError(
                'Cannot cast ufunc %s output from float64 to %s' % (ufunc.__name__, self.dtype))
        self[...] = r
        return self
    return f


for _o, _u in [('add', np.add), ('sub', np.subtract), ('mul', np.multiply), ('truediv', np.true_divide),
               ('floordiv', np.floor_divide), ('mod', np.remainder), ('pow', np.power), ('and', np.bitwise_and),
               ('or', np.bitwise_or), ('xor', np.bitwise_xor), ('lshift', np.left_shift), ('rshift', np.right_shift)]:
    setattr(SymArr, '__%s__' % _o, _binop('__%s__' % _o, _u))
    setattr(SymArr, '__r%s__' % _o, _rbinop('__r%s__' % _o, _u))
    setattr(SymArr, '__i%s__' % _o, _ibinop('__i%s__' % _o, _u))
for _o, _u in [('lt', np.less), ('le', np.less_equal), ('gt', np.greater), ('ge', np.greater_equal),
               ('eq', np.equal), ('ne', np.not_equal)]:
    setattr(SymArr, '__%s__' % _o, _binop('__%s__' % _o, _u))
SymArr.__neg__ = lambda self: np.negative(self)
SymArr.__abs__ = lambda self: np.absolute(self)
SymArr.__invert__ = lambda self: np.invert(self)
SymArr.__matmul__ = lambda self, o: H_matmul(self, o) if isinstance(o, (np.ndarray, list)) else NotImplemented
SymArr.__rmatmul__ = lambda self, o: H_matmul(o, self) if isinstance(o, (np.ndarray, list)) else NotImplemented


# ----------------------------------------------------------------------------------------
# array functions with symbolic arguments

HANDLERS = {}


def handles(*funcs):
    def deco(f):
        for g in funcs:
            HANDLERS[g] = f
        return f
    return deco


STRUCTURAL = {np.concatenate, np.stack, np.vstack, np.hstack, np.dstack, np.column_stack, np.reshape, np.ravel,
              np.roll, np.rollaxis, np.moveaxis, np.swapaxes, np.transpose, np.flip, np.fliplr, np.flipud, np.repeat,
              np.tile, np.broadcast_to, np.broadcast_arrays, np.split, np.array_split, np.pad, np.diff, np.delete, np.insert,
              np.append, np.expand_dims, np.squeeze, np.atleast_1d, np.atleast_2d, np.atleast_3d, np.diagonal,
              np.trace, np.rot90, np.tril, np.triu, np.shape, np.ndim, np.size, np.outer, np.kron,
              np.block, np.copyto, np.ediff1d, np.gradient, np.vander, np.hsplit, np.vsplit, np.dsplit,
              np.meshgrid, np.ix_, np.resize, np.trim_zeros, np.tensordot, np.convolve}


def plainify_raw(x):
    """SymArr -> raw object array (structural functions run natively on object storage)"""
    if isinstance(x, SymArr):
        return x.view_raw()
    if isinstance(x, np.ndarray):
        return x.astype(object) if x.dtype != _O else x
    if isinstance(x, list):
        return [plainify_raw(y) for y in x]
    if type(x) is tuple:
        return tuple(plainify_raw(y) for y in x)
    return x


def collect_tags(x, out):
    if isinstance(x, np.ndarray):
        out.append(tag(x))
    elif isinstance(x, (list, tuple)):
        for y in x:
            collect_tags(y, out)


def retag(r, ts):
    if isinstance(r, np.ndarray):
        if r.dtype != _O:
            return wrap(r)
        r = np.ndarray.view(r, SymArr)
        ts = [t for t in ts if t is not None]
        r._dt = functools.reduce(np.promote_types, ts) if ts and _O not in ts else None
        return r
    if isinstance(r, list):
        return [retag(y, ts) for y in r]
    if type(r) is tuple:
        return tuple(retag(y, ts) for y in r)
    return r


IDENTITY = {np.add: 0, np.multiply: 1, np.logical_or: False, np.logical_and: True}


def reduction(op, a, axis, keepdims, out=None, dtype=None, where=None, initial=None):
    """a.sum(axis) and its like, with all of the arguments numpy allows for"""
    if isinstance(initial, type(np._NoValue)):
        initial = None
    if isinstance(where, type(np._NoValue)) or where is True:
        where = None
    if where is not None:
        fill = IDENTITY.get(op, initial)
        if fill is None:
            raise ValueError('reduction operation does not have an identity, so to use a where mask one has to specify initial')
        a = wrap(np.where(wrap(where), a, fill))
    if dtype is not None:
        a = a.astype(dtype)
    if a.size == 0 and initial is not None and op not in IDENTITY:
        sh = np.min(np.zeros(a.shape), axis=axis, keepdims=bool(keepdims), initial=0).shape
        r = new(sh, initial, tag(a))
    else:
        r = reduce_op(op, a, axis, keepdims)
        if initial is not None:
            r = op(wrap(r), initial)[()]
    if out is not None:
        out[...] = r
        return out
    return r


def func_dispatch(func, args, kwargs):
    """np.<func>(*args, **kwargs) where some argument is a SymArr"""
    if func in MUTATORS:
        return HANDLERS[func](*args, **kwargs)
    if not contains_sym(args) and not contains_sym(kwargs):
        if func in CREATE_LIKE:
            return CREATE_LIKE[func](*args, **kwargs)
        a = unwrap_nested(tuple(args))
        k = unwrap_nested(dict(kwargs))
        o = kwargs.get('out')
        if isinstance(o, SymArr):
            k['out'] = p = o.plain()
            func(*a, **k)
            o[...] = p
            return o
        r = func(*a, **k)
        return wrap_out(r)
    if func in HANDLERS:
        return HANDLERS[func](*args, **kwargs)
    if func in STRUCTURAL:
        # only the array arguments that carry data are passed raw; integer parameters stay typed
        ts = []
        if func in (np.repeat, np.delete, np.split, np.array_split, np.insert, np.roll, np.tile, np.pad, np.resize):
            collect_tags(args[0], ts)
            a = (plainify_raw(args[0]),) + tuple(index_any(x) if isinstance(x, np.ndarray) else x for x in args[1:])
        else:
            collect_tags(args, ts)
            a = tuple(plainify_raw(x) for x in args)
        k = {q: plainify_raw(v) for q, v in kwargs.items()}
        return retag(func(*a, **k), ts)
    raise Unsupported('numpy function %s on symbolic arguments' % getattr(func, '__name__', func))


def _like(fill):
    def f(a, dtype=None, *rest, **kw):
        a_ = wrap(a) if not isinstance(a, np.ndarray) else a
        d = np.dtype(dtype) if dtype is not None else tag(a_)
        shape = kw.get('shape') or a_.shape
        return new(shape, fill, d)
    return f


class ObjArr(np.ndarray):
    """array of arbitrary objects, that can be indexed by (concrete) SymArr"""

    def __getitem__(self, k):
        return super().__getitem__(plain_key(k))

    def __setitem__(self, k, v):
        super().__setitem__(plain_key(k), v)


def plain_key(k):
    if isinstance(k, tuple):
        return tuple(plain_key(i) for i in k)
    if isinstance(k, SymArr):
        return index_array(k) if k.dtype.kind != 'b' else k.plain()
    return k


def new(shape, fill, d):
    d = np.dtype(d) if d is not None else _F
    if d == _O:
        r = np.ndarray.view(np.empty(shape, object), ObjArr)
        r[...] = fill if fill is not None else None
        return r
    if d.fields is not None:
        return np.zeros(shape, d)
    r = np.empty(shape, object)
    v = conv(fill, d) if not isinstance(fill, np.ndarray) else None
    if v is None:
        r = np.ndarray.view(r, SymArr)
        r._dt = d
        r[...] = fill
        return r
    r[...] = v
    r = np.ndarray.view(r, SymArr)
    r._dt = d
    return r


CREATE_LIKE = {np.zeros_like: _like(0), np.ones_like: _like(1), np.empty_like: _like(0),
               np.full_like: lambda a, fill_value, dtype=None, **kw: _like(fill_value)(a, dtype, **kw)}
HANDLERS.update(CREATE_LIKE)


@handles(np.sum)
def _(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return wrap(a).sum(axis, out=out, keepdims=keepdims is True, dtype=dtype, **k)


@handles(np.prod, np.product)
def _(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return wrap(a).prod(axis, out=out, keepdims=keepdims is True, dtype=dtype, **k)


@handles(np.any, np.sometrue)
def _(a, axis=None, out=None, keepdims=False, **k):
    return wrap(a).any(axis, out=out, keepdims=keepdims is True, **k)


@handles(np.all, np.alltrue)
def _(a, axis=None, out=None, keepdims=False, **k):
    return wrap(a).all(axis, out=out, keepdims=keepdims is True, **k)


@handles(np.amin, np.nanmin)
def _(a, axis=None, out=None, keepdims=False, **k):
    return wrap(a).min(axis, out=out, keepdims=keepdims is True, **k)


@handles(np.amax, np.nanmax)
def _(a, axis=None, out=None, keepdims=False, **k):
    return wrap(a).max(axis, out=out, keepdims=keepdims is True, **k)


@handles(np.ptp)
def _(a, axis=None):
    return wrap(a).ptp(axis)


@handles(np.mean, np.nanmean)
def _(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return wrap(a).mean(axis, keepdims=keepdims is True)


@handles(np.average)
def _(a, axis=None, weights=None, returned=False):
    a = wrap(a)
    if weights is None:
        return a.mean(axis)
    w = wrap(weights)
    if w.ndim == 1 and a.ndim > 1:
        sh = [1] * a.ndim
        sh[axis] = len(w)
        w = w.reshape(sh)
    w = w + np.zeros_like(a)
    return (a * w).sum(axis) / w.sum(axis)


@handles(np.var)
def _(a, axis=None, **k):
    a = wrap(a)
    m = a.mean(axis, keepdims=True)
    return ((a - m) ** 2).mean(axis)


@handles(np.std)
def _(a, axis=None, **k):
    return np.sqrt(np.var(a, axis=axis))


@handles(np.cumsum)
def _(a, axis=None, dtype=None, out=None):
    a = wrap(a)
    if axis is None:
        a, axis = a.ravel(), 0
    return np.add.accumulate(a, axis)


@handles(np.cumprod)
def _(a, axis=None, dtype=None, out=None):
    a = wrap(a)
    if axis is None:
        a, axis = a.ravel(), 0
    return np.multiply.accumulate(a, axis)


@handles(np.clip)
def _(a, a_min, a_max, out=None, **k):
    r = wrap(a)
    if a_min is not None:
        r = np.maximum(r, box(a_min))
    if a_max is not None:
        r = np.minimum(r, box(a_max))
    if out is not None:
        out[...] = r
        return out
    return r if r.ndim or isinstance(a, np.ndarray) else r.item()


@handles(np.where)
def H_where(c, *ab):
    if not ab:
        return wrap(c).nonzero()
    a, b = ab
    f = np.frompyfunc(lambda c, a, b: ite(c, a, b), 3, 1)
    r = f(raw(c), raw(a), raw(b))
    return finish(r, result_tag('where', (a, b))) if isinstance(r, np.ndarray) else wrap(r)


@handles(np.select)
def _(condlist, choicelist, default=0):
    r = default
    for c, x in reversed(list(zip(condlist, choicelist))):
        r = H_where(c, x, r)
    return r


@handles(np.choose)
def _(a, choices, **k):
    a = index_array(a)
    return retag(np.choose(a, [raw(c) for c in choices]), [tag(wrap(c)) for c in choices])


@handles(np.nonzero)
def _(a):
    return wrap(a).nonzero()


@handles(np.flatnonzero)
def _(a):
    return wrap(a).ravel().nonzero()[0]


@handles(np.argwhere)
def _(a):
    return wrap(np.argwhere(bool_plain(a)))


@handles(np.count_nonzero)
def _(a, axis=None, **k):
    return wrap(np.count_nonzero(bool_plain(a), axis=axis)) if axis is not None else int(np.count_nonzero(bool_plain(a)))


@handles(np.extract)
def _(c, a):
    return wrap(a).ravel()[bool_plain(c).ravel()]


@handles(np.compress)
def _(c, a, axis=None, out=None):
    a = wrap(a)
    i = np.flatnonzero(bool_plain(c))
    return a.take(i, axis=axis)


@handles(np.sort)
def H_sort(a, axis=-1, kind=None, order=None):
    a = wrap(a)
    if not a.is_symbolic():
        return wrap(np.sort(a.plain(), axis=axis))
    if axis is None:
        a, axis = a.ravel(), 0
    b = np.moveaxis(a.view_raw(), axis, -1)
    o = np.empty(b.shape, object)
    for k in np.ndindex(b.shape[:-1]):
        row = b[k].tolist()
        ranks, _ = dense_ranks(row)
        idx = np.argsort(np.array(ranks), kind='stable')
        for j, i in enumerate(idx):
            o[k + (j,)] = row[i]
    r = np.ndarray.view(np.moveaxis(o, -1, axis), SymArr)
    r._dt = a._dt
    return r


@handles(np.argsort)
def _(a, axis=-1, kind=None, order=None):
    a = wrap(a)
    if axis is None:
        a, axis = a.ravel(), 0
    b = np.moveaxis(a.view_raw(), axis, -1)
    o = np.empty(b.shape, int)
    for k in np.ndindex(b.shape[:-1]):
        ranks, _ = dense_ranks(b[k].tolist())
        o[k] = np.argsort(np.array(ranks), kind='stable')
    return wrap(np.moveaxis(o, -1, axis))


@handles(np.argmin, np.nanargmin)
def _(a, axis=None, out=None, **k):
    return wrap(a).argmin(axis)


@handles(np.argmax, np.nanargmax)
def _(a, axis=None, out=None, **k):
    return wrap(a).argmax(axis)


@handles(np.lexsort)
def _(keys, axis=-1):
    if isinstance(keys, np.ndarray):
        keys = [keys[i] for i in range(len(keys))]
    rs = [rank_arrays(k)[0][0] for k in keys]
    return wrap(np.lexsort(rs, axis=axis))


@handles(np.searchsorted)
def H_searchsorted(a, v, side='left', sorter=None):
    a = wrap(a)
    scalar = not isinstance(v, (np.ndarray, list, tuple))
    (ra, rv), _ = rank_arrays(a, wrap(v))
    r = np.searchsorted(ra, rv, side=side, sorter=None if sorter is None else index_array(sorter))
    return int(r) if scalar else wrap(r)


@handles(np.unique)
def _(ar, return_index=False, return_inverse=False, return_counts=False, axis=None):
    a = wrap(ar)
    (r,), vals = rank_arrays(a)
    out = np.unique(r, return_index=return_index, return_inverse=return_inverse, return_counts=return_counts, axis=axis)
    if not isinstance(out, tuple):
        return values_from_ranks(out, vals, a._dt)
    return (values_from_ranks(out[0], vals, a._dt),) + tuple(wrap(x) for x in out[1:])


@handles(np.in1d, np.isin)
def _(a, b, *x, **k):
    (ra, rb), _ = rank_arrays(wrap(a), wrap(b))
    return wrap(np.isin(ra, rb, *x, **k))


@handles(np.intersect1d)
def _(a, b, **k):
    (ra, rb), vals = rank_arrays(wrap(a), wrap(b))
    return values_from_ranks(np.intersect1d(ra, rb), vals, wrap(a)._dt)


@handles(np.setdiff1d)
def _(a, b, **k):
    (ra, rb), vals = rank_arrays(wrap(a), wrap(b))
    return values_from_ranks(np.setdiff1d(ra, rb), vals, wrap(a)._dt)


@handles(np.union1d)
def _(a, b, **k):
    (ra, rb), vals = rank_arrays(wrap(a), wrap(b))
    return values_from_ranks(np.union1d(ra, rb), vals, wrap(a)._dt)


@handles(np.array_equal)
def _(a, b, **k):
    a, b = wrap(a), wrap(b)
    if a.shape != b.shape:
        return False
    return wrap_scalar((a == b).all())


@handles(np.array_equiv)
def _(a, b):
    a, b = wrap(a), wrap(b)
    try:
        np.broadcast(a.view_raw(), b.view_raw())
    except ValueError:
        return False
    return wrap_scalar((a == b).all())


def wrap_scalar(x):
    return x


@handles(np.allclose)
def _(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return np.isclose(wrap(a), wrap(b), rtol, atol).all()


@handles(np.isclose)
def _(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    a, b = wrap(a), wrap(b)
    return np.abs(a - b) <= np.abs(b) * rtol + atol


@handles(np.nan_to_num)
def _(a, *x, **k):
    return wrap(a).copy()


@handles(np.copy)
def _(a, *x, **k):
    return wrap(a).copy()


@handles(np.real)
def _(a):
    return a


@handles(np.take)
def _(a, indices, axis=None, out=None, mode='raise'):
    r = wrap(a).take(indices, axis=axis, mode=mode)
    return r


@handles(np.take_along_axis)
def _(a, indices, axis):
    a = wrap(a)
    return a._out(np.take_along_axis(a.view_raw(), index_array(indices), axis))


@handles(np.put_along_axis)
def _(a, indices, values, axis):
    np.put_along_axis(a.view_raw(), index_array(indices), raw(values), axis)


@handles(np.diag)
def _(v, k=0):
    v = wrap(v)
    if v.ndim == 1:
        n = len(v) + abs(k)
        r = new((n, n), 0, v.dtype)
        for i in range(len(v)):
            r.view_raw()[(i, i + k) if k >= 0 else (i - k, i)] = v.view_raw()[i]
        return r
    return v._out(np.diagonal(v.view_raw(), k).copy())


@handles(np.fill_diagonal)
def _(a, val, wrap=False):
    np.fill_diagonal(a.view_raw(), raw(val))


@handles(np.bincount)
def _(x, weights=None, minlength=0):
    x = index_array(x)
    if weights is None:
        return wrap(np.bincount(x, minlength=minlength))
    n = max(minlength, (int(x.max()) + 1) if len(x) else 0)
    r = new(n, 0, _F)
    w = wrap(weights).view_raw()
    q = r.view_raw()
    for i, k in enumerate(x.tolist()):
        q[k] = q[k] + w[i]
    return r


@handles(np.cross)
def H_cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    if axis is not None:
        axisa = axisb = axisc = axis
    a = np.moveaxis(wrap(a), axisa, -1)
    b = np.moveaxis(wrap(b), axisb, -1)

    def g(x, i):
        return x[..., i]
    if a.shape[-1] == 2 and b.shape[-1] == 2:
        return g(a, 0) * g(b, 1) - g(a, 1) * g(b, 0)
    def c(x, i):
        if x.shape[-1] == 2 and i == 2:
            return g(x, 0) * 0
        return g(x, i)
    comp = [c(a, 1) * c(b, 2) - c(a, 2) * c(b, 1), c(a, 2) * c(b, 0) - c(a, 0) * c(b, 2), c(a, 0) * c(b, 1) - c(a, 1) * c(b, 0)]
    comp = [wrap(x) for x in comp]
    comp = np.broadcast_arrays(*comp)
    return np.moveaxis(np.stack(comp, axis=-1), -1, axisc)


@handles(np.dot)
def H_dot(a, b, out=None):
    if not isinstance(b, np.ndarray) and hasattr(b, 'tocsr'):
        raise Unsupported('np.dot with sparse')
    a, b = wrap(a), wrap(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    A = a.view_raw().reshape(-1, a.shape[-1])
    bb = b.view_raw()
    if b.ndim == 1:
        B = bb.reshape(1, -1)
        oshape = a.shape[:-1]
    else:
        B = np.moveaxis(bb, -2, -1).reshape(-1, b.shape[-2])
        oshape = a.shape[:-1] + b.shape[:-2] + (b.shape[-1],)
    if A.shape[1] != B.shape[1]:
        raise ValueError('shapes %s and %s not aligned' % (a.shape, b.shape))
    r = np.empty((len(A), len(B)), object)
    Al, Bl = A.tolist(), B.tolist()
    for i in range(len(A)):
        for j in range(len(B)):
            r[i, j] = dot1(Al[i], Bl[j])
    dt = result_tag('dot', (a, b))
    if b.ndim > 2:
        # rows of B are ordered [lead..., last]
        r = r.reshape(a.shape[:-1] + b.shape[:-2] + (b.shape[-1],))
    else:
        r = r.reshape(oshape)
    if r.ndim == 0:
        return scalar_out(r.item(), dt or _F)
    r = np.ndarray.view(r, SymArr)
    r._dt = dt
    return r


@handles(np.inner)
def _(a, b):
    a, b = wrap(a), wrap(b)
    return H_dot(a, np.moveaxis(b, -1, -2) if b.ndim > 1 else b)


@handles(np.vdot)
def _(a, b):
    return H_dot(wrap(a).ravel(), wrap(b).ravel())


def H_matmul(a, b, **k):
    a, b = wrap(a), wrap(b)
    if not a.is_symbolic() and not b.is_symbolic():
        return wrap_out(np.matmul(a.plain(), b.plain()))
    if a.ndim <= 2 and b.ndim <= 2:
        return H_dot(a, b)
    a1, b1 = a.ndim == 1, b.ndim == 1
    if a1:
        a = a[None]
    if b1:
        b = b[:, None]
    lead = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    A = np.broadcast_to(a.view_raw(), lead + a.shape[-2:])
    B = np.broadcast_to(b.view_raw(), lead + b.shape[-2:])
    r = np.empty(lead + (a.shape[-2], b.shape[-1]), object)
    for k in np.ndindex(lead):
        r[k] = H_dot(wrap(A[k]), wrap(B[k])).view_raw()
    if a1:
        r = r[..., 0, :]
    if b1:
        r = r[..., 0]
    return finish(r, result_tag('dot', (a, b)))


@handles(np.matmul)
def _(*a, **k):
    return H_matmul(*a)


@handles(np.einsum)
def H_einsum(spec, *ops, **kw):
    kw.pop('optimize', None)
    if not isinstance(spec, str):
        raise Unsupported('einsum sublist format')
    spec = spec.replace(' ', '')
    ops = [wrap(o) for o in ops]
    if '->' in spec:
        ins, outs = spec.split('->')
    else:
        ins = spec
        letters = sorted(set(ins.replace(',', '').replace('.', '')))
        outs = ('...' if '...' in ins else '') + ''.join(l for l in letters if ins.count(l) == 1)
    ins = ins.split(',')
    # ellipsis -> capital letters
    nell = 0
    ell = []
    for s, o in zip(ins, ops):
        if '...' in s:
            ell.append(o.ndim - len(s.replace('...', '')))
        else:
            ell.append(0)
    nell = max(ell) if ell else 0
    # use code points beyond letters
    names = [chr(0x400 + i) for i in range(nell)]
    ins = [s.replace('...', ''.join(names[nell - k:])) for s, k in zip(ins, ell)]
    outs = outs.replace('...', ''.join(names))
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ValueError('einsum operand has %d dims but spec %r' % (o.ndim, s))
        for l, n in zip(s, o.shape):
            if l in dims and dims[l] not in (n, 1) and n != 1:
                raise ValueError('einsum dimension mismatch for %r' % l)
            dims[l] = max(dims.get(l, 1), n)
    summed = [l for l in dims if l not in outs]
    raws = [o.view_raw() for o in ops]
    oshape = tuple(dims[l] for l in outs)
    r = np.empty(oshape, object)
    sshape = tuple(dims[l] for l in summed)
    for oi in np.ndindex(oshape):
        env = dict(zip(outs, oi))
        terms = []
        for si in np.ndindex(sshape):
            env.update(zip(summed, si))
            t = 1
            for s, q in zip(ins, raws):
                v = q[tuple(env[l] if n > 1 else 0 for l, n in zip(s, q.shape))]
                if not is_sym(v):
                    if v == 0:
                        t = 0
                        break
                    v = num(v)
                t = _num(v) * t
            if is_sym(t) or t != 0:
                terms.append(t)
        r[oi] = sum_many(terms)
    dt = result_tag('einsum', ops)
    if r.ndim == 0:
        return scalar_out(r.item(), dt or _F)
    r = np.ndarray.view(r, SymArr)
    r._dt = dt
    return r


# -- linalg

def _det(rows):
    n = len(rows)
    if n == 0:
        return 1
    if n == 1:
        return rows[0][0]
    t = []
    for j in range(n):
        c = rows[0][j]
        if not is_sym(c) and c == 0:
            continue
        m = _det([r[:j] + r[j + 1:] for r in rows[1:]])
        v = c * m
        t.append(v if j % 2 == 0 else -v)
    return sum_many(t)


def _batched(f, a, oshape):
    a = wrap(a)
    r0 = a.view_raw()
    lead = r0.shape[:-2]
    out = np.empty(lead + oshape, object)
    for k in np.ndindex(lead):
        out[k] = f(r0[k].tolist())
    if out.ndim == 0:
        return out.item()
    return finish(out, _F)


@handles(np.linalg.det)
def H_det(a):
    a = wrap(a)
    if a.shape[-1] > 6:
        raise Unsupported('det of a large symbolic matrix')
    return _batched(lambda m: S.of(_det(m)), a, ())


def _inv(m):
    n = len(m)
    det = S.of(_det(m))
    di = det.inverse()
    out = np.empty((n, n), object)
    for i in range(n):
        for j in range(n):
            minor = [r[:j] + r[j + 1:] for k, r in enumerate(m) if k != i]
            c = S.of(_det(minor))
            out[j, i] = (c if (i + j) % 2 == 0 else -c) * di
    return out


@handles(np.linalg.inv)
def H_inv(a):
    a = wrap(a)
    if a.shape[-1] > 5:
        raise Unsupported('inverse of a large symbolic matrix')
    return _batched(_inv, a, a.shape[-2:])


@handles(np.linalg.solve)
def H_solve(a, b):
    a, b = wrap(a), wrap(b)
    if not a.is_symbolic():
        i = wrap(np.linalg.inv(a.plain()))
    else:
        i = H_inv(a)
    if b.ndim == a.ndim - 1:
        return H_matmul(i, b[..., None])[..., 0]
    return H_matmul(i, b)


@handles(np.linalg.pinv)
def H_pinv(a, *x, **k):
    a = wrap(a)
    if a.shape[-1] <= a.shape[-2]:
        at = np.swapaxes(a, -1, -2)
        return H_matmul(H_inv(H_matmul(at, a)), at)
    at = np.swapaxes(a, -1, -2)
    return H_matmul(at, H_inv(H_matmul(a, at)))


@handles(np.linalg.norm)
def H_norm(x, ord=None, axis=None, keepdims=False):
    x = wrap(x)
    if ord not in (None, 2, 'fro') or (ord == 2 and axis is None and x.ndim == 2):
        if ord == 1 and (axis is not None and not isinstance(axis, tuple) or x.ndim == 1):
            return np.abs(x).sum(axis, keepdims=keepdims)
        if ord == np.inf and (x.ndim == 1 or axis is not None):
            return np.abs(x).max(axis, keepdims=keepdims)
        raise Unsupported('norm ord=%s' % ord)
    s = (x * x).sum(axis, keepdims=keepdims)
    return np.sqrt(s) if isinstance(s, np.ndarray) else S.of(s).sqrt()


@handles(np.linalg.matrix_power)
def _(a, n):
    r = wrap(np.eye(a.shape[-1]))
    for _ in range(abs(n)):
        r = H_matmul(r, a)
    return H_inv(r) if n < 0 else r


@handles(np.apply_along_axis)
def _(f, axis, arr, *a, **k):
    arr = np.moveaxis(wrap(arr), axis, -1)
    lead = arr.shape[:-1]
    outs = [f(arr[i], *a, **k) for i in np.ndindex(lead)]
    o = wrap(outs)
    o = o.reshape(lead + o.shape[1:])
    return np.moveaxis(o, -1, axis) if o.ndim > len(lead) else o


@handles(np.unravel_index)
def _(i, shape, order='C'):
    return tuple(wrap(x) for x in np.unravel_index(index_any(i), shape, order))


@handles(np.ravel_multi_index)
def _(mi, dims, *a, **k):
    return wrap(np.ravel_multi_index(tuple(index_any(m) for m in mi), dims, *a, **k))


@handles(np.isscalar)
def _(x):
    return True


@handles(np.result_type)
def _(*a):
    return np.result_type(*[tag(x) if isinstance(x, np.ndarray) else x for x in a])


@handles(np.iscomplexobj)
def _(x):
    return False


@handles(np.array2string, np.array_repr, np.array_str)
def _(x, *a, **k):
    return repr(x)


# -- mutators: never on copies
def _scatter(a, keys, v):
    f = FlatProxy(a)
    v = np.ravel(v)
    for j, k in enumerate(keys):
        f[int(k)] = v[j % len(v)]


@handles(np.put)
def _(a, ind, v, mode='raise'):
    _scatter(a, np.atleast_1d(index_array(ind)).ravel().tolist(), v)


@handles(np.place)
def _(arr, mask, vals):
    _scatter(arr, np.flatnonzero(bool_plain(mask)).tolist(), wrap(vals))


@handles(np.putmask)
def _(a, mask, values):
    v = np.ravel(wrap(values))
    f = FlatProxy(a)
    for k in np.flatnonzero(bool_plain(mask)).tolist():
        f[k] = v[k % len(v)]


@handles(np.copyto)
def _(dst, src, casting='same_kind', where=True):
    if where is True:
        dst[...] = src
        return
    w = np.broadcast_to(bool_plain(where), dst.shape)
    dst[w] = np.broadcast_to(wrap(src), dst.shape)[w]


MUTATORS = {np.put, np.place, np.putmask, np.copyto, np.put_along_axis, np.fill_diagonal}


@handles(np.digitize)
def _(x, bins, right=False):
    b = wrap(bins)
    if len(b) > 1 and bool(b[0] > b[-1]):
        raise Unsupported('decreasing bins')
    return np.searchsorted(b, wrap(x), side='left' if right else 'right')


@handles(np.around, np.round_)
def _(a, decimals=0, out=None):
    if decimals:
        raise Unsupported('decimals')
    return np.rint(a)


@handles(np.diagflat)
def _(v, k=0):
    return np.diag(wrap(v).ravel(), k)


@handles(np.piecewise)
def _(x, condlist, funclist, *a, **k):
    x = wrap(x)
    r = new(x.shape, 0, x.dtype)
    c = [bool_plain(q) for q in condlist]
    if len(funclist) == len(c) + 1:
        c.append(~np.any(c, axis=0))
    for q, f in zip(c, funclist):
        r[q] = f(x[q], *a, **k) if callable(f) else f
    return r


@handles(np.nansum)
def _(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return wrap(a).sum(axis=axis, keepdims=keepdims)


@handles(np.partition)
def _(a, kth, axis=-1, **k):
    return np.sort(a, axis=axis)


@handles(np.argpartition)
def _(a, kth, axis=-1, **k):
    return np.argsort(a, axis=axis)


@handles(np.median)
def _(a, axis=None, out=None, overwrite_input=False, keepdims=False):
    a = wrap(a)
    s = np.sort(a, axis=axis)
    ax = 0 if axis is None else axis
    n = s.shape[ax]
    r = (s.take((n - 1) // 2, axis=ax) + s.take(n // 2, axis=ax)) / 2
    if keepdims:
        return np.expand_dims(r, ax) if axis is not None else wrap(r).reshape((1,) * a.ndim)
    return r


@handles(np.linalg.multi_dot)
def _(arrays, out=None):
    return functools.reduce(np.dot, [wrap(a) for a in arrays])


@handles(np.apply_over_axes)
def _(func, a, axes):
    a = wrap(a)
    for x in np.atleast_1d(axes).tolist():
        r = func(a, x)
        a = r if r.ndim == a.ndim else np.expand_dims(r, x)
    return a


@handles(np.polyval)
def _(p, x):
    r = 0
    for c in p:
        r = r * x + c
    return r


@handles(np.lib.stride_tricks.sliding_window_view)
def _(x, window_shape, axis=None, **k):
    x = wrap(x)
    i = np.lib.stride_tricks.sliding_window_view(np.arange(x.size).reshape(x.shape), window_shape, axis, **k)
    return x.ravel()[i]


@handles(np.correlate)
def _(a, v, mode='valid'):
    return np.convolve(a, wrap(v)[::-1], mode=mode)


@handles(np.trapz)
def _(y, x=None, dx=1.0, axis=-1):
    y = np.moveaxis(wrap(y), axis, -1)
    d = dx if x is None else np.diff(x)
    return ((y[..., 1:] + y[..., :-1]) * d / 2).sum(axis=-1)
