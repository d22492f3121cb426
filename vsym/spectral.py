"""eigh / svd of symbolic matrices.

The factors are not solved for. They are returned as tagged objects that remember which matrix they belong to;
contracting them back together (W f(v) W^T, U f(s) V) gives the matrix function f(A), which for f = identity,
inverse and thresholded inverse is a rational function of the entries of A.  Thresholds are read as "drops
exactly the zero singular values": part of the stated domain is that the nonzero ones lie within DOMAIN of
each other, and a threshold tighter than that is not modelled.
Anything else done with the factors is Unsupported.
"""
import numpy as np

from vsym import arr as A
from vsym.arr import SymArr, wrap, finish
from vsym.core import S, Unsupported, is_sym, note_nonzero

DOMAIN = 1e4
_F = np.dtype(float)


class Problem:
    """a batch of matrices with its kind of decomposition"""

    def __init__(self, a, kind):
        self.a = wrap(a)
        self.kind = kind          # 'eigh' | 'svd'
        self.m, self.n = self.a.shape[-2:]
        self.k = min(self.m, self.n)

    def apply(self, fn):
        """U fn(s) Vh (rows x cols), or W fn(v) W^T"""
        if fn == 'lam':
            return self.a
        if fn == 'pinv':
            p = pinv(self.a)
        elif fn == 'inv':
            if self.m == self.n:
                p = A.H_inv(self.a)
            else:
                p = A.H_pinv(self.a)
        else:
            raise Unsupported('spectral function %s' % fn)
        return np.swapaxes(p, -1, -2)


def pinv1(m):
    """Moore-Penrose inverse of one matrix; generic rank (Decell)"""
    a = np.empty((len(m), len(m[0])), object)
    for i, r in enumerate(m):
        a[i] = r
    rows, cols = a.shape
    if rows == cols:
        if S.of(A._det(m)).n:
            return A._inv(m)
    at = wrap(a.T.copy())
    a = wrap(a)
    if rows <= cols:
        B, left = A.H_dot(a, at), True
    else:
        B, left = A.H_dot(at, a), False
    n = len(B)
    # Faddeev-LeVerrier
    I = np.eye(n)
    M = wrap(np.eye(n))
    best = None
    for k in range(1, n + 1):
        Q = A.H_dot(B, M)
        tr = A.sum_many([S.of(Q.view_raw()[i, i]) for i in range(n)])
        p = S.of(tr) * S.of(-1) / k
        if not p.n:
            break
        best = (M, p)
        M = Q + wrap(I) * p
    if best is None:
        return at.view_raw() * 0
    M, p = best
    r = A.H_dot(at, M) if left else A.H_dot(M, at)
    d = (-p).inverse()
    return (r * d).view_raw()


def pinv(a):
    a = wrap(a)
    return A._batched(pinv1, a, (a.shape[-1], a.shape[-2]))


class Spec:
    __array_priority__ = 2000
    __array_ufunc__ = None

    def bad(self, what):
        raise Unsupported('%s of a symbolic matrix factor' % what)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported('attribute %s of a symbolic matrix factor' % name)

    @property
    def ndim(self):
        return len(self.shape)

    def _swap(self, i, j):
        self.bad('axes exchange')


def _plainkey(key):
    return key if isinstance(key, tuple) else (key,)


class Factor(Spec):
    """side 'l' (rows x spectrum) or 'r' (spectrum x cols); t: transposed view"""

    def __init__(self, pb, side, count, t=False, fn='one'):
        self.pb, self.side, self.count, self.t, self.fn = pb, side, count, t, fn

    @property
    def outer(self):
        return self.pb.m if self.side == 'l' else self.pb.n

    @property
    def spectrum_last(self):
        return (self.side == 'l') != self.t

    @property
    def shape(self):
        lead = self.pb.a.shape[:-2]
        return lead + ((self.outer, self.count) if self.spectrum_last else (self.count, self.outer))

    def __getitem__(self, key):
        key = _plainkey(key)
        if key and key[0] is Ellipsis:
            key = key[1:]
        elif len(key) == 2 + len(self.pb.a.shape[:-2]):
            if any(k != slice(None) for k in key[:-2]):
                self.bad('indexing')
            key = key[-2:]
        elif len(self.pb.a.shape) != 2:
            self.bad('indexing')
        elif len(key) == 1:
            key = (key[0], slice(None))
        if not all(isinstance(k, slice) and k.step in (None, 1) and k.start in (None, 0) for k in key):
            self.bad('indexing')
        if len(key) == 1:
            key = (slice(None),) + key
        o, s = key if self.spectrum_last else key[::-1]
        if o.stop is not None and int(o.stop) < self.outer:
            self.bad('slicing')
        c = self.count if s.stop is None else len(range(self.count)[:int(s.stop)])
        return Factor(self.pb, self.side, c, self.t, self.fn)

    def _swap(self, i, j):
        if {i % self.ndim, j % self.ndim} != {self.ndim - 1, self.ndim - 2}:
            self.bad('axes exchange')
        return Factor(self.pb, self.side, self.count, not self.t, self.fn)

    def swapaxes(self, i, j):
        return self._swap(i, j)

    def transpose(self, *a):
        if self.ndim != 2 or a:
            self.bad('transpose')
        return self._swap(0, 1)

    T = property(lambda self: self.transpose())

    def conj(self):
        return self
    conjugate = conj

    def copy(self):
        return self

    def _scale(self, v):
        """elementwise product with broadcast spectral values"""
        if not isinstance(v, Vals) or v.pb is not self.pb or v.absolute or self.fn != 'one':
            self.bad('product')
        if v.expand != (-2 if self.spectrum_last else -1) and not (v.expand is None and self.spectrum_last and self.ndim == 2):
            self.bad('product')
        if v.count != self.count:
            raise ValueError('operands could not be broadcast together')
        return Factor(self.pb, self.side, self.count, self.t, v.fn)

    def __mul__(self, o):
        return self._scale(o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._scale(1 / o)

    def __matmul__(self, o):
        if isinstance(o, Diag):
            return Factor(self.pb, self.side, self.count, self.t, o.v.fn) if self.fn == 'one' and self.spectrum_last else self.bad('product')
        if isinstance(o, Factor):
            return contract([self, o], 'ij', 'jk', out='ik')
        # chain: (U f V) b  evaluated right to left
        return Pending([self, o])
    dot = __matmul__

    def __rmatmul__(self, o):
        self.bad('product')


class Diag(Spec):
    def __init__(self, v):
        self.v = v
        self.shape = (v.count, v.count)

    def __matmul__(self, o):
        if isinstance(o, Factor) and o.fn == 'one' and not o.spectrum_last:
            return Factor(o.pb, o.side, o.count, o.t, self.v.fn)
        self.bad('product')
    dot = __matmul__


class Pending(Spec):
    def __init__(self, items):
        self.bad('product')


class Vals(Spec):
    def __init__(self, pb, fn='lam', count=None, absolute=False, relative=False, expand=None):
        self.pb, self.fn, self.absolute, self.relative, self.expand = pb, fn, absolute, relative, expand
        self.count = pb.k if count is None else count

    @property
    def shape(self):
        r = self.pb.a.shape[:-2] + (self.count,)
        if self.expand == -1:
            return r + (1,)
        if self.expand == -2:
            return r[:-1] + (1,) + r[-1:]
        return r

    def _new(self, **k):
        d = dict(pb=self.pb, fn=self.fn, count=self.count, absolute=self.absolute, relative=self.relative, expand=self.expand)
        d.update(k)
        return Vals(**d)

    def __len__(self):
        return self.shape[0]

    def __getitem__(self, key):
        key = _plainkey(key)
        if key and key[0] is Ellipsis:
            key = key[1:]
        elif any(not (k == slice(None)) for k in key[:len(self.pb.a.shape) - 2]):
            self.bad('indexing')
        else:
            key = key[len(self.pb.a.shape) - 2:]
        if key == (None, slice(None)):
            return self._new(expand=-2)
        if key in ((slice(None), None), (None,)):
            return self._new(expand=-1)
        if len(key) == 1:
            k = key[0]
            if isinstance(k, slice) and k.start in (None, 0) and k.step in (None, 1):
                c = len(range(self.count)[:k.stop])
                if c == 1 and self.count > 1 or (k.stop == 1):
                    return Extreme(self, 'first')
                return self._new(count=c)
            if k == 0:
                return Extreme(self, 'first')
            if k == -1:
                return Extreme(self, 'last')
        self.bad('indexing')

    def __setitem__(self, key, v):
        if not isinstance(key, Mask) or key.pb is not self.pb or self.absolute or self.relative:
            self.bad('assignment')
        if not key.small:
            self.bad('assignment')
        if self.fn == 'inv' and v == 0:
            self.fn = 'pinv'
        elif self.fn == 'lam' and v == np.inf:
            self.fn = 'cut'
        elif self.fn == 'lam' and v == 0:
            pass
        else:
            self.bad('assignment')

    def __rtruediv__(self, o):
        if is_sym(o) or o != 1 or self.absolute or self.relative:
            self.bad('division')
        return self._new(fn={'lam': 'inv', 'inv': 'lam', 'cut': 'pinv'}.get(self.fn) or self.bad('division'))

    def __pow__(self, k):
        if k == -1:
            return 1 / self
        self.bad('power')

    def __truediv__(self, o):
        if isinstance(o, Extreme) and o.v.pb is self.pb and o.factor == 1:
            return Rel(self, o)
        self.bad('division')

    def __abs__(self):
        return self._new(absolute=True)

    def copy(self):
        return self._new()

    def min(self, axis=None, keepdims=False, **k):
        return Extreme(self, 'min')

    def max(self, axis=None, keepdims=False, **k):
        return Extreme(self, 'max')

    def _size(self):
        return self.absolute or self.pb.kind == 'svd'

    def _compare(self, o, less):
        if isinstance(o, Extreme) and o.v.pb is self.pb and self._size() and o.v.fn == self.fn:
            return Rel(self, o.base())._compare(o.factor, less)
        self.bad('comparison')

    def __lt__(self, o):
        return self._compare(o, True)
    __le__ = __lt__

    def __gt__(self, o):
        return self._compare(o, False)
    __ge__ = __gt__


class Extreme(Spec):
    """factor times the smallest / largest spectral value"""

    def __init__(self, v, which, factor=1):
        self.v, self.which, self.factor = v, which, factor
        self.shape = v.pb.a.shape[:-2]

    def base(self):
        return Extreme(self.v, self.which)

    def largest(self):
        """is it the extreme with the largest |lambda|"""
        if self.which == 'first' or self.which == 'last':
            if self.v.pb.kind != 'svd' or self.v.fn not in ('lam', 'inv'):
                self.bad('order')
            return self.which == 'first'
        if not self.v._size():
            self.bad('order')
        return (self.which == 'max') == (self.v.fn == 'lam')

    def __mul__(self, k):
        if is_sym(k) or isinstance(k, Spec):
            self.bad('product')
        return Extreme(self.v, self.which, self.factor * float(k))
    __rmul__ = __mul__

    def __truediv__(self, k):
        return self * (1 / float(k))

    def __getitem__(self, key):
        return self

    def __abs__(self):
        return self


class Rel(Spec):
    """|value| / extreme value"""

    def __init__(self, v, ex, absolute=False):
        self.v, self.ex, self.absolute = v, ex, absolute

    def __abs__(self):
        return Rel(self.v, self.ex, True)

    def _compare(self, o, less):
        if isinstance(o, Spec) or is_sym(o):
            self.bad('comparison')
        if not (self.v._size() or self.absolute):
            self.bad('comparison')
        o = float(o)
        if self.v.fn == 'inv' and not self.ex.largest():
            self.bad('comparison')
        if not self.ex.largest():
            self.bad('comparison')
        if self.v.fn == 'lam':
            # |lambda| / max|lambda| < o
            if not 0 < o <= 1 / DOMAIN:
                self.bad('threshold %g' % o)
            return Mask(self.v.pb, less)
        if self.v.fn == 'inv':
            if not DOMAIN <= o < np.inf:
                self.bad('threshold %g' % o)
            return Mask(self.v.pb, not less)
        self.bad('comparison')

    def __lt__(self, o):
        return self._compare(o, True)
    __le__ = __lt__

    def __gt__(self, o):
        return self._compare(o, False)
    __ge__ = __gt__


class Mask(Spec):
    def __init__(self, pb, small):
        self.pb, self.small = pb, small

    def __invert__(self):
        return Mask(self.pb, not self.small)


def contract(ops, *subs, out):
    """contraction of the factors of one problem over the spectrum"""
    left = right = None
    fn = []
    js = set()
    pb = None
    for o, s in zip(ops, subs):
        if not isinstance(o, Spec):
            raise Unsupported('factor contracted with other operands')
        if pb is None:
            pb = o.pb
        elif o.pb is not pb:
            raise Unsupported('factors of different matrices contracted')
        if isinstance(o, Vals):
            if o.absolute or o.relative or o.expand is not None or len(s) != 1:
                raise Unsupported('spectral values contracted')
            fn.append(o.fn)
            js.add((s, o.count))
        else:
            outer, j = (s[0], s[1]) if o.spectrum_last else (s[1], s[0])
            js.add((j, o.count))
            if o.fn != 'one':
                fn.append(o.fn)
            if o.side == 'l' and left is None:
                left = outer
            elif right is None and (o.side == 'r' or pb.kind == 'eigh'):
                right = outer
            else:
                raise Unsupported('factors contracted with themselves')
    if left is None or right is None or len(fn) > 1 or left == right:
        raise Unsupported('factor contraction')
    if len({j for j, c in js}) != 1:
        raise Unsupported('factor contraction')
    counts = {c for j, c in js}
    if len(counts) > 1:
        if 1 in counts:
            raise Unsupported('broadcast over the spectrum')
        raise ValueError('operands could not be broadcast together')
    (c,) = counts
    if c < pb.k:
        raise Unsupported('truncated spectrum')
    r = pb.apply(fn[0] if fn else 'one')
    if out == left + right:
        return r
    if out == right + left:
        return np.swapaxes(r, -1, -2)
    raise Unsupported('factor contraction')


def einsum(spec, *ops):
    spec = spec.replace(' ', '')
    if '->' in spec:
        ins, out = spec.split('->')
    else:
        ins = spec
        letters = sorted(set(ins.replace(',', '').replace('.', '')))
        out = ('...' if '...' in ins else '') + ''.join(l for l in letters if ins.count(l) == 1)
    ins = ins.split(',')
    if any(isinstance(o, Spec) for o in ops) and not all(isinstance(o, Spec) for o in ops):
        # contract the factors first, then the rest
        f = [i for i, o in enumerate(ops) if isinstance(o, Spec)]
        rest = [i for i in range(len(ops)) if i not in f]
        dots = '...' if any('...' in ins[i] for i in f) else ''
        inner = [ins[i].replace('...', '') for i in f]
        outside = set(''.join(ins[i] for i in rest) + out)
        keep = [l for l in dict.fromkeys(''.join(inner)) if l in outside]
        r = contract([ops[i] for i in f], *inner, out=''.join(keep))
        return A.H_einsum(','.join([dots + ''.join(keep)] + [ins[i] for i in rest]) + '->' + out, r, *[ops[i] for i in rest])
    lead = ops[0].pb.a.ndim - 2
    ins = [s.replace('...', '') for s in ins]
    out = out.replace('...', '')
    # explicit batch letters
    if lead and all(len(s) == (2 if isinstance(o, Factor) else 1) + lead for s, o in zip(ins, ops)):
        b = ins[0][:lead]
        if any(s[:lead] != b for s in ins) or out[:lead] != b:
            raise Unsupported('factor contraction')
        ins = [s[lead:] for s in ins]
        out = out[lead:]
    return contract(list(ops), *ins, out=out)


def has_spec(x):
    if isinstance(x, Spec):
        return True
    if isinstance(x, (list, tuple)):
        return any(has_spec(y) for y in x)
    return False


def call(f, a, k):
    n = getattr(f, '__name__', str(f))
    if n == 'einsum':
        return einsum(*a)
    if n in ('absolute', 'abs', 'fabs'):
        return abs(a[0])
    if n in ('multiply',):
        return a[0] * a[1]
    if n in ('true_divide', 'divide'):
        return a[0] / a[1]
    if n in ('reciprocal',):
        return 1 / a[0]
    if n in ('less', 'less_equal'):
        return a[0] < a[1]
    if n in ('greater', 'greater_equal'):
        return a[0] > a[1]
    if n in ('matmul', 'dot'):
        return a[0] @ a[1]
    if n in ('min', 'amin'):
        return a[0].min()
    if n in ('max', 'amax'):
        return a[0].max()
    if n == 'swapaxes':
        return a[0].swapaxes(*a[1:])
    if n == 'transpose' and len(a) == 1:
        return a[0].transpose()
    if n in ('conjugate', 'conj', 'array', 'asarray', 'copy', 'real'):
        return a[0]
    if n == 'diag' and isinstance(a[0], Vals):
        return Diag(a[0])
    if n == 'where' and len(a) == 3 and isinstance(a[0], Mask):
        m, x, y = a
        if not m.small:
            m, x, y = ~m, y, x
        r = y.copy()
        r[m] = x
        return r
    raise Unsupported('%s of a symbolic matrix factor' % n)


# numpy entry points

@A.handles(np.linalg.eigh)
def H_eigh(a, UPLO='L'):
    p = Problem(a, 'eigh')
    return Vals(p), Factor(p, 'l', p.k)


@A.handles(np.linalg.svd)
def H_svd(a, full_matrices=True, compute_uv=True, hermitian=False):
    p = Problem(a, 'svd')
    if not compute_uv:
        return Vals(p)
    if full_matrices:
        return Factor(p, 'l', p.m), Vals(p), Factor(p, 'r', p.n)
    return Factor(p, 'l', p.k), Vals(p), Factor(p, 'r', p.k)


@A.handles(np.linalg.pinv)
def H_pinv(a, rcond=1e-15, hermitian=False):
    return pinv(a)
