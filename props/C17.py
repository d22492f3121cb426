"""algebra of transposable operators"""
import itertools

import numpy as np

from vsym.prop import Registry
from props.lib import rows

REG = Registry('C17', bounds='all sums and products of three operators drawn from general, symmetric, diagonal, scalar, identity and zero operators on spaces of 1-4 entries (thorough: four operators), '
               'derivatives and hodges of periodic grids in 1-3d; all coefficients and vectors symbolic in [-2, 2]',
               assumptions=['real arithmetic in place of floating point; results compared within 1e-6'])
ob = REG.ob


class Leaf:
    """an operator of the code next to the matrix it stands for (None: zero)"""

    def __init__(self, op, f, ft):
        self.op, self.f, self.ft = op, f, ft


def total(xs):
    s = 0
    for x in xs:
        s = s + x
    return s


def product(m, x, shape):
    x = rows(x.reshape(-1))
    return np.array([total(a * b for a, b in zip(r, x)) for r in m]).reshape(shape)


def build(ctx, kind, name, l, r):
    """operator of the given kind from the space of shape r to the space of shape l"""
    from pycomplex.stencil import operator as O
    n, m = int(np.prod(l)), int(np.prod(r))
    if kind == 'Z':
        return Leaf(O.ZeroOperator((l, r)), lambda x: np.zeros(l), lambda x: np.zeros(r))
    if kind == 'M':
        a = rows(ctx.real(name, (n, m), -2, 2))
        t = [list(c) for c in zip(*a)]
        f, ft = lambda x: product(a, x, l), lambda x: product(t, x, r)
        return Leaf(O.StencilOperator(left=ft, right=f, shape=(l, r)), f, ft)
    assert l == r
    if kind == 'S':
        a = rows(ctx.real(name, (n, n), -2, 2))
        a = [[a[min(i, j)][max(i, j)] for j in range(n)] for i in range(n)]
        f = lambda x: product(a, x, l)
        return Leaf(O.SymmetricOperator(f, l), f, f)
    if kind == 'I':
        return Leaf(O.IdentityOperator(l), lambda x: x, lambda x: x)
    d = ctx.real(name, l if kind == 'D' else (), -2, 2)
    f = lambda x: x * d
    return Leaf((O.HodgeOperator if kind == 'H' else O.DiagonalOperator)(d, l), f, f)


def mul(a, b):
    return Leaf(a.op * b.op, lambda x: a.f(b.f(x)), lambda x: b.ft(a.ft(x)))


def add(a, b):
    return Leaf(a.op + b.op, lambda x: a.f(x) + b.f(x), lambda x: a.ft(x) + b.ft(x))


def tr(a):
    return Leaf(a.op.T, a.ft, a.f)


def agree(ctx, label, a, x, y):
    """x in the domain of a, y in its range"""
    ctx.check(label + ': shape', tuple(map(tuple, a.op.shape)) == (tuple(y.shape), tuple(x.shape)) and tuple(map(tuple, a.op.T.shape)) == (tuple(x.shape), tuple(y.shape)))
    ctx.close(label + ': action', a.op * x, a.f(x))
    ctx.close(label + ': transposed action', a.op.T * y, a.ft(y))
    s = a.op.simplify()
    ctx.close(label + ': simplified action', s * x, a.f(x))
    ctx.close(label + ': transposed twice', a.op.transpose().transpose()(x), a.f(x))


KINDS = ['M', 'S', 'D', 'H', 'I', 'Z']
TREES = {'(a b) c': lambda a, b, c: mul(mul(a, b), c), 'a (b c)': lambda a, b, c: mul(a, mul(b, c)), 'a b + c': lambda a, b, c: add(mul(a, b), c), 'a + (b + c)': lambda a, b, c: add(a, add(b, c)),
         '(a + b) + c': lambda a, b, c: add(add(a, b), c), '(a + b) c': lambda a, b, c: mul(add(a, b), c), 'a (b + c)': lambda a, b, c: mul(a, add(b, c)), "(a b)' c": lambda a, b, c: mul(tr(mul(a, b)), c),
         "a' (b + c)'": lambda a, b, c: mul(tr(a), tr(add(b, c)))}


@REG.family('square/{0}{1}{2}', list(itertools.product(KINDS, repeat=3)))
def square(ctx, *kinds):
    s = (1, 2)
    a, b, c = [build(ctx, k, n, s, s) for k, n in zip(kinds, 'abc')]
    x = ctx.real('x', s, -2, 2)
    y = ctx.real('y', s, -2, 2)
    for l, t in TREES.items():
        agree(ctx, l, t(a, b, c), x, y)


@REG.family('four/{0}{1}{2}{3}', [k for k in itertools.product('MDHIZ', repeat=4)], tier='thorough')
def four(ctx, *kinds):
    s = (1, 2)
    a, b, c, d = [build(ctx, k, n, s, s) for k, n in zip(kinds, 'abcd')]
    x = ctx.real('x', s, -2, 2)
    y = ctx.real('y', s, -2, 2)
    for l, t in {'(a b)(c d)': mul(mul(a, b), mul(c, d)), 'a (b c) d': mul(mul(a, mul(b, c)), d), 'a b + c d': add(mul(a, b), mul(c, d)), '(a + b)(c + d)': mul(add(a, b), add(c, d)), 'a (b + c d)': mul(a, add(b, mul(c, d)))}.items():
        agree(ctx, l, t, x, y)


@REG.family('rect/{0}{1}', list(itertools.product('MZ', repeat=2)))
def rect(ctx, p, q):
    l, m, r = (3,), (1, 2), (2, 1, 2)
    a, b = build(ctx, p, 'a', l, m), build(ctx, q, 'b', m, r)
    c = build(ctx, 'M', 'c', l, r)
    d = build(ctx, 'D', 'd', m, m)
    x = ctx.real('x', r, -2, 2)
    y = ctx.real('y', l, -2, 2)
    agree(ctx, 'a b', mul(a, b), x, y)
    agree(ctx, 'a d b', mul(mul(a, d), b), x, y)
    agree(ctx, 'a d d b', mul(mul(a, d), mul(d, b)), x, y)
    agree(ctx, 'a b + c', add(mul(a, b), c), x, y)
    agree(ctx, "(a b)(a b)'", mul(mul(a, b), tr(mul(a, b))), y, y)
    agree(ctx, "b'(a' c) + b' b", add(mul(tr(b), mul(tr(a), c)), mul(tr(b), b)), x, x)
    ctx.expect_raise('unmatched product', Exception, lambda: a.op * c.op)
    ctx.expect_raise('unmatched sum', Exception, lambda: a.op + b.op)
    ctx.expect_raise('unmatched sum', Exception, lambda: c.op + c.op.T)
    ctx.expect_raise('unmatched vector', Exception, lambda: a.op * x)
    ctx.expect_raise('unmatched vector', Exception, lambda: (a.op * b.op) * y)


@REG.family('dense/{0}', [('M',), ('D',), ('S',), ('I',), ('Z',)])
def dense(ctx, kind):
    """matrix and scipy views of an operator"""
    l, r = ((3,), (1, 2)) if kind in 'MZ' else ((1, 2), (1, 2))
    a = build(ctx, kind, 'a', l, r)
    b = build(ctx, 'M', 'b', l, r)
    c = build(ctx, 'M', 'c', r, r)
    x = ctx.real('x', r, -2, 2)
    y = ctx.real('y', l, -2, 2)
    for label, o in [('a', a), ('a + b', add(a, b)), ('a c', mul(a, c)), ("a c + b", add(mul(a, c), b)), ("c' a'", mul(tr(c), tr(a)))]:
        u, v = (x, y) if label[0] != 'c' else (y, x)
        D = o.op.to_dense()
        ctx.close(label + ': dense matrix', np.dot(D, u.reshape(-1)), o.f(u).reshape(-1))
        L = o.op.aslinearoperator()
        ctx.check(label + ': flattened shape', tuple(L.shape) == (v.size, u.size))
        ctx.close(label + ': flattened action', L.matvec(u.reshape(-1)), o.f(u).reshape(-1))
        ctx.close(label + ': flattened transposed action', L.rmatvec(v.reshape(-1)), o.ft(v).reshape(-1))
        left = getattr(o.op, 'left', None)
        if left is not None:
            ctx.close(label + ': action from the left', left(v), o.ft(v))


@REG.family('inverse/{0}', [('D',), ('H',), ('I',)])
def inverse(ctx, kind):
    s = (2, 2)
    a = build(ctx, kind, 'a', s, s)
    b = build(ctx, 'D', 'b', s, s)
    x = ctx.real('x', s, -2, 2)
    if kind != 'I':
        for o in (a, b):
            for v in rows(np.atleast_1d(o.op.diagonal).reshape(-1)):
                ctx.assume(v * v > 1 / 64)
    ctx.close('left inverse', a.op.I * (a.op * x), x)
    ctx.close('right inverse', a.op * (a.op.inverse() * x), x)
    ctx.close('product with the inverse', (a.op.I * a.op) * x, x)
    ctx.close('product with the inverse', (a.op * (b.op * a.op.I)) * x, b.f(x))


@REG.family('small/{0}', [(k,) for k in range(5)])
def small(ctx, p):
    """metric factors of any magnitude"""
    from pycomplex.stencil import operator as O
    s = (1, 2)
    q = ctx.real('q', (), 1, 2)
    e = 10. ** -(3 * p)
    d = q * e
    a, b = O.HodgeOperator(d, s), O.HodgeOperator(d, s)
    x = ctx.real('x', s, -2, 2)
    c = a * b
    ctx.close('product of scalings', (c * x) / e / e, x * q * q)
    ctx.close('undone', ((a.I * b.I) * (c * x)), x)


GRIDS = [(3,), (2,), (2, 3), (1, 2), (2, 1, 2), (1, 2, 1)]


@REG.family('exterior/{0}', [(g,) for g in GRIDS])
def exterior(ctx, shape):
    """derivatives and hodges of a grid, composed"""
    from pycomplex.stencil.complex import StencilComplex
    h = ctx.real('h', (), 1 / 4, 4)
    C = StencilComplex.from_shape(shape, scale=h)
    n = len(shape)
    d = [Leaf(p, p.right, p.left) for p in C.topology.primal]
    H = [Leaf(p, p.right, p.left) for p in C.hodge]
    for k in range(n):
        x = ctx.real('x%d' % k, C.n_elements[k], -2, 2)
        y = ctx.real('y%d' % k, C.n_elements[k + 1], -2, 2)
        agree(ctx, 'd', d[k], x, y)
        agree(ctx, '* d', mul(H[k + 1], d[k]), x, y)
        agree(ctx, "d' * d", mul(tr(d[k]), mul(H[k + 1], d[k])), x, x)
        agree(ctx, "(* d)' * d + *", add(mul(tr(mul(H[k + 1], d[k])), mul(H[k + 1], d[k])), H[k]), x, x)
        agree(ctx, "d d'", mul(d[k], tr(d[k])), y, y)
        if k + 1 < n:
            z = ctx.real('z%d' % k, C.n_elements[k + 2], -2, 2)
            agree(ctx, 'd d', mul(d[k + 1], d[k]), x, z)
            agree(ctx, '* d d', mul(mul(H[k + 2], d[k + 1]), d[k]), x, z)
            agree(ctx, 'd * d', mul(d[k + 1], mul(H[k + 1], d[k])), x, z)
            agree(ctx, "(* d)'(* d)' + (d d)'", add(mul(tr(d[k]), tr(mul(H[k + 2], d[k + 1]))), tr(mul(d[k + 1], d[k]))), z, x)


def varied(ctx, name, shape, symbolic):
    """diagonal that varies in space"""
    if symbolic:
        return build(ctx, 'D', name, shape, shape)
    from pycomplex.stencil import operator as O
    d = 1 + np.arange(int(np.prod(shape))).reshape(shape) ** 2 % 7 / 4
    return Leaf(O.DiagonalOperator(d, shape), lambda x: x * d, lambda x: x * d)


@REG.family('between/{0}', [(g,) for g in [(3,), (2, 2), (1, 3), (1, 2, 1), (2, 1, 2)]])
def between(ctx, shape):
    """fields that vary in space, in between derivatives"""
    from pycomplex.stencil.complex import StencilComplex
    C = StencilComplex.from_shape(shape)
    n = len(shape)
    d = [Leaf(p, p.right, p.left) for p in C.topology.primal]
    H = [Leaf(p, p.right, p.left) for p in C.hodge]
    for k in range(n):
        x = ctx.real('x%d' % k, C.n_elements[k], -2, 2)
        y = ctx.real('y%d' % k, C.n_elements[k + 1], -2, 2)
        D = [varied(ctx, 'f%d%d' % (k, i), C.n_elements[k + i], n < 3) for i in range(2)]
        agree(ctx, "d' f d", mul(tr(d[k]), mul(D[1], d[k])), x, x)
        agree(ctx, "d f d' d", mul(mul(d[k], D[0]), mul(tr(d[k]), d[k])), x, y)
        if k + 1 < n:
            z = ctx.real('z%d' % k, C.n_elements[k + 2], -2, 2)
            agree(ctx, 'd f d', mul(d[k + 1], mul(D[1], d[k])), x, z)
            agree(ctx, "d' f d'", mul(mul(tr(d[k]), D[1]), tr(d[k + 1])), z, x)
            agree(ctx, "d f * d + d d", add(mul(d[k + 1], mul(mul(D[1], H[k + 1]), d[k])), mul(d[k + 1], d[k])), x, z)
            agree(ctx, "d (d' + f) d", mul(d[k + 1], mul(add(mul(d[k], tr(d[k])), D[1]), d[k])), x, z)
