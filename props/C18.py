"""block arrays, block operators and the systems built from them"""
import itertools

import numpy as np

from vsym.prop import Registry
from props.lib import rows
from props.C17 import build, total, product

REG = Registry('C18', bounds='block arrays of 1-4 blocks of 1-8 entries of equal and of different shapes, block operators of up to 3 x 3 blocks of general, diagonal, identity and zero operators, '
               'canonical systems and all their subsystems on periodic grids in 1-3d with 2-4 cells per direction and symbolic coefficient fields; all entries symbolic in [-2, 2]',
               assumptions=['real arithmetic in place of floating point; results compared within 1e-6'])
ob = REG.ob

LISTS = [((2,),), ((1, 2), (3,)), ((2,), (2,)), ((1, 2), (1, 2), (2, 2)), ((2, 1), (2, 2), (1, 2)), ((1, 1), (2, 1), (1, 1), (3, 1)), ((1,), (1,))]


def arrays(ctx, name, shapes, lo=-2, hi=2):
    return [ctx.real('%s%d' % (name, i), s, lo, hi) for i, s in enumerate(shapes)]


def flat(bs):
    return [v for b in bs for v in rows(b.reshape(-1))]


def blocks(b):
    return [b[i] for i in range(len(b.block))]


@REG.family('array/{0}', [(s,) for s in LISTS])
def array(ctx, shapes):
    from pycomplex.stencil.block import BlockArray
    xs, ys = arrays(ctx, 'x', shapes), arrays(ctx, 'y', shapes)
    c = ctx.real('c', (), -2, 2)
    for x, y in zip(xs, ys):
        for v in rows(x.reshape(-1)) + rows(y.reshape(-1)):
            ctx.assume(v * v > 1 / 64)
    for X, Y in [(BlockArray(xs, ndim=1), BlockArray(ys, ndim=1)), (BlockArray(xs), BlockArray(ys))]:
        D = X.to_dense()
        ctx.close('flattened in order', D, np.array(flat(xs)))
        Z = Y.from_dense(D)
        ctx.check('blocks keep their shapes', [tuple(b.shape) for b in blocks(Z)] == [tuple(s) for s in shapes])
        for label, A, want in [('back from flat', Z, xs), ('sum', X + Y, [x + y for x, y in zip(xs, ys)]), ('difference', X - Y, [x - y for x, y in zip(xs, ys)]),
                               ('product', X * Y, [x * y for x, y in zip(xs, ys)]), ('scaled', X * c, [x * c for x in xs]), ('shifted', X + c, [x + c for x in xs]),
                               ('inverse', Y.invert(), [1 / y for y in ys]), ('absolute', X.abs(), [abs(x) for x in xs]), ('copy', X.copy(), xs), ('mapped', X.apply(lambda b: b * b + 1), [x * x + 1 for x in xs])]:
            ctx.check(label + ': blocks', [tuple(b.shape) for b in blocks(A)] == [tuple(s) for s in shapes])
            ctx.close(label, np.array(flat(blocks(A))), np.array(flat(want)))
        ctx.close('total', X.sum(), total(flat(xs)))
        ctx.check('shape', [list(s) for s in X.shape] == [[s[0] for s in shapes]])
    X = BlockArray(xs, ndim=1)
    W = X.copy()
    W[0] = ys[0]
    ctx.close('assigned', np.array(flat(blocks(W))), np.array(flat(ys[:1] + xs[1:])))
    ctx.close('the original is left alone', np.array(flat(blocks(X))), np.array(flat(xs)))
    o = np.zeros(shapes[0])
    W[0] = o
    ctx.close('zeros assigned', np.array(flat(blocks(W))), np.array(flat([o] + xs[1:])))


GRID = [('M',), ('MM',), ('MZ', 'DM'), ('DMM',), ('M', 'Z', 'M'), ('IM', 'ZD', 'MM'), ('DMZ', 'MSM', 'ZMI'), ('MM', 'MM')]
SPACES = [(1, 2), (2, 1, 2), (3,)]
EQUAL = [(1, 2), (1, 2), (1, 2)]


def operator(ctx, name, grid, L, R):
    """block operator and the functions behind its blocks"""
    from pycomplex.stencil.block import BlockOperator
    B = [[build(ctx, k if k in 'MZ' or l == r else 'M', '%s%d%d' % (name, i, j), l, r) for j, (k, r) in enumerate(zip(row, R))] for i, (row, l) in enumerate(zip(grid, L))]
    return BlockOperator([[b.op for b in row] for row in B], ndim=2), B


def act(B, xs):
    return [total(b.f(x) for b, x in zip(row, xs)) for row in B]


def act_t(B, ys):
    return [total(b.ft(y) for b, y in zip(col, ys)) for col in zip(*B)]


@REG.family('operator/{0}/{1}', [(g, S) for g in GRID for S in ('different', 'equal')])
def block_operator(ctx, grid, kind):
    from pycomplex.stencil.block import BlockArray, BlockOperator
    S = SPACES if kind == 'different' else EQUAL
    L, R = S[:len(grid)], S[:len(grid[0])]
    A, F = operator(ctx, 'a', grid, L, R)
    B, G = operator(ctx, 'b', grid, L, R)
    T = [''.join(c) for c in zip(*grid)]
    C, H = operator(ctx, 'c', T, R, L)
    xs, ys = arrays(ctx, 'x', R), arrays(ctx, 'y', L)
    X, Y = BlockArray(xs, ndim=1), BlockArray(ys, ndim=1)

    def close(label, got, want):
        ctx.check(label + ': blocks', [tuple(b.shape) for b in blocks(got)] == [tuple(w.shape) for w in want])
        ctx.close(label, np.array(flat(blocks(got))), np.array(flat(want)))

    ctx.check('shape', [[tuple(v) for v in s] for s in A.shape] == [list(L), list(R)])
    ctx.check('square', bool(A.is_square) == (list(L) == list(R)))
    ctx.check('rows and columns', A.rows == len(L) and A.cols == len(R))
    close('action', A * X, act(F, xs))
    close('transposed action', A.transpose() * Y, act_t(F, ys))
    close('sum', (A + B) * X, [p + q for p, q in zip(act(F, xs), act(G, xs))])
    close('product', (A * C) * Y, act(F, act(H, ys)))
    close('normal product', (A.transpose() * A) * X, act_t(F, act(F, xs)))
    close('simplified', (A.transpose() * B).simplify() * X, act_t(F, act(G, xs)))
    D = A.to_dense()
    ctx.close('dense matrix', np.dot(D, np.array(flat(xs))), np.array(flat(act(F, xs))))
    E = A.aslinearoperator()
    ctx.check('flat shape', tuple(E.shape) == (len(flat(ys)), len(flat(xs))))
    ctx.close('flat action', E.matvec(np.array(flat(xs))), np.array(flat(act(F, xs))))
    ctx.close('flat transposed action', E.rmatvec(np.array(flat(ys))), np.array(flat(act_t(F, ys))))
    close('zeros', BlockOperator.zeros(L, R) * X, [np.zeros(l) for l in L])
    close('identity', BlockOperator.identity(R) * X, xs)
    Z = A.copy()
    Z[0, 0] = 0
    close('block set to zero', Z * X, [f - (F[0][0].f(xs[0]) if i == 0 else 0) for i, f in enumerate(act(F, xs))])
    close('the original is left alone', A * X, act(F, xs))
    if L[0] == R[0]:
        Z[0, 0] = 1
        close('block set to identity', Z * X, [f - F[0][0].f(xs[0]) + xs[0] if i == 0 else f for i, f in enumerate(act(F, xs))])
    Z[0, 0] = B[0, 0]
    close('block replaced', Z * X, [f - F[0][0].f(xs[0]) + G[0][0].f(xs[0]) if i == 0 else f for i, f in enumerate(act(F, xs))])
    wrong = build(ctx, 'M', 'w', (4,), R[0]).op
    ctx.expect_raise('block of the wrong shape', Exception, lambda: Z.__setitem__((0, 0), wrong))


def canonical(ctx, shape, h=None):
    """system with symbolic hodges; oracle: the action of every block as a function of a form"""
    from pycomplex.stencil.complex import StencilComplex
    from pycomplex.stencil.linear_system import System
    if h is None:
        h = ctx.real('h', (), 1 / 2, 2)
    C = StencilComplex.from_shape(shape, scale=h)
    n = len(shape)
    d, H = C.topology.primal, C.hodge

    def entry(i, j):
        if i == j:
            return H[i]
        if i == j + 1:
            return lambda x: H[i](d[j](x))
        if j == i + 1:
            return lambda x: d[i].T(H[j](x))
        return lambda x: np.zeros(C.n_elements[i])
    return C, System.canonical(C), entry


def check_system(ctx, label, S, C, entry, L, R, action=True):
    from pycomplex.stencil.block import BlockArray
    n = C.n_elements
    ctx.check(label + ': forms', [int(v) for v in S.L] == list(L) and [int(v) for v in S.R] == list(R))
    xs, ys = [[ctx.real(k + str(i), n[i], -2, 2) for i in I] for k, I in (('x', R), ('y', L))]
    A = lambda xs: [total(entry(i, j)(x) for j, x in zip(R, xs)) for i in L]
    X, Y = BlockArray(xs, ndim=1), BlockArray(ys, ndim=1)

    def close(l, got, want):
        ctx.close(label + ': ' + l, np.array(flat(blocks(got))), np.array(flat(want)))
    close('action', S.A * X, A(xs))
    close('right hand side', S.B * Y, ys)
    if not action:
        return
    N = S.normal()
    ctx.check(label + ': forms of the normal equations', [int(v) for v in N.L] == [int(v) for v in N.R] == list(R))
    At = lambda ys: [total(entry(j, i)(y) for i, y in zip(L, ys)) for j in R]      # hodges and adjacent derivatives are each others transpose
    close('normal equations', N.A * X, At(A(xs)))
    close('normal right hand side', N.B * Y, At(ys))
    E = S.normal_ne()
    ctx.check(label + ': forms of the transposed normal equations', [int(v) for v in E.L] == [int(v) for v in E.R] == list(L))
    close('transposed normal equations', E.A * Y, A(At(ys)))
    close('transposed right hand side', E.B * Y, ys)
    return N


@REG.family('system/{0}', [((2,),), ((3,),), ((2, 3),), ((2, 1, 2),)])
def system(ctx, shape):
    C, S, entry = canonical(ctx, shape)
    I = list(range(len(shape) + 1))
    check_system(ctx, 'canonical', S, C, entry, I, I)
    B = S.A.block
    ctx.check('symbolically symmetric', repr(S.A) == repr(S.A.transpose()))


SUB = {'[:2, :2]': ((slice(2), slice(2)), (0, 1), (0, 1)), '[1:, 1:]': ((slice(1, None), slice(1, None)), None, None), '[[0, 2], 1:2]': (([0, 2], slice(1, 2)), (0, 2), (1,)),
       '[:3, :2]': ((slice(3), slice(2)), (0, 1, 2), (0, 1)), '[1:2, [0, 2]]': ((slice(1, 2), [0, 2]), (1,), (0, 2)), '[[0, 2], [1, 0]]': (([0, 2], [1, 0]), (0, 2), (1, 0)), '[[2, 1], [2, 1]]': (([2, 1], [2, 1]), (2, 1), (2, 1))}


@REG.family('subsystem/{0}{1}', [(s, k) for s in [(2, 2), (2, 1, 2)] for k in SUB])
def subsystem(ctx, shape, key):
    C, S, entry = canonical(ctx, shape, .5)
    item, L, R = SUB[key]
    I = list(range(len(shape) + 1))
    T = S[item]
    check_system(ctx, key, T, C, entry, I[item[0]] if L is None else L, I[item[1]] if R is None else R)
    T.A[0, 0] = 0
    check_system(ctx, 'parent', S, C, entry, I, I, action=False)


@REG.family('diagonal/{0}', [((2,),), ((4,),), ((2, 4),), ((2, 2, 2),)])
def diagonal(ctx, shape):
    """diagonals of normal equations with symbolic coefficient fields"""
    from pycomplex.stencil.operator import DiagonalOperator
    C, S, entry = canonical(ctx, shape)
    n = C.n_elements
    for k in range(len(shape)):
        f = ctx.real('f%d' % k, n[k + 1], -1, 1)
        S.A[k + 1, k] = DiagonalOperator(f, n[k + 1]) * S.A[k + 1, k]
        S.A[k, k + 1] = S.A[k, k + 1] * DiagonalOperator(f, n[k + 1])
    N = S.normal()
    D = N.A.diagonal()
    for k in range(len(shape) + 1):
        op = N.A[k, k]
        out = []
        for i in np.ndindex(*n[k]):
            e = np.zeros(n[k])
            e[i] = 1
            out.append(op(e)[i])
        ctx.close('diagonal of %d-forms' % k, D[k].reshape(-1), np.array(out))
