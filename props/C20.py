"""blocked sparse matrices and dense arrays, and the sparse helpers beneath them"""
import itertools

import numpy as np

from vsym.prop import Registry
from props.lib import rows
from props.C17 import total

REG = Registry('C20', bounds='block matrices of up to 3 x 3 blocks and block arrays of up to 3 (x 2) blocks, with blocks of 1-4 rows and columns of equal and of different sizes, '
               'every stored entry symbolic in [-2, 2], all sparsity patterns listed in the harness',
               assumptions=['real arithmetic in place of floating point; results compared within 1e-6'])

SIZES = [((2, 3), (1, 2)), ((2, 2), (2, 2)), ((1, 2, 3), (2, 1)), ((3,), (2,)), ((2, 2, 2), (3, 3)), ((1, 1), (1, 1, 1)), ((2, 1, 2), (2, 1, 2))]
SIZES_T = [((4, 3), (2, 4)), ((3, 3, 3), (3, 3, 3)), ((1,), (4,)), ((4, 1, 2, 3), (2, 2))]


def fill(ctx, name, m, n, k=0):
    """nested list of a block; the pattern leaves out the entries for which i + 2 j + k is a multiple of three"""
    x = rows(ctx.real(name, (m, n), -2, 2))
    return [[0 if k is not None and (i + 2 * j + k) % 3 == 0 else x[i][j] for j in range(n)] for i in range(m)]


def sparse(d, kind='csr'):
    from pycomplex.sparse import scipy
    sp = scipy.sparse
    m, n = len(d), len(d[0])
    r, c, v = [], [], []
    for i in range(m):
        for j in range(n):
            if not (isinstance(d[i][j], int) and d[i][j] == 0):
                r.append(i), c.append(j), v.append(d[i][j])
    return getattr(sp, kind + '_matrix')((np.array(v, dtype=float) if not v else np.array(v), (np.array(r, dtype=int), np.array(c, dtype=int))), shape=(m, n))


def grid(ctx, name, R, C, kinds=('csr', 'coo', 'csc')):
    D = [[fill(ctx, '%s%d%d' % (name, i, j), m, n, i + j) for j, n in enumerate(C)] for i, m in enumerate(R)]
    return D, [[sparse(d, kinds[(i + j) % len(kinds)]) for j, d in enumerate(r)] for i, r in enumerate(D)]


def whole(D):
    """nested list of blocks to a single nested list"""
    return [[v for b in r for v in b[i]] for r in D for i in range(len(r[0]))]


def mm(a, b):
    return [[total(x * y for x, y in zip(r, c)) for c in zip(*b)] for r in a]


def tr(a):
    return [list(r) for r in zip(*a)]


def arr(a):
    return np.array(a)


def cells(B):
    """list of the blocks, in order"""
    return [b for b in B.block.reshape(-1)]


def table(b):
    return rows(b.toarray() if hasattr(b, 'toarray') else b)


def same_blocks(ctx, label, got, shape, want):
    """want: flat list of nested lists"""
    ctx.check(label + ': arrangement', tuple(got.block.shape) == tuple(shape))
    for i, (g, w) in enumerate(zip(cells(got), want)):
        g = g.toarray() if hasattr(g, 'toarray') else g
        w = arr(w)
        ctx.check(label + ': shape of block %d' % i, tuple(g.shape) == tuple(w.shape))
        ctx.close(label + ': block %d' % i, g, w)


@REG.family('matrix/{0}x{1}', SIZES)
@REG.family('matrix/{0}x{1}', SIZES_T, tier='thorough')
def matrix(ctx, R, C):
    from pycomplex.block import SparseBlockMatrix, DenseBlockArray
    D, B = grid(ctx, 'a', R, C)
    E, F = grid(ctx, 'b', R, C)
    A, G = SparseBlockMatrix(B), SparseBlockMatrix(F)
    n = (len(R), len(C))
    flat = lambda X: [b for r in X for b in r]
    same_blocks(ctx, 'blocks', A, n, flat(D))
    ctx.check('rows and columns', (A.rows, A.cols) == n)
    ctx.check('shape', [list(s) for s in A.shape] == [list(R), list(C)])
    ctx.check('square', bool(A.square) == (tuple(R) == tuple(C)))
    ctx.close('merged', A.merge().toarray(), arr(whole(D)))
    same_blocks(ctx, 'transpose', A.transpose(), n[::-1], [tr(b) for c in zip(*D) for b in c])
    same_blocks(ctx, 'sum', A + G, n, [[[x + y for x, y in zip(r, s)] for r, s in zip(b, c)] for b, c in zip(flat(D), flat(E))])
    same_blocks(ctx, 'mapped', A.apply(lambda b: b * 2), n, [[[x * 2 for x in r] for r in b] for b in flat(D)])
    P = A.transpose() * G
    ctx.check('product: arrangement', tuple(P.block.shape) == (n[1], n[1]) and [list(s) for s in P.shape] == [list(C), list(C)])
    ctx.close('product', P.merge().toarray(), arr(mm(tr(whole(D)), whole(E))))
    Q = A.copy()
    Q.block[0, 0] = B[0][0] * 0
    same_blocks(ctx, 'copy is independent', A, n, flat(D))
    same_blocks(ctx, 'column slice', A[:, -1:], (n[0], 1), [r[-1] for r in D])
    same_blocks(ctx, 'row slice', A[[0], :], (1, n[1]), D[0])
    if n[0] == n[1] and tuple(R) == tuple(C):
        I = SparseBlockMatrix([[B[i][j] for j in range(n[1])] for i in range(n[0])])
        same_blocks(ctx, 'diagonal', I.diagonal(), (n[0],), [[D[i][i][k][k] for k in range(R[i])] for i in range(n[0])])


@REG.family('vector/{0}x{1}', SIZES)
@REG.family('vector/{0}x{1}', SIZES_T, tier='thorough')
def vector(ctx, R, C):
    from pycomplex.block import SparseBlockMatrix, DenseBlockArray
    D, B = grid(ctx, 'a', R, C)
    A = SparseBlockMatrix(B)
    W = whole(D)
    xs = [ctx.real('x%d' % j, (n,), -2, 2) for j, n in enumerate(C)]
    x = [v for b in xs for v in rows(b)]
    v = DenseBlockArray(xs)
    ctx.check('shape', [list(s) for s in v.shape] == [list(C)] and v.ndim == 1)
    ctx.close('merged', v.merge(), arr(x))
    same_blocks(ctx, 'split', v.split(arr(x)), (len(C),), [rows(b) for b in xs])
    y = A * v
    same_blocks(ctx, 'action', y, (len(R),), [[total(a * b for a, b in zip(W[sum(R[:i]) + k], x)) for k in range(R[i])] for i in range(len(R))])
    c = ctx.real('c', (), -2, 2)
    ys = [ctx.real('y%d' % j, (n,), -2, 2) for j, n in enumerate(C)]
    for b in xs:
        for e in rows(b):
            ctx.assume(e * e > 1 / 64)
    u = DenseBlockArray(ys)
    for label, got, f in [('sum', v + u, lambda p, q: p + q), ('product', v * u, lambda p, q: p * q), ('quotient', u / v, lambda p, q: q / p),
                          ('scaled', v * c, lambda p, q: p * c), ('shifted', v + c, lambda p, q: p + c), ('inverse', 1.0 / v, lambda p, q: 1 / p), ('mapped', v.apply(lambda b: b * b), lambda p, q: p * p)]:
        same_blocks(ctx, label, got, (len(C),), [[f(p, q) for p, q in zip(rows(a), rows(b))] for a, b in zip(xs, ys)])
    # blocks of several columns
    zs = [ctx.real('z%d' % j, (n, 2), -2, 2) for j, n in enumerate(C)]
    z = [r for b in zs for r in rows(b)]
    V = DenseBlockArray([[b] for b in zs])
    ctx.check('two-dimensional shape', [list(s) for s in V.shape] == [list(C), [2]])
    ctx.close('two-dimensional merged', V.merge(), arr(z))
    same_blocks(ctx, 'two-dimensional split', V.split(arr(z)), (len(C), 1), [rows(b) for b in zs])
    ctx.close('action on columns', (A * V).merge(), arr(mm(W, z)))
    ws = [ctx.real('w%d' % j, (n, 1), -2, 2) for j, n in enumerate(C)]
    w = [r for b in ws for r in rows(b)]
    U = DenseBlockArray([[a, b] for a, b in zip(zs, ws)])
    ctx.check('blocked columns: shape', [list(s) for s in U.shape] == [list(C), [2, 1]])
    both = [p + q for p, q in zip(z, w)]
    ctx.close('blocked columns: merged', U.merge(), arr(both))
    same_blocks(ctx, 'blocked columns: split', U.split(arr(both)), (len(C), 2), [rows(b) for p in zip(zs, ws) for b in p])
    ctx.close('blocked columns: transposed', U.transpose().merge(), arr(tr(both)))
    ctx.close('blocked columns: action', (A * U).merge(), arr(mm(W, both)))


@REG.family('norm/{0}x{1}', SIZES)
def norm(ctx, R, C):
    from pycomplex.block import SparseBlockMatrix
    D, B = grid(ctx, 'a', R, C, ('csr',))
    A = SparseBlockMatrix(B)
    W = whole(D)
    same_blocks(ctx, 'rows', A.norm_l1(axis=1), (len(R),), [[total(abs(v) for v in W[sum(R[:i]) + k]) for k in range(R[i])] for i in range(len(R))])
    W = tr(W)
    same_blocks(ctx, 'columns', A.norm_l1(axis=0), (len(C),), [[total(abs(v) for v in W[sum(C[:i]) + k]) for k in range(C[i])] for i in range(len(C))])


@REG.family('diagonal/{0}', [((2,),), ((2, 3),), ((2, 2),), ((1, 2, 3),), ((1, 1),)])
def diagonal(ctx, R):
    from pycomplex.block import SparseBlockMatrix, DenseBlockArray, BlockMatrix
    ds = [ctx.real('d%d' % j, (n,), -2, 2) for j, n in enumerate(R)]
    xs = [ctx.real('x%d' % j, (n,), -2, 2) for j, n in enumerate(R)]
    d = DenseBlockArray(ds)
    for label, M in [('as_diagonal', BlockMatrix.as_diagonal(d)), ('diags', SparseBlockMatrix.diags(d))]:
        f = [v for b in ds for v in rows(b)]
        ctx.check(label + ': shape', [list(s) for s in M.shape] == [list(R), list(R)] and bool(M.square))
        ctx.close(label, M.merge().toarray(), arr([[v if i == j else 0 for j in range(len(f))] for i, v in enumerate(f)]))
        same_blocks(ctx, label + ': action', M * DenseBlockArray(xs), (len(R),), [[p * q for p, q in zip(rows(a), rows(b))] for a, b in zip(ds, xs)])
        same_blocks(ctx, label + ': diagonal', M.diagonal(), (len(R),), [rows(b) for b in ds])


@REG.family('helpers/{0}', [((1, 2),), ((2, 2),), ((3, 2),), ((3, 4),)])
def helpers(ctx, shape):
    import pycomplex.sparse as s
    d = fill(ctx, 'a', *shape, k=None)
    for r in d:
        for v in r:
            ctx.assume(v * v > 1 / 64)
    A = sparse(d)
    ctx.close('normalised rows', s.normalize_l1(A, 1).toarray(), arr([[v / total(abs(w) for w in r) for v in r] for r in d]))
    ctx.close('normalised columns', s.normalize_l1(A, 0).toarray(), arr(tr([[v / total(abs(w) for w in r) for v in r] for r in tr(d)])))
    e = [[0 if (i + j) % 2 else v for j, v in enumerate(r)] for i, r in enumerate(d)]
    O = s.ones_like(sparse(e))
    ctx.close('ones', O.toarray(), arr([[0. if (i + j) % 2 else 1. for j in range(shape[1])] for i in range(shape[0])]))
    for z in (s.zeros_like(A), s.sparse_zeros(shape)):
        ctx.check('zeros', tuple(z.shape) == shape and z.nnz == 0)
    sp = s.scipy.sparse
    v = ctx.real('v', (shape[1],), 1 / 4, 2)
    for sg in (1, -1):
        I = s.inv_diag(sp.diags(v * sg))
        ctx.close('inverse of a diagonal matrix', I.toarray(), arr([[sg / w if i == j else 0 for j in range(shape[1])] for i, w in enumerate(rows(v))]))
