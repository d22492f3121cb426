"""Small dense linear algebra, permutations, index helpers and conjugate gradients"""
import itertools
import numpy as np
from vsym.prop import Registry
from props.lib import *
from props.C09 import arr, nested, dots, det
from props.C13 import indices as given

REG = Registry('C23', bounds='vectors and matrices of up to 4 x 4 (arrays of up to 2 x 2 of them) with every entry symbolic in [-1, 1]; permutations and subsets of up to 5 elements, symbolic labels, orders, orientations and selections of up to 5 elements; '
               'systems of 1-2 unknowns (3 with the constants projected out) with a right hand side symbolic in one direction, and symbolic coefficient and guess for one unknown',
               assumptions=['real arithmetic in place of floating point; results compared within 1e-6',
                            'inverted matrices have a determinant of at least 1/8; normalized vectors are zero or longer than 1/8',
                            'numerical rank of a matrix equals its exact rank', 'arccos is the inverse of the cosine on [0, pi]'])
ob = REG.ob


def ln():
    from pycomplex.math import linalg
    return linalg


def matmul(a, b):
    return [[dots(r, c) for c in zip(*b)] for r in a]


@ob('dot')
def _(ctx):
    a, b, c = ctx.real('a', (2, 1, 3)), ctx.real('b', (2, 3)), ctx.real('c', (3,))
    r = ln().dot(a, b)
    A, B = rows(a), rows(b)
    ctx.eq('all pairs', r, nested(ctx, [[dots(A[i][0], B[j]) for j in range(2)] for i in range(2)]))
    ctx.eq('one with many', ln().dot(c, b), arr(ctx, [dots(rows(c), x) for x in B]))


@REG.family('normalized/{0}/{1}', [(k, axis) for k in ('two', 'one', 'max') for axis in (-1, 0, 1)])
def normalized(ctx, k, axis):
    m = 1 if k == 'max' and axis else 3
    n = 1 if k == 'max' and axis == 0 else 2
    a = ctx.real('a', (m, n), -1, 1)
    v = [rows(a)[i] for i in range(m)] if axis else [list(c) for c in zip(*rows(a))]
    for x in v:
        ctx.assume(dots(x, x) >= 1 / 64)
    keep = a.copy()
    ctx.fork_signs()
    r, size = ln().normalized(a, axis=axis, ord={'two': 2, 'one': 1, 'max': np.inf}[k], return_norm=True)
    ctx.eq('input untouched', a, keep)
    ctx.check('shapes', tuple(r.shape) == (m, n) and tuple(size.shape) == ((m,) if axis else (n,)))
    w = [rows(r)[i] for i in range(m)] if axis else [list(c) for c in zip(*rows(r))]
    for x, y, s in zip(v, w, rows(size)):
        ctx.leq('norms are not negative', 0, s)
        if k == 'two':
            ctx.close('norm', s * s, dots(x, x))
        elif k == 'one':
            ctx.close('norm', s, sum(abs(q) for q in x))
        else:
            for q in x:
                ctx.leq('norm is the largest', abs(q), s)
            ctx.check('norm is one of them', any(same(abs(q), s) for q in x))
        ctx.close('vector is norm times unit vector', arr(ctx, [s * q for q in y]), arr(ctx, x))
    if k == 'two':
        ctx.close('default', ln().normalized(a, axis=axis), r)


@ob('normalized/zeros')
def _(ctx):
    a = ctx.real('a', (3, 2), -1, 1)
    z = [same(b, True) for b in rows(ctx.bool('zero', (3,)))]
    A = rows(a)
    for x, q in zip(A, z):
        if not q:
            ctx.assume(dots(x, x) >= 1 / 64)
    v = [[0. * y if q else y for y in x] for x, q in zip(A, z)]
    r, n = ln().normalized(nested(ctx, v), ignore_zeros=True, return_norm=True)
    for x, y, s, q in zip(v, rows(r), rows(n), z):
        if q:
            ctx.eq('zero stays zero', arr(ctx, y), arr(ctx, [0., 0.]))
            ctx.close('norm of zero', s, 0)
        else:
            ctx.close('norm', s * s, dots(x, x))
            ctx.close('direction', arr(ctx, [s * w for w in y]), arr(ctx, x))
    ctx.close('without norms', ln().normalized(nested(ctx, v), ignore_zeros=True), r)


@REG.family('inverse/{0}', [((),), ((2,),), ((1, 2),)])
def inverse(ctx, shape):
    n = int(np.prod(shape))
    base = np.array([[[1, .25, -.5], [.125, -1, .375], [-.25, .5, .875]], [[.5, 1, .25], [-.75, .5, 0], [.25, -.125, 1.]]])[:n].ravel().tolist()
    free = list(range(9)) if n == 1 else [0, 4, 5, 12, 14, 16]
    for i, x in zip(free, rows(ctx.real('a', (len(free),), -1, 1))):
        base[i] = x
    a = arr(ctx, base).reshape(shape + (3, 3))
    keep = a.copy()
    M = rows(a.reshape(n, 3, 3))
    D = [det(m) for m in M]
    for d in D:
        ctx.assume(d * d >= 1 / 64)
    I, T, J = ln().inverse(a), ln().inverse_transpose(a), ln().adjoint(a)
    ctx.eq('input untouched', a, keep)
    ctx.check('shapes', all(tuple(x.shape) == shape + (3, 3) for x in (I, T, J)))
    eye = np.eye(3).tolist()
    for m, d, i, t, j in zip(M, D, *[rows(x.reshape(n, 3, 3)) for x in (I, T, J)]):
        ctx.close('inverse', nested(ctx, matmul(m, i)), nested(ctx, eye))
        ctx.close('inverse from the left', nested(ctx, matmul(i, m)), nested(ctx, eye))
        ctx.close('transpose of the inverse', nested(ctx, t), nested(ctx, [list(c) for c in zip(*i)]))
        ctx.close('cofactors', nested(ctx, matmul(m, [list(c) for c in zip(*j)])), nested(ctx, [[d * x for x in r] for r in eye]))


@ob('adjoint/singular')
def _(ctx):
    """also defined for singular and integer matrices"""
    u, v = rows(ctx.real('u', (3,))), rows(ctx.real('v', (3,)))
    m = [u, v, [x - y for x, y in zip(u, v)]]
    j = rows(ln().adjoint(nested(ctx, m)))
    for i in range(3):
        for q in range(3):
            minor = det([[m[a][b] for b in range(3) if b != q] for a in range(3) if a != i])
            ctx.close('cofactor', j[i][q], (-1) ** (i + q) * minor)


@ob('null')
def _(ctx):
    u, v, (p, q) = rows(ctx.real('u', (3,))), rows(ctx.real('v', (3,))), rows(ctx.real('pq', (2,), -1, 1))
    n = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
    m = [u, v, [p * x + q * y for x, y in zip(u, v)]]
    w = ln().null(nested(ctx, [m, m]))
    ctx.check('shape', tuple(w.shape) == (2, 3))
    for x in rows(w):
        ctx.close('mapped to zero', arr(ctx, [dots(r, x) for r in m]), arr(ctx, [0., 0., 0.]))
    x, y = rows(ctx.real('x', (2,)))
    w = rows(ln().null(nested(ctx, [[1., x, 0.], [0., 1., y], [.5, .5 * x - .25, -.25 * y]])))
    ctx.leq('not zero', .125, dots(w, w))


@REG.family('pinv/{0}x{1}', [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3)])
def pinv(ctx, m, n):
    base = np.array([[1, .25, -.5], [.125, -1, .375], [-.25, .5, .875]])[:m, :n].ravel().tolist()
    free = range(m * n) if m * n < 5 else (0, 3, 4)
    for i, x in zip(free, rows(ctx.real('a', (len(free),), -1, 1))):
        base[i] = x
    a = arr(ctx, base).reshape(m, n)
    A = rows(a)
    G = matmul(A, [list(c) for c in zip(*A)]) if m <= n else matmul([list(c) for c in zip(*A)], A)
    ctx.assume(det(G) >= 1 / 16)
    P = rows(ln().pinv(nested(ctx, [A])))[0]
    ctx.check('shape', len(P) == n and len(P[0]) == m)
    AP, PA = matmul(A, P), matmul(P, A)
    ctx.close('a p a = a', nested(ctx, matmul(AP, A)), a)
    ctx.close('p a p = p', nested(ctx, matmul(PA, P)), nested(ctx, P))
    for q in (AP, PA):
        ctx.close('projections are symmetric', nested(ctx, q), nested(ctx, [list(c) for c in zip(*q)]))


@REG.family('pinv-batch/{0}', [(n,) for n in ('regular', 'singular', 'tall')])
def pinv_batch(ctx, kind):
    """each of a batch of matrices has its own scale"""
    A = {'regular': [[1., .25], [.125, -1.]], 'singular': [[1., .5], [2., 1.]], 'tall': [[1., .25], [.125, -1.], [.5, .5]]}[kind]
    k = [int(i) for i in rows(ctx.int('scale', (1,), -12, 12))] + [3]
    c = [10. ** i for i in k] + [1.]
    P = ln().pinv(given([[[x * s for x in r] for r in A] for s in c]))
    ctx.check('shape', tuple(P.shape) == (3, 2, len(A)))
    p = np.linalg.pinv(np.array(A))
    for s, q in zip(c, rows(P)):
        ctx.close('inverse scale', nested(ctx, [[x * s for x in r] for r in q]), arr(ctx, list(p.ravel())).reshape(p.shape))


def frame(ctx, n):
    """two orthonormal vectors, and the rest of an orthonormal basis, by three rotations"""
    B = np.eye(n).tolist()
    for k, (i, j) in enumerate([(0, 1), (1, 2), (0, 2)] if n > 2 else [(0, 1)]):
        t = rows(ctx.real('t%d' % k, (1,), -1, 1))[0]
        c, s = (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)
        B[i], B[j] = [c * x - s * y for x, y in zip(B[i], B[j])], [s * x + c * y for x, y in zip(B[i], B[j])]
    return B


@REG.family('rotation/{0}', [(2,), (3,), (4,)])
def rotation(ctx, n):
    B = frame(ctx, n)
    u, v = B[:2]
    R = rows(ln().rotation_from_plane(arr(ctx, u), arr(ctx, v)))
    for what, x, y in (('second to first', v, u), ('first to minus the second', u, [-x for x in v])):
        ctx.close(what, arr(ctx, [dots(r, x) for r in R]), arr(ctx, y))
    for w in B[2:]:
        ctx.close('the rest stays', arr(ctx, [dots(r, w) for r in R]), arr(ctx, w))


@REG.family('angle/{0}', [(2,), (3,), (4,)])
def angle(ctx, n):
    """angle of a rotation in any plane"""
    B = frame(ctx, n) if n < 4 else np.eye(4).tolist()
    t = rows(ctx.real('t', (1,), 0, 4))[0]
    c, s = (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)
    u, v = B[:2]
    R = [[(i == j) + (c - 1) * (u[i] * u[j] + v[i] * v[j]) + s * (v[i] * u[j] - u[i] * v[j]) for j in range(n)] for i in range(n)]
    a = ln().angle_from_rotation(nested(ctx, [R, np.eye(n).tolist()]))
    ctx.check('shape', tuple(a.shape) == (2,))
    x = rows(a)
    ctx.close('cosine', cos(ctx, x[0]), c)
    ctx.close('no rotation', cos(ctx, x[1]), 1)


def cos(ctx, x):
    if not ctx.symbolic:
        return float(np.cos(x))
    from vsym.core import uf
    return uf('cos', x)


# ------------------------------------------------------------------ permutations and subsets
@REG.family('permutations/{0}', [(1,), (2,), (3,), (4,)])
def permutations(ctx, n):
    from pycomplex.math.combinatorial import permutations
    m = rows(ctx.real('m', (n, n)))
    L = list(range(n))
    P = list(permutations(L))
    ctx.check('input untouched', L == list(range(n)))
    ctx.check('all of them, once', sorted(tuple(p) for _, p in P) == sorted(itertools.permutations(range(n))))
    ctx.check('parity is zero or one', all(s in (0, 1) for s, _ in P))

    def prod(l):
        r = 1
        for x in l:
            r = r * x
        return r
    ctx.eq('determinant is the alternating sum', sum((-1) ** s * prod(m[i][j] for i, j in enumerate(p)) for s, p in P), det(m))


@REG.family('combinations/{0}', [(1,), (2,), (3,), (4,), (5,)])
def combinations(ctx, n):
    from pycomplex.math.combinatorial import combinations
    x = rows(ctx.real('x', (n,)))
    e = [1] + [0] * n
    for y in x:
        e = [1] + [e[k] + y * e[k - 1] for k in range(1, n + 1)]
    for k in range(n + 1):
        C = list(combinations(list(x), k))
        tot = 0
        for s, c in C:
            r = 1
            for y in c:
                r = r * y
            tot = tot + r
        ctx.eq('elementary symmetric polynomial', tot, e[k])
        ctx.check('in order, each once', [c for _, c in combinations(list(range(n)), k)] == [list(c) for c in itertools.combinations(range(n), k)])
        if k == 1:
            ctx.check('signs of single elements alternate', [s for s, _ in C] == [i % 2 for i in range(n)])


# ------------------------------------------------------------------ index helpers
@REG.family('sort/{0}/{1}', [((1, 3), 1), ((2, 2), 1), ((2, 2), 0), ((3, 1), 0), ((1, 4), 1)])
def sort(ctx, shape, axis):
    from pycomplex.topology.util import sort_and_argsort
    a = ctx.int('a', shape, 0, 9)
    keep = a.copy()
    s, i = sort_and_argsort(a, axis=axis)
    ctx.eq('input untouched', a, keep)
    ctx.check('shapes', tuple(s.shape) == shape and tuple(i.shape) == shape)
    A, S, I = rows(a), rows(s), plain(i).tolist()
    if axis == 0:
        A, S, I = [[list(c) for c in zip(*x)] for x in (A, S, I)]
    for x, y, p in zip(A, S, I):
        ctx.check('indices are a permutation', sorted(p) == list(range(len(x))))
        ctx.check('sorted', all(same(u <= v, True) for u, v in zip(y, y[1:])))
        ctx.check('indices sort the input', all(same(x[q], u) for q, u in zip(p, y)))


@REG.family('relative/{0}', [(2,), (3,)])
@REG.family('relative/{0}', [(4,)], tier='thorough')
def relative(ctx, n):
    """the permutation that leads from one to the other"""
    from pycomplex.topology.util import relative_permutations
    p, q = [[int(x) for x in rows(ctx.perm(k, n))] for k in 'pq']
    r = relative_permutations(np.array([p, q, p]), np.array([q, p, p]))
    r = plain(r).tolist()
    for a, b, c in ((p, q, r[0]), (q, p, r[1]), (p, p, r[2])):
        ctx.check('relative permutation', all(c[y] == x for x, y in zip(a, b)))


@ob('parity')
def _(ctx):
    from pycomplex.topology.util import parity_to_orientation, orientation_to_parity
    b = ctx.bool('b', (4,))
    o = parity_to_orientation(b)
    ctx.check('plus one exactly where set', all(same(x == 1, True) if same(y, True) else same(x == -1, True) for x, y in zip(rows(o), rows(b))))
    i = ctx.int('o', (4,), -1, 1)
    p = orientation_to_parity(i)
    ctx.check('set exactly where negative', all(same(x, True) == same(y < 0, True) for x, y in zip(rows(p), rows(i))))


@REG.family('matrix/{0}', [((2, 2),), ((3, 2),), ((2, 1),), ((2, 2, 2),)])
def matrix(ctx, shape):
    from pycomplex.topology.util import topology_matrix
    k = int(np.prod(shape[1:]))
    o = ctx.int('o', shape, -1, 1)
    ctx.assume(all(same(x * x, 1) for x in rows(o.reshape(-1))))
    perm = [int(x) for x in rows(ctx.perm('p', 4))]
    e = [[perm[(i + j) % 4] for j in range(k)] for i in range(shape[0])]
    x = ctx.real('x', (shape[0],))
    M = topology_matrix(given(e).reshape(shape), o)
    y = rows(M * x)
    n = max(max(r) for r in e) + 1
    ctx.check('shape', tuple(M.shape) == (n, shape[0]) and len(y) == n)
    O, X = rows(o.reshape(shape[0], k)), rows(x)
    for v in range(n):
        ctx.close('signed sum over the elements', y[v], sum(O[i][j] * X[i] for i in range(shape[0]) for j in range(k) if e[i][j] == v))


@ob('split')
def _(ctx):
    from pycomplex.topology.util import topology_matrix, sparse_to_elements
    perm = [int(x) for x in rows(ctx.perm('p', 4))]
    e = [[perm[0], perm[1]], [perm[1], perm[2]], [perm[3], perm[0]]]
    M = topology_matrix(given(e), np.ones((3, 2)))
    r = plain(sparse_to_elements(M.T)).tolist()
    ctx.check('back to elements', [sorted(x) for x in r] == [sorted(x) for x in e])


@ob('selection')
def _(ctx):
    from pycomplex.topology.util import selection_matrix
    b = ctx.bool('b', (5,))
    x = ctx.real('x', (5,))
    keep = [i for i, y in enumerate(rows(b)) if same(y, True)]
    M = selection_matrix(b)
    ctx.check('shape', tuple(M.shape) == (len(keep), 5))
    ctx.eq('selected entries in order', M * x, arr(ctx, [rows(x)[i] for i in keep]))


@REG.family('lookup/{0}', [('points',), ('edges',), ('squares',)])
def lookup(ctx, kind):
    from pycomplex.topology.util import element_indices
    perm = [int(x) for x in rows(ctx.perm('p', 5 if kind != 'squares' else 4))]
    if kind == 'points':
        e, that, want = [0, 1, 2, 3], [[3, 0], [2, 2]], [[3, 0], [2, 2]]
    elif kind == 'edges':
        e, that, want = [[0, 1], [1, 2], [2, 3], [4, 0]], [[1, 0], [0, 4], [2, 3]], [0, 3, 2]
    else:
        e, that, want = [[[0, 1], [2, 3]], [[2, 3], [4, 5]]], [[[[3, 5], [2, 4]], [[3, 2], [1, 0]]]], [[1, 0]]
        perm = perm + [4, 5]

    def label(l):
        return [label(x) for x in l] if isinstance(l, list) else perm[l]
    r = element_indices(given(label(e)), given(label(that)))
    ctx.check('indices of the same elements', plain(r).tolist() == want)


@ob('transfer')
def _(ctx):
    from pycomplex.topology.util import transfer_matrix
    r, c = [int(x) for x in rows(ctx.perm('r', 4))][:3], [int(x) for x in rows(ctx.int('c', (3,), 0, 2))]
    x = ctx.real('x', (3,))
    M = transfer_matrix(given(r), given(c), (5, 3))
    ctx.check('shape', tuple(M.shape) == (5, 3))
    X = rows(x)
    ctx.eq('picks the given entries', M * x, arr(ctx, [sum((X[b] for a, b in zip(r, c) if a == i), 0 * X[0]) for i in range(5)]))


# ------------------------------------------------------------------ conjugate gradients
@REG.family('cg/{0}/guess:{1}', [(1, 0), (1, 1), (2, 0), (2, 1)])
def cg(ctx, n, guess):
    from pycomplex.solvers import solve_cg
    if n == 1:
        a = rows(ctx.real('a', (1,), .25, 2))
        A = [[a[0]]]
    else:
        A = [[1., .25], [.25, .5]]
    B = [rows(ctx.real('b', (1,), -1, 1))[0], .5][:n]
    b = arr(ctx, B)
    ctx.assume(dots(B, B) >= 1 / 16)
    x0 = (ctx.real('x0', (n,), .25, 1) if n == 1 else arr(ctx, [1., .5])) if guess else None
    if guess:
        X = rows(x0)
        r = [y - dots(row, X) for row, y in zip(A, B)]
        ctx.assume(dots(r, r) >= 1 / 16)
        keep = x0.copy()
    M = nested(ctx, A)
    from pycomplex.solvers import np as code
    x = solve_cg(lambda d: None, lambda d: code.dot(M, d), b.copy(), x0)
    ctx.check('shape', tuple(x.shape) == (n,))
    ctx.close('solution', arr(ctx, [dots(row, rows(x)) for row in A]), b, tol=2e-3)
    if guess:
        ctx.eq('guess is left alone', x0, keep)


@ob('cg/deflated')
def _(ctx):
    """constants projected out of a singular system"""
    from pycomplex.solvers import solve_cg
    from pycomplex.solvers import np as code
    p, q = 1., .5
    A = [[p, -p, 0.], [-p, p + q, -q], [0., -q, q]]
    c = [rows(ctx.real('b', (1,), -1, 1))[0], .5]
    B = [c[0], c[1], -c[0] - c[1]]
    ctx.assume(dots(B, B) >= 1 / 16)

    def deflate(d):
        d -= d.mean()
    M = nested(ctx, A)
    x = rows(solve_cg(deflate, lambda d: code.dot(M, d), arr(ctx, B)))
    ctx.close('solution', arr(ctx, [dots(row, x) for row in A]), arr(ctx, B), tol=2e-3)
    ctx.close('in the subspace', sum(x), 0)
