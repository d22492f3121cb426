"""Volumes, circumcenters, normals and angles of simplices in euclidian space"""
import itertools
import math
import numpy as np
from vsym.prop import Registry
from props.lib import *

REG = Registry('C09', bounds='edges in 1-3d, triangles in 2-3d, tetrahedra in 3d, edges to tetrahedra in 4d, single and in arrays of 2-3; all corner coordinates of edges and triangles symbolic reals in [-1, 1] '
               '(tetrahedra: 4 symbolic coordinates at a time, the others at fixed generic values), symbolic weights, integer corners; offset by up to 1000 and scaled by 1e-3 .. 1e3; simplices are non-degenerate',
               assumptions=['real arithmetic in place of floating point; results compared within 1e-6',
                            'numerical rank of a matrix equals its exact rank (nonzero singular values within a factor 1e4 of each other)',
                            'arccos is the inverse of the cosine on [0, pi]'])

BASE = {(1, 1): [[-.75], [.625]],
        (1, 2): [[-.75, .25], [.625, -.375]],
        (1, 3): [[-.75, .25, .5], [.625, -.375, .125]],
        (1, 4): [[-.75, .25, .5, -.5], [.625, -.375, .125, .375]],
        (2, 2): [[-.75, -.5], [.875, -.375], [.125, 1.]],
        (2, 3): [[-.75, -.5, .25], [.875, -.375, -.5], [.125, 1., .375]],
        (2, 4): [[-.75, -.5, .25, .625], [.875, -.375, -.5, .125], [.125, 1., .375, -.5]],
        (3, 3): [[-.75, -.5, .25], [.875, -.375, -.5], [.125, 1., .375], [.25, -.125, 1.]],
        (3, 4): [[-.75, -.5, .25, .125], [.875, -.375, -.5, .625], [.125, 1., .375, -.25], [.25, -.125, 1., -.875]],
        (4, 4): [[-.75, -.5, .25, .125], [.875, -.375, -.5, .625], [.125, 1., .375, -.25], [.25, -.125, 1., -.875], [-.375, .5, -.625, 1.]]}
SLICES = {(2, 3): [(0, 4, 5, 8), (1, 2, 3, 7), (0, 3, 6), (1, 5, 6, 8)],
          (1, 4): [(0, 1, 6, 7), (2, 3, 4, 5)],
          (2, 4): [(0, 5, 10), (3, 4, 8), (1, 7, 11)],
          (3, 3): [(0, 4, 8), (2, 3, 10), (5, 6, 7), (1, 9, 11), (0, 1, 2)],
          (3, 4): [(0, 5), (7, 10), (2, 13)],
          (4, 4): [(0, 6), (9, 15), (3, 18)]}
FULL = [(1, 1), (1, 2), (1, 3), (2, 2)]
CASES = [(m, n, None) for m, n in FULL] + [(m, n, s) for (m, n), ss in SLICES.items() for s in ss]


def corners(ctx, m, n, free=None, name='p'):
    """corner coordinates; free: which of them are symbolic (None: all)"""
    base = np.array(BASE[m, n])
    if free is None:
        return ctx.real(name, (m + 1, n), -1, 1)
    v = rows(ctx.real(name, (len(free),), -1, 1))
    flat = base.ravel().tolist()
    for i, f in enumerate(free):
        flat[f] = v[i]
    return arr(ctx, flat).reshape(m + 1, n)


def arr(ctx, l):
    if not ctx.symbolic:
        return np.array(l, dtype=float)
    from vsym.arr import wrap
    a = np.empty(len(l), object)
    a[:] = l
    a = wrap(a)
    a._dt = np.dtype(float)
    return a


def nested(ctx, l):
    """array from nested lists of scalars"""
    def shape(x):
        return (len(x),) + shape(x[0]) if isinstance(x, list) else ()

    def flat(x):
        return [z for y in x for z in flat(y)] if isinstance(x, list) else [x]
    return arr(ctx, flat(l)).reshape(shape(l))


def det(m):
    if not m:
        return 1
    if len(m) == 1:
        return m[0][0]
    return sum((-1) ** j * m[0][j] * det([r[:j] + r[j + 1:] for r in m[1:]]) for j in range(len(m)))


def edges_of(p):
    p = rows(p)
    return [[a - b for a, b in zip(q, p[0])] for q in p[1:]]


def dots(a, b):
    return sum(x * y for x, y in zip(a, b))


def gram(p):
    e = edges_of(p)
    return det([[dots(a, b) for b in e] for a in e])


def nondegenerate(ctx, p, eps=0.05):
    e = edges_of(p)
    if not e:
        return
    if len(e) == len(e[0]):
        d = det(e)
        ctx.assume(d * d >= eps * eps)
    else:
        ctx.assume(gram(p) >= eps * eps)
    # no edge much shorter than the others
    q = rows(p)
    for a, b in itertools.combinations(q, 2):
        ctx.assume(dots([x - y for x, y in zip(a, b)], [x - y for x, y in zip(a, b)]) >= .05)


def mods():
    from pycomplex.geometry import euclidian
    return euclidian


# -- volumes

@REG.family('signed/{0}', [1, 2, 3, 4])
def signed(ctx, n):
    E = mods()
    p = corners(ctx, n, n, None if n < 4 else tuple(range(8)))
    v = E.signed_volume(p)
    ctx.close('determinant over n!', v * math.factorial(n), det(edges_of(p)))
    t = ctx.real('t', (n,), -3, 3)
    ctx.close('translation', E.signed_volume(p + t), v)
    q = list(range(n + 1))
    for i in range(n):
        q[i], q[i + 1] = q[i + 1], q[i]
        ctx.close('antisymmetric', E.signed_volume(p[q]), v * perm_sign(q))
    batch = np.stack([p, p[q], p + t]) if n < 3 else np.stack([p, p[q]])
    w = E.signed_volume(batch)
    ctx.check('shape', w.shape == (len(batch),))
    ctx.close('array of simplices', w[0], v)
    ctx.close('array of simplices', w[1], v * perm_sign(q))


@REG.family('unsigned/{0}-{1}', [(0, 1), (0, 3), (1, 1), (1, 2), (1, 3), (1, 4), (2, 2), (2, 3), (2, 4), (3, 3), (3, 4), (4, 4)])
def unsigned(ctx, m, n):
    E = mods()
    if m == 0:
        p = ctx.real('p', (1, n))
        ctx.close('points have unit volume', E.unsigned_volume(p), 1)
        ctx.close('points have unit volume', E.unsigned_volume(np.stack([p, p, p])), np.ones(3))
        return
    free = None if (m, n) in FULL + [(2, 3), (1, 4), (3, 3)] else SLICES[m, n][0]
    p = corners(ctx, m, n, free)
    nondegenerate(ctx, p)
    v = E.unsigned_volume(p)
    ctx.close('square is the Gram determinant', v * v * math.factorial(m) ** 2, gram(p))
    ctx.leq('not negative', 0, v)
    if m == n and m < 4:
        s = E.signed_volume(p)
        ctx.close('magnitude of the signed volume', v * v, s * s)
    for q in [list(range(m, -1, -1)), [1, 0] + list(range(2, m + 1))]:
        ctx.close('independent of the order', E.unsigned_volume(np.stack([p, p[q]])) ** 2, arr(ctx, [v * v, v * v]))


@REG.ob('volume/refused')
def refused(ctx):
    E = mods()
    p = ctx.real('p', (4, 3))
    ctx.expect_raise('too many points', ValueError, lambda: E.unsigned_volume(p[:, :2]))
    ctx.expect_raise('too many points', ValueError, lambda: E.signed_volume(p[:, :2]))
    ctx.expect_raise('too few points', ValueError, lambda: E.signed_volume(p[:3]))
    ctx.expect_raise('too few points', ValueError, lambda: E.signed_volume(p[None, :2]))


# -- circumcenters

def equal_power(ctx, label, p, c, w=None):
    p, c = rows(p), rows(c)
    pw = [dots([a - b for a, b in zip(q, c)], [a - b for a, b in zip(q, c)]) - (0 if w is None else w[i]) for i, q in enumerate(p)]
    for x in pw[1:]:
        ctx.close(label + ': equal distances', x, pw[0])


def in_hull(ctx, label, p, c):
    """the point lies in the affine hull of the simplex"""
    e = edges_of(p)
    m, n = len(e), len(e[0])
    if m == n:
        return
    d = [a - b for a, b in zip(rows(c), rows(p)[0])]
    for cols in itertools.combinations(range(n), m + 1):
        ctx.close(label + ': in the plane of the simplex', det([[r[j] for j in cols] for r in e + [d]]), 0)


def combine(b, p):
    b, p = rows(b), rows(p)
    return [sum(x * q[j] for x, q in zip(b, p)) for j in range(len(p[0]))]


@REG.family('circumcenter/{0}-{1}/{2}', CASES)
def circum(ctx, m, n, free):
    E = mods()
    p = corners(ctx, m, n, free)
    nondegenerate(ctx, p)
    c = E.circumcenter(p)
    ctx.check('shape', c.shape == (n,))
    equal_power(ctx, 'circumcenter', p, c)
    in_hull(ctx, 'circumcenter', p, c)


@REG.family('barycentric/{0}-{1}/{2}', CASES)
def bary(ctx, m, n, free):
    E = mods()
    p = corners(ctx, m, n, free)
    nondegenerate(ctx, p)
    b = E.circumcenter_barycentric(p)
    ctx.close('coordinates sum to one', sum(rows(b)), 1)
    equal_power(ctx, 'barycentric circumcenter', p, combine(b, p))


@REG.family('weighted/{0}-{1}/{2}', [(m, n, s) for m, n, s in CASES if m < 3 or s in ((0, 4, 8), (5, 6, 7))])
def weighted(ctx, m, n, free):
    """the power center, by all routes"""
    E = mods()
    p = corners(ctx, m, n, free)
    nondegenerate(ctx, p)
    k = m + 1 if m < 3 else 2
    w = rows(ctx.real('w', (k,), -.5, .5))
    w = arr(ctx, w + [.3, -.2][:m + 1 - k])
    b = E.circumcenter_barycentric(p, w)
    ctx.close('coordinates sum to one', sum(rows(b)), 1)
    equal_power(ctx, 'weighted circumcenter', p, combine(b, p), rows(w))
    if m < 3:
        c = E.circumcenter_construction(p, w)
        equal_power(ctx, 'constructed circumcenter', p, c, rows(w))
        in_hull(ctx, 'constructed circumcenter', p, c)


@REG.family('weighted-matrix/{0}-{1}/{2}', [(m, n, s) for m, n, s in CASES if m < 3])
def weighted_matrix(ctx, m, n, free):
    E = mods()
    p = corners(ctx, m, n, free)
    nondegenerate(ctx, p)
    w = ctx.real('w', (m + 1,), -.5, .5)
    if ctx.symbolic:
        pass
    b = E.circumcenter_barycentric_weighted(p, w)
    ctx.close('coordinates sum to one', sum(rows(b)), 1)
    equal_power(ctx, 'weighted circumcenter', p, combine(b, p), rows(w))
    b = E.circumcenter_barycentric_weighted(p)
    equal_power(ctx, 'circumcenter', p, combine(b, p))


@REG.family('construction/{0}-{1}/{2}', [c for c in CASES if c[0] == 4], tier='thorough')
@REG.family('construction/{0}-{1}/{2}', [c for c in CASES if c[0] < 4])
def construction(ctx, m, n, free):
    E = mods()
    p = corners(ctx, m, n, free)
    nondegenerate(ctx, p)
    c = E.circumcenter_construction(p)
    ctx.check('shape', c.shape == (n,))
    equal_power(ctx, 'constructed circumcenter', p, c)
    in_hull(ctx, 'constructed circumcenter', p, c)


@REG.family('arrays/{0}-{1}x{2}', [(1, 1, 1), (1, 2, 2), (1, 2, 3), (2, 2, 2), (2, 2, 3), (2, 3, 3), (2, 3, 2), (1, 3, 2)])
def arrays(ctx, m, n, k):
    """arrays of simplices are treated one by one"""
    E = mods()
    base = np.array(BASE[m, n])
    v = rows(ctx.real('v', (k, 2), -.3, .3))
    P = []
    for i in range(k):
        q = (np.roll(base, i, axis=0) * (1 + .2 * i)).tolist()
        q[0][0] = q[0][0] + v[i][0]
        q[-1][-1] = q[-1][-1] + v[i][1]
        P.append(q)
    for q in P:
        nondegenerate(ctx, nested(ctx, q))
    P = nested(ctx, P)
    w = ctx.real('w', (k, m + 1), -.3, .3)
    c = E.circumcenter(P)
    d = E.circumcenter_construction(P)
    dw = E.circumcenter_construction(P, w)
    b = E.circumcenter_barycentric(P)
    bw = E.circumcenter_barycentric(P, w)
    bm = E.circumcenter_barycentric_weighted(P, w)
    ctx.check('shapes', c.shape == d.shape == dw.shape == (k, n) and b.shape == bw.shape == bm.shape == (k, m + 1))
    for i in range(k):
        equal_power(ctx, 'circumcenter of an array', P[i], c[i])
        equal_power(ctx, 'constructed circumcenter of an array', P[i], d[i])
        equal_power(ctx, 'constructed weighted circumcenter of an array', P[i], dw[i], rows(w[i]))
        equal_power(ctx, 'barycentric circumcenter of an array', P[i], combine(b[i], P[i]))
        equal_power(ctx, 'weighted circumcenter of an array', P[i], combine(bw[i], P[i]), rows(w[i]))
        equal_power(ctx, 'weighted circumcenter of an array', P[i], combine(bm[i], P[i]), rows(w[i]))
    # one more leading axis
    b2 = E.circumcenter_barycentric(P[None], w[None])
    ctx.check('shapes', b2.shape == (1, k, m + 1))
    ctx.close('more than one leading axis', b2[0], bw)


@REG.family('placement/{0}-{1}/{2}', [(1, 1, None), (1, 2, None), (2, 2, None), (2, 3, (0, 4, 8)), (3, 3, (0, 8))])
def placement(ctx, m, n, free):
    """barycentric coordinates do not depend on where a simplex is and how large it is"""
    E = mods()
    p = corners(ctx, m, n, free)
    nondegenerate(ctx, p)
    b = E.circumcenter_barycentric(p)
    for s, t in [(1, 1000.), (1e-3, 0.), (1e3, -1e3), (1e-2, 1.)]:
        q = p * s + np.array([t, -t, .5 * t][:n])
        ctx.close('scale %g offset %g' % (s, t), E.circumcenter_barycentric(q), b, tol=1e-4)
        if m < 3:
            w = np.array([.2, -.1, .1, 0][:m + 1])
            ctx.close('weighted, scale %g offset %g' % (s, t), E.circumcenter_barycentric(q, w * s * s), E.circumcenter_barycentric(p, w), tol=1e-4)


@REG.family('wellcentered/{0}', [((i,),) for i in (0, 5)], tier='thorough', timeout=600)
@REG.family('wellcentered/{0}', [((i,),) for i in range(1, 5)])
def wellcentered(ctx, free):
    E = mods()
    p = corners(ctx, 2, 2, free)
    nondegenerate(ctx, p)
    q = rows(p)
    l = [dots([a - b for a, b in zip(q[i - 1], q[i - 2])], [a - b for a, b in zip(q[i - 1], q[i - 2])]) for i in range(3)]
    acute = [l[i - 1] + l[i - 2] - l[i] for i in range(3)]
    for a in acute:
        ctx.assume(a * a >= 1e-4)
    got = bool(E.is_wellcentered(p))
    ok = all(bool(a > 0) for a in acute)
    ctx.check('well-centered triangles are the acute ones', got == ok)


# -- normals, gradients, angles

@REG.family('segment/{0}', [2, 3, 4])
def segment(ctx, n):
    E = mods()
    free = None if n < 4 else (0, 5, 10, 15)
    p = corners(ctx, n - 1, n, free) if n > 2 or free else corners(ctx, 1, 2)
    a = E.segment_normals(p)
    ctx.check('shape', a.shape == (n,))
    e = edges_of(p)
    for q in e:
        ctx.close('orthogonal to the segment', dots(rows(a), q), 0)
    ctx.close('length is (n-1)! times the volume of the segment', dots(rows(a), rows(a)), gram(p))
    # oriented: the normal followed by the edges is a positive frame
    x = ctx.real('x', (n,))
    ctx.close('oriented', dots(rows(a), rows(x)), det([rows(x)] + e))
    b = E.segment_normals(np.stack([p, p[::-1]]))
    ctx.close('array of segments', b[0], a)
    q = list(range(n))[::-1]
    ctx.close('array of segments', b[1], a * perm_sign(q))


@REG.family('segment-int/{0}', [2, 3])
def segment_int(ctx, n):
    """integer corners are not special: products are rounded, not truncated"""
    E = mods()
    p = ctx.int('p', (n, n), -6, 6)
    a = E.segment_normals(p)
    ctx.close('exact for integers', dots(rows(a), rows(a)), gram(p))
    if ctx.symbolic:
        ctx.check('rounding errors are not truncated to integers', np.dtype(a.dtype).kind == 'f')
    else:
        for q in [p, np.array([[0, -5, -2], [-2, 2, 4], [-2, 0, -3]])[:n, :n], np.array([[-1, 2, 1], [3, 3, 5], [-4, 1, 2]])[:n, :n]]:
            a = E.segment_normals(q)
            ctx.close('rounding errors are not truncated to integers', dots(rows(a), rows(a)), gram(q))


@REG.family('normals/{0}-{1}/{2}', [(1, 1, None), (1, 2, None), (2, 2, None), (2, 3, (0, 8)), (2, 3, (1, 5)), (2, 3, (3, 7)), (3, 3, (0,)), (3, 3, (5,)), (3, 3, (10,)), (1, 3, None)])
def normals(ctx, m, n, free):
    E = mods()
    p = corners(ctx, m, n, free)
    nondegenerate(ctx, p)
    N = E.simplex_normals(p)
    G = E.simplex_gradients(p)
    ctx.check('shape', N.shape == (m + 1, n) and G.shape == (m + 1, n))
    q, N, G = rows(p), rows(N), rows(G)
    for i in range(m + 1):
        face = [q[j] for j in range(m + 1) if j != i]
        ctx.close('unit normals', dots(N[i], N[i]), 1)
        for f in face[1:]:
            ctx.close('orthogonal to the opposing face', dots(N[i], [a - b for a, b in zip(f, face[0])]), 0)
            ctx.close('gradients orthogonal to the opposing face', dots(G[i], [a - b for a, b in zip(f, face[0])]), 0)
        h = dots(N[i], [a - b for a, b in zip(q[i], face[0])])
        ctx.leq('towards the corner', 0, h)
        gf = gram(nested(ctx, face)) if m > 1 else 1
        fm = math.factorial(m - 1) ** 2
        ctx.close('length of the gradient is the measure of the opposing face', dots(G[i], G[i]) * fm, gf)
        gh = dots(G[i], [a - b for a, b in zip(q[i], face[0])])
        ctx.leq('gradient towards the corner', 0, gh)
        ctx.close('volume is base times height', gh * gh * fm, gram(p))
    in_plane(ctx, 'normals', p, N)


def in_plane(ctx, label, p, vs):
    e = edges_of(p)
    m, n = len(e), len(e[0])
    if m == n:
        return
    for v in vs:
        for cols in itertools.combinations(range(n), m + 1):
            ctx.close(label + ' in the plane of the simplex', det([[r[j] for j in cols] for r in e + [v]]), 0)


@REG.family('angles/{0}/{1}', [(2, None), (3, (0, 4, 8)), (3, (1, 3, 5)), (3, (2, 6, 7))])
def angles(ctx, n, free):
    E = mods()
    p = corners(ctx, 2, n, free)
    nondegenerate(ctx, p)
    A = E.triangle_angles(p)
    ctx.check('shape', A.shape == (3,))
    B = E.triangle_angles(np.stack([p, p[[1, 2, 0]]]))
    q = rows(p)
    for i in range(3):
        u = [a - b for a, b in zip(q[i - 1], q[i])]
        v = [a - b for a, b in zip(q[i - 2], q[i])]
        for a, lbl in ((A[i], 'angle at its own corner'), (B[0, i], 'array of triangles'), (B[1, (i + 2) % 3], 'array of triangles')):
            c = np.cos(a) if not ctx.symbolic else cosine(a)
            ctx.close(lbl, c * root(dots(u, u)) * root(dots(v, v)), dots(u, v))


def root(x):
    return x.sqrt() if hasattr(x, 'sqrt') else math.sqrt(x)


def cosine(a):
    from vsym.core import uf
    return uf('cos', a)
