"""Smoothing and subdivision of positions, directly and in operator form"""
import itertools
import numpy as np
from vsym.prop import Registry
from props.lib import *
from props.shapes import *
from props.C04 import ints
from props.C09 import arr, nested

REG = Registry('C12', bounds='cubical complexes of 1-3 dimensions (curves, surfaces, solids, closed, open and non-manifold, up to 9 elements) and triangle meshes of 1-8 triangles, all vertex coordinates symbolic reals in [-2, 2]; '
               'creases: every subset of the vertices, edges or faces listed (each entry -1, 0 or 1), and combinations of two dimensions',
               assumptions=['real arithmetic in place of floating point; results compared within 1e-6',
                            'a vertex without any incident crease of any dimension keeps its place (only smooth() defines this; the operator is compared on complexes where each vertex has one)'])


def cubical(ctx, name, dim):
    from pycomplex.complex import cubical as M
    E = cubes(name)
    n = int(E.max()) + 1
    p = ctx.real('p', (n, dim), -2, 2)
    return p, M.ComplexCubical(vertices=p, cubes=E)


def corner_sets(T):
    return [[[int(v) for v in flat(e)] for e in ints(c)] for c in T.corners]


def mean(l):
    n = len(l)
    return [sum(x[i] for x in l) / n for i in range(len(l[0]))]


def smoothed(corners, P, crease=None, centers=None):
    """every vertex moves to the mean of the centers of the lowest-dimensional creases around it"""
    n = len(corners) - 1
    cr = {n: [1] * len(corners[n])}
    cr.update(crease or {})
    out = []
    for v in range(len(P)):
        new = P[v]
        for d in range(n + 1):
            if d not in cr:
                continue
            near = [i for i, e in enumerate(corners[d]) if v in e and cr[d][i]]
            if near:
                new = mean([centers[d][i] if centers else mean([P[j] for j in corners[d][i]]) for i in near])
                break
        out.append(new)
    return out


def crease(ctx, C, which):
    """{dimension: concrete list} from symbolic chains: every combination of -1, 0, 1 is a path of its own"""
    code, plain_ = {}, {}
    for d, free in which.items():
        n = int(C.topology.n_elements[d])
        free = list(range(n)) if free is Ellipsis else free
        s = ctx.int('c%d' % d, (len(free),), -1, 1)
        v = [0] * n
        for f, x in zip(free, rows(s)):
            v[f] = -1 if bool(x == -1) else (1 if bool(x == 1) else 0)
        code[d] = np.array(v)
        plain_[d] = v
    return code, plain_


CUB = [('edge', 1), ('path3', 2), ('cycle3', 2), ('square', 2), ('two_squares', 2), ('two_squares', 3), ('annulus3', 2), ('moebius3', 3), ('book3', 3), ('corner3', 3), ('cube_surface', 3), ('grid2x2', 3),
       ('cube', 3), ('two_cubes', 3)]


@REG.family('smooth/{0}-{1}', CUB)
def smooth(ctx, name, dim):
    p, C = cubical(ctx, name, dim)
    P = rows(p)
    K = corner_sets(C.topology)
    D = C.smooth()
    want = smoothed(K, P)
    ctx.check('same kind of complex', type(D) is type(C) and D.topology is C.topology)
    ctx.close('vertices move to the mean of the centers around them', D.vertices, nested(ctx, want))
    ctx.eq('original is left as it was', C.vertices, p)
    O = C.smooth_operator()
    n = len(P)
    ctx.check('one row and column per vertex', tuple(O.shape) == (n, n))
    ctx.close('the operator moves them likewise', O * p, nested(ctx, want))
    ctx.close('smoothing again', D.smooth().vertices, nested(ctx, smoothed(K, want)))
    t = ctx.real('t', (dim,), -2, 2)
    ctx.close('moves along with a translation', C.translate(t).smooth().vertices, nested(ctx, [[a + b for a, b in zip(r, rows(t))] for r in want]))


CREASES = [('path3', 2, {0: [0, 3]}), ('path3', 2, {0: Ellipsis}), ('cycle3', 2, {0: Ellipsis}), ('two_squares', 3, {1: [0, 2, 5]}), ('two_squares', 3, {0: [0, 1], 1: [0, 1]}),
           ('annulus3', 2, {1: [0, 1, 3, 5]}), ('book3', 3, {1: [0, 1, 2]}), ('cube_surface', 3, {0: [0, 7], 1: [0, 5]}), ('cube', 3, {1: [0, 3, 4]}), ('cube', 3, {2: [0, 1, 4]}), ('cube', 3, {0: [2], 1: [1], 2: [0, 3]}),
           ('two_squares', 2, {0: [], 1: []})]


@REG.family('creased/{0}-{1}/{2}', CREASES, timeout=120)
def creased(ctx, name, dim, which):
    p, C = cubical(ctx, name, dim)
    P = rows(p)
    K = corner_sets(C.topology)
    code, plain_ = crease(ctx, C, which)
    want = smoothed(K, P, plain_)
    ctx.close('each vertex goes by the lowest creases around it', C.smooth(creases=code).vertices, nested(ctx, want))
    ctx.close('the operator moves them likewise', C.smooth_operator(creases=code) * p, nested(ctx, want))
    for d, v in plain_.items():
        ctx.check('creases are left as given', [int(x) for x in code[d]] == v)


def fine_creases(fineK, coarseK, offsets, crease):
    """elements of the refined complex that lie inside a coarse crease element of their own dimension"""
    out = {}
    for d, c in crease.items():
        v = []
        for e in fineK[d]:
            # the corner with the highest offset is the center of the coarse element this one lies in
            top = max(e)
            dim = max(k for k in range(len(offsets)) if top >= offsets[k])
            v.append(c[top - offsets[d]] if dim == d else 0)
        out[d] = v
    return out


def refined(ctx, C, P, fine):
    """positions and offsets of the vertices of a subdivided complex: vertices, edge midpoints, face centers, ..."""
    K = corner_sets(C.topology)
    offsets = [sum(len(k) for k in K[:d]) for d in range(len(K))]
    pos = [mean([P[j] for j in e]) for k in K for e in k]
    return K, offsets, pos


SUB = [('path3', 2), ('cycle3', 2), ('square', 2), ('two_squares', 3), ('annulus3', 2), ('book3', 3), ('cube_surface', 3), ('cube', 3)]


@REG.family('subdivide/{0}-{1}', SUB, timeout=120)
def subdivide(ctx, name, dim):
    p, C = cubical(ctx, name, dim)
    P = rows(p)
    F = C.subdivide_cubical()
    K, off, pos = refined(ctx, C, P, F)
    ctx.close('a vertex on every element', F.vertices, nested(ctx, pos))
    O = C.subdivide_operator()
    ctx.check('operator shape', tuple(O.shape) == (len(pos), len(P)))
    ctx.close('as an operator', O * p, nested(ctx, pos))
    want = smoothed(corner_sets(F.topology), pos)
    G = C.subdivide_cubical(smooth=True)
    ctx.close('subdivided and smoothed', G.vertices, nested(ctx, want))
    ctx.check('refers to the coarse complex', F.parent is C and G.parent is C)
    O = C.subdivide_operator(smooth=True)
    ctx.check('smooth operator shape', tuple(O.shape) == (len(pos), len(P)))
    ctx.close('subdivided and smoothed as an operator', O * p, nested(ctx, want))
    ctx.eq('original is left as it was', C.vertices, p)


SUBCREASE = [('path3', 2, {0: [0, 3]}), ('cycle3', 2, {0: Ellipsis}), ('two_squares', 3, {1: [0, 2, 6]}), ('two_squares', 3, {0: [0, 3], 1: [1]}), ('annulus3', 2, {1: [0, 1, 4]}), ('cube_surface', 3, {0: [0], 1: [0, 5]}),
             ('cube', 3, {1: [0, 3]}), ('cube', 3, {2: [0, 4]}), ('book3', 3, {1: [0, 4]})]


@REG.family('subdivide-creased/{0}-{1}/{2}', SUBCREASE, timeout=120)
def subdivide_creased(ctx, name, dim, which):
    p, C = cubical(ctx, name, dim)
    P = rows(p)
    code, plain_ = crease(ctx, C, which)
    F = C.subdivide_cubical()
    K, off, pos = refined(ctx, C, P, F)
    KF = corner_sets(F.topology)
    want = smoothed(KF, pos, fine_creases(KF, K, off, plain_))
    ctx.close('creases carry over to the refined complex', C.subdivide_cubical(creases=code, smooth=True).vertices, nested(ctx, want))
    ctx.close('and in the operator', C.subdivide_operator(creases=code, smooth=True) * p, nested(ctx, want))
    ctx.close('no effect without smoothing', C.subdivide_operator(creases=code) * p, nested(ctx, pos))
    ctx.close('no effect on positions without smoothing', C.subdivide_cubical(creases=code).vertices, nested(ctx, pos))


# ------------------------------------------------------------------ loop subdivision of triangle meshes
TRI = ['triangle', 'two_triangles', 'strip3', 'bowtie', 'book3', 'tet_surface', 'annulus6', 'moebius5', 'octahedron']


def triangles(ctx, name, dim):
    from pycomplex.complex.simplicial.euclidian import ComplexTriangularEuclidian
    E = simplices(name)
    n = int(E.max()) + 1
    p = ctx.real('p', (n, dim), -2, 2)
    return p, ComplexTriangularEuclidian(vertices=p, triangles=E)


def with_centers(ctx, C, P):
    """centers of the elements as symbolic reals: vertices and edge midpoints, with any position for the triangles"""
    K = corner_sets(C.topology)
    c = ctx.real('center', (len(K[2]), len(P[0])), -2, 2)
    pos = [P, [mean([P[i] for i in e]) for e in K[1]], rows(c)]
    C.__dict__['primal_position'] = [nested(ctx, x) for x in pos]
    return K, pos


@REG.family('loop/{}', TRI, timeout=120)
def loop(ctx, name):
    p, C = triangles(ctx, name, 2)
    P = rows(p)
    K = corner_sets(C.topology)
    pos = P + [mean([P[i] for i in e]) for e in K[1]]
    F = C.subdivide_loop()
    ctx.check('same kind of complex', type(F) is type(C))
    ctx.close('a vertex on every edge', F.vertices, nested(ctx, pos))
    O = C.subdivide_loop_operator()
    ctx.check('operator shape', tuple(O.shape) == (len(pos), len(P)))
    ctx.close('as an operator', O * p, nested(ctx, pos))
    KF = corner_sets(F.topology)
    want = smoothed(KF, pos)
    O = C.subdivide_loop_operator(smooth=True)
    ctx.check('smooth operator shape', tuple(O.shape) == (len(pos), len(P)))
    ctx.close('subdivided and smoothed as an operator', O * p, nested(ctx, want))
    ctx.eq('original is left as it was', C.vertices, p)


LOOP = [('triangle', {}), ('two_triangles', {1: [0, 2, 3]}), ('strip3', {0: [0, 4], 1: [1]}), ('tet_surface', {1: [0, 1, 5]}), ('annulus6', {1: [0, 1, 2]}), ('book3', {1: [0, 3]}), ('octahedron', {0: [0, 5], 1: [3]})]


@REG.family('loop-creased/{0}/{1}', LOOP, timeout=120)
def loop_creased(ctx, name, which):
    p, C = triangles(ctx, name, 2)
    P = rows(p)
    code, plain_ = crease(ctx, C, which)
    K = with_centers(ctx, C, P)[0]
    off = [0, len(P), len(P) + len(K[1])]
    pos = P + [mean([P[i] for i in e]) for e in K[1]]
    KF = corner_sets(C.topology.subdivide_loop())
    cr = {}
    for d, c in plain_.items():
        if d == 0:
            cr[0] = c + [0] * len(K[1])
        else:
            # an edge that ends in a coarse vertex is half of the coarse edge on which its other end lies
            cr[1] = [c[max(e) - off[1]] if min(e) < off[1] else 0 for e in KF[1]]
    ctx.close('creases carry over in the operator', C.subdivide_loop_operator(creases=code, smooth=True) * p, nested(ctx, smoothed(KF, pos, cr)))


@REG.family('smooth-triangles/{}', TRI, timeout=120)
def smooth_triangles(ctx, name):
    p, C = triangles(ctx, name, 2)
    P = rows(p)
    K, pos = with_centers(ctx, C, P)
    ctx.close('vertices move to the mean of the centers around them', C.smooth().vertices, nested(ctx, smoothed(K, P, None, pos)))
    code, plain_ = crease(ctx, C, {0: [0], 1: [0, 1]})
    ctx.close('or of the creases around them', C.smooth(creases=code).vertices, nested(ctx, smoothed(K, P, plain_, pos)))
    ctx.close('the operator has them at the mean of their corners', C.smooth_operator(creases=code) * p, nested(ctx, smoothed(K, P, plain_)))


AT = [[0, 0], [1., .125], [.375, 1.], [1.25, 1.125], [.625, 2.]]


def loop_smooth(ctx, name, which, free):
    from pycomplex.complex.simplicial.euclidian import ComplexTriangularEuclidian
    E = simplices(name)
    n = int(E.max()) + 1
    P = [list(map(float, r)) for r in AT[:n]]
    x = ctx.real('x', (len(free),), -.25, .25)
    for (i, j), d in zip(free, rows(x)):
        P[i][j] = P[i][j] + d
    p = nested(ctx, P)
    C = ComplexTriangularEuclidian(vertices=p, triangles=E)
    code, plain_ = crease(ctx, C, which)
    K = corner_sets(C.topology)
    off = [0, len(P), len(P) + len(K[1])]
    pos = P + [mean([P[i] for i in e]) for e in K[1]]
    F = C.subdivide_loop()
    KF = corner_sets(F.topology)
    cr = {}
    for d, c in plain_.items():
        if d == 0:
            cr[0] = c + [0] * len(K[1])
        elif d == 1:
            cr[1] = [c[max(e) - off[1]] if min(e) < off[1] else 0 for e in KF[1]]
    # circumcenters from the equations that define them
    centers = [pos, [mean([pos[i] for i in e]) for e in KF[1]], []]
    for i, j, k in KF[2]:
        a, b, c = pos[i], pos[j], pos[k]
        u, v = [b[0] - a[0], b[1] - a[1]], [c[0] - a[0], c[1] - a[1]]
        d = 2 * (u[0] * v[1] - u[1] * v[0])
        uu, vv = u[0] * u[0] + u[1] * u[1], v[0] * v[0] + v[1] * v[1]
        centers[2].append([a[0] + (v[1] * uu - u[1] * vv) / d, a[1] + (u[0] * vv - v[0] * uu) / d])
    want = smoothed(KF, pos, cr, centers)
    G = C.subdivide_loop(smooth=True, creases=code)
    ctx.check('same kind of complex', type(G) is type(C))
    ctx.close('vertices on vertices and edges, moved to the mean of the (creases) centers around them', G.vertices, nested(ctx, want))
    ctx.close('no effect of creases without smoothing', C.subdivide_loop(creases=code).vertices, nested(ctx, pos))


@REG.family('loop-smooth/{0}/{1}/{2}', [('triangle', {}, [(0, 0)]), ('triangle', {1: [0, 1]}, [(2, 1)]), ('two_triangles', {0: [1], 1: [0, 4]}, [(1, 0)])], timeout=300)
def loop_smooth_quick(ctx, name, which, free):
    loop_smooth(ctx, name, which, free)


@REG.family('loop-smooth/{0}/{1}/{2}', [('two_triangles', {1: [0, 1, 2, 3, 4]}, [(1, 0)]), ('strip3', {1: [0, 3, 5]}, [(2, 1)]), ('triangle', {0: [0, 1, 2]}, [(0, 0), (1, 1)])], tier='thorough', timeout=1200)
def loop_smooth_thorough(ctx, name, which, free):
    loop_smooth(ctx, name, which, free)


@REG.family('creased/{0}-{1}/{2}', [('two_squares', 2, {1: Ellipsis}), ('cube', 3, {2: Ellipsis}), ('cube', 3, {1: [0, 1, 2, 3, 4, 5]}), ('cycle_and_loose', 2, {0: Ellipsis}), ('two_cubes', 3, {1: [0, 7, 12], 2: [1, 5]}),
                                    ('torus3x3', 3, {0: [0, 4], 1: [0, 5, 9]}), ('grid3x2', 3, {1: [0, 3, 6, 9]})], tier='thorough', timeout=1200)
def creased_thorough(ctx, name, dim, which):
    creased(ctx, name, dim, which)


@REG.family('subdivide-creased/{0}-{1}/{2}', [('square', 2, {0: [0, 1], 1: Ellipsis}), ('cube', 3, {2: Ellipsis}), ('two_cubes', 3, {1: [0, 3], 2: [1, 4]}), ('corner3', 3, {0: [0], 1: [0, 1, 2]}), ('moebius3', 3, {1: [0, 2, 4, 6]})],
            tier='thorough', timeout=1200)
def subdivide_creased_thorough(ctx, name, dim, which):
    subdivide_creased(ctx, name, dim, which)
