"""Complexes on spheres"""
import itertools
import math
import numpy as np
from vsym.prop import Registry
from props.lib import *
from props.shapes import *
from props.C04 import ints
from props.C09 import arr, nested, dots
from props.C10 import flat as iflat
from props.C13 import indices, combine, check_domain, chains, averages, cfloat, centers, remember, basis

REG = Registry('C22', bounds='meshes of 4-20 simplices of different sizes on the circle, sphere and 3-sphere, closed and with boundary; every direction in the mesh (as any positive combination of the corners of any simplex), every initial guess, '
               'all values of sampled forms, every radius in [1/4, 4]; centers and intersections for edges and triangles with 2-4 symbolic coordinates',
               assumptions=['real arithmetic in place of floating point; results compared within 1e-5',
                            'the nearest neighbour search of scipy returns a nearest neighbour (any one, on ties)',
                            'simplices are faces of a convex polyhedron; meshes with a boundary cover a convex part of the sphere'])


def unit(l):
    n = math.sqrt(sum(x * x for x in l))
    return [x / n for x in l]


def ring(n, lift, z):
    return [[math.cos(2 * math.pi * i / n + lift), math.sin(2 * math.pi * i / n + lift), z] for i in range(n)]


POLE = [.0625, -.125, 1.]
MESH = {
    'circle4': ([[0, 1], [1, 2], [2, 3], [3, 0]], [[1, .125], [.25, 1.], [-1, .375], [-.125, -1]]),
    'circle5': ([[0, 1], [1, 2], [2, 3], [3, 4], [4, 0]], [[1, 0], [.5, 1.], [-.5, 1], [-1, -.5], [.75, -1]]),
    'arc': ([[0, 1], [1, 2], [2, 3]], [[1, 0], [.875, .5], [0, 1.], [-.375, 1]]),
    'tetrahedron': ([[0, 1, 2], [0, 2, 3], [0, 3, 1], [1, 3, 2]], [POLE, [1., .125, -.375], [-.5, .75, -.5], [-.375, -1., -.25]]),
    'octahedron': ([[0, 1, 2], [0, 2, 3], [0, 3, 4], [0, 4, 1], [5, 2, 1], [5, 3, 2], [5, 4, 3], [5, 1, 4]], [POLE] + [[1., .25, .125], [-.125, 1., -.125], [-1., .125, .25], [0., -1., .125]] + [[.125, 0, -1.]]),
    'regular': ([[0, 1, 2], [0, 2, 3], [0, 3, 4], [0, 4, 1], [5, 2, 1], [5, 3, 2], [5, 4, 3], [5, 1, 4]], [[0, 0, 1.], [1., 0, 0], [0, 1., 0], [-1., 0, 0], [0, -1., 0], [0, 0, -1.]]),
    'cap': ([[0, i + 1, (i + 1) % 5 + 1] for i in range(5)], [POLE] + ring(5, .25, .75)),
    'pair': ([[0, 1, 2], [1, 3, 2]], [[1., 0, 0], [.5, .875, 0], [.5, .25, .875], [.125, 1., .75]]),
    'bipyramid': ([[0, 2, 3], [0, 3, 4], [0, 4, 2], [1, 3, 2], [1, 4, 3], [1, 2, 4]], [POLE, [-.125, .0625, -1.]] + ring(3, .5, .0625)),
    'cell5': ([list(c) for c in itertools.combinations(range(5), 4)], [[1., 0, 0, .125], [-.25, 1., 0, 0], [-.25, -.375, 1., .125], [-.25, -.375, -.375, 1.], [-.375, -.25, -.5, -.875]]),
    'wedge': ([[0, 1, 2, 3], [1, 2, 3, 4]], [[1., 0, 0, .25], [.25, 1., 0, 0], [.25, 0, 1., 0], [0, .25, .125, 1.], [-.5, .75, .875, .75]]),
}


def build(ctx, name, kind=None, **kw):
    from pycomplex.complex.simplicial import spherical as M
    E, V = MESH[name]
    P = [unit(v) for v in V]
    cls = getattr(M, kind or ('ComplexSpherical2' if len(E[0]) == 3 else 'ComplexSpherical'))
    if cls is M.ComplexSpherical2:
        from pycomplex.topology.simplicial import TopologyTriangular
        C = cls(vertices=indices(P), topology=TopologyTriangular.from_simplices(np.array(E)).fix_orientation(), **kw)
    else:
        C = cls(vertices=indices(P), simplices=np.array(E), **kw)
    return E, P, C


def direction(ctx, P, E, name='l'):
    """any direction in the mesh, at any distance"""
    k = len(E[0])
    i = int(rows(ctx.int(name + 'k', (1,), 0, len(E) - 1))[0])
    l = rows(ctx.real(name, (k,), 0, 1))
    ctx.assume(sum(l) >= .5)
    ctx.assume(sum(l) <= 1)
    return i, l, combine([P[v] for v in E[i]], l)


def some(E, only):
    return E if only is None else [E[only]]


def cone(ctx, label, corners, b, x):
    """x is a positive combination of the corners, in the given proportions"""
    ctx.close(label + ': coordinates add up to one', sum(b), 1)
    # x = s * combination, with s the sum of the unnormalized coordinates
    A = np.linalg.inv(np.array(corners)).tolist()
    s = sum(sum(x[d] * A[d][v] for d in range(len(x))) for v in range(len(x)))
    ctx.leq(label + ': same direction', .03125, s)
    sb = [s * c for c in b]
    for c in sb:
        ctx.leq(label + ': nonnegative', 0, c, tol=1e-5)
    ctx.close(label + ': proportions', arr(ctx, combine(corners, sb)), arr(ctx, x), tol=1e-5)


@REG.family('pick/{0}/{1}', [(n, None) for n in ('circle4', 'circle5', 'arc', 'tetrahedron', 'regular', 'pair', 'wedge')] + [('octahedron', 0), ('octahedron', 5), ('cap', 1), ('bipyramid', 1)], timeout=120)
@REG.family('pick/{0}/{1}', [('octahedron', None), ('cap', None), ('bipyramid', None)] + [('cell5', i) for i in range(5)], tier='thorough', timeout=900)
def pick(ctx, name, only):
    E, P, C = build(ctx, name)
    T = ints(C.topology.elements[-1])
    i, l, x = direction(ctx, P, some(E, only))
    idx, b = C.pick_primal(nested(ctx, [x]))
    ctx.check('one simplex per point', tuple(np.shape(idx)) == (1,) and tuple(b.shape) == (1, len(E[0])))
    cone(ctx, 'point is in the simplex', [P[v] for v in T[int(rows(idx)[0])]], rows(b)[0], x)


@REG.family('pick-kind/{0}/{1}', [('circle4', None), ('cap', 3), ('octahedron', 2)])
@REG.family('pick-kind/{0}/{1}', [('cap', None), ('octahedron', None)], tier='thorough', timeout=900)
def pick_kind(ctx, name, only):
    """also by the general class; and by brute force"""
    E, P, C = build(ctx, name, 'ComplexSpherical')
    T = ints(C.topology.elements[-1])
    ctx.check('oriented', C.topology.is_oriented)
    i, l, x = direction(ctx, P, some(E, only))
    idx, b = C.pick_primal(nested(ctx, [x]))
    cone(ctx, 'point is in the simplex', [P[v] for v in T[int(rows(idx)[0])]], rows(b)[0], x)


@REG.family('guess/{0}/{1}', [('circle5', None), ('pair', None), ('tetrahedron', 1)])
@REG.family('guess/{0}/{1}', [('tetrahedron', None)], tier='thorough', timeout=900)
def guess(ctx, name, only):
    E, P, C = build(ctx, name)
    T = ints(C.topology.elements[-1])
    i, l, x = direction(ctx, P, some(E, only))
    g = int(rows(ctx.int('guess', (1,), 0, len(E) - 1))[0])
    given = indices([g])
    idx, b = C.pick_primal(nested(ctx, [x]), simplex_idx=given)
    ctx.check('guess is left as given', int(rows(given)[0]) == g)
    cone(ctx, 'point is in the simplex', [P[v] for v in T[int(rows(idx)[0])]], rows(b)[0], x)


@REG.family('dual/{0}/{1}', [('circle5', None), ('octahedron', 0), ('bipyramid', 0)])
@REG.family('dual/{0}/{1}', [('octahedron', None), ('bipyramid', None), ('wedge', None)] + [('cell5', i) for i in range(5)], tier='thorough', timeout=900)
def dual(ctx, name, only):
    E, P, C = build(ctx, name)
    i, l, x = direction(ctx, P, some(E, only))
    near = C.pick_dual(nested(ctx, [x]))
    ctx.check('one vertex per point', tuple(np.shape(near)) == (1,))
    v = int(rows(near)[0])
    for p in P:
        ctx.leq('no vertex is nearer', dots(p, x), dots(P[v], x), tol=1e-6)


# ------------------------------------------------------------------ fundamental domains
@REG.family('fundamental/{0}/{1}', [('circle4', None), ('arc', None)], timeout=120)
@REG.family('fundamental/{0}/{1}', [(n, i) for n in ('octahedron', 'regular') for i in range(8)] + [('cap', i) for i in range(5)], tier='thorough', timeout=900)
def fundamental(ctx, name, only):
    E, P, C = build(ctx, name)
    k = len(E[0])
    assert C.is_well_centered
    i, l, x = direction(ctx, P, some(E, only))
    check_fundamental(ctx, C, x)


@REG.family('fundamental-domain/{0}/{1}', [('octahedron', 3), ('cap', 0)], timeout=120)
def fundamental_domain(ctx, name, only):
    """points away from the boundary between simplices"""
    E, P, C = build(ctx, name)
    chain, l, x = domain_point(ctx, C, only)
    check_fundamental(ctx, C, x, chain)


def domain_point(ctx, C, only):
    T = C.topology
    K = [[sorted(r) for r in ints(c)] for c in T.corners]
    Es = ints(T.elements[-1])
    PP = [[[cfloat(y) if ctx.symbolic else float(y) for y in p] for p in l] for l in centers(C)]
    all_chains = [c for i in range(len(Es)) if only is None or i == only for c in chains(K, Es, i)]
    j = int(rows(ctx.int('domain', (1,), 0, len(all_chains) - 1))[0])
    chain = all_chains[j]
    l = rows(ctx.real('l', (len(K) - 1,), .0625, .5))
    ctx.assume(sum(l) <= .9375)
    l = l + [1 - sum(l)]
    return chain, l, combine([PP[q][c] for q, c in enumerate(chain)], l)


def check_fundamental(ctx, C, x, chain=None):
    k = C.topology.n_dim + 1
    idx, b, dom = C.pick_fundamental(nested(ctx, [x]))
    ctx.check('shapes', tuple(np.shape(idx)) == (1,) and tuple(b.shape) == (1, k) and tuple(np.shape(dom)) == (1, k))
    K = [[sorted(r) for r in ints(c)] for c in C.topology.corners]
    PP = centers(C)
    idx, b, d = int(rows(idx)[0]), rows(b)[0], [int(j) for j in np.asarray(plain(dom)).tolist()[0]]
    if idx % 2:
        b = b[:-2] + [b[-1], b[-2]]
    ctx.check('a vertex of an edge of ... of a simplex', all(set(K[j][d[j]]) < set(K[j + 1][d[j + 1]]) for j in range(k - 1)))
    if chain is not None:
        ctx.check('the domain of the point', d == list(chain))
    cone(ctx, 'point is in the domain', [[cfloat(y) if ctx.symbolic else float(y) for y in PP[j][d[j]]] for j in range(k)], b, x)


# ------------------------------------------------------------------ sampling
@REG.family('sample-primal/{0}/{1}', [('circle5', None), ('octahedron', 0), ('pair', None)], timeout=120)
@REG.family('sample-primal/{0}/{1}', [('octahedron', None), ('bipyramid', None), ('wedge', None)], tier='thorough', timeout=900)
def sample_primal(ctx, name, only):
    E, P, C = build(ctx, name)
    i, l, x = direction(ctx, P, some(E, only))
    n = len(P)
    remember(C, 'pick_primal')
    s = rows(basis(ctx, C.sample_primal_0, n, nested(ctx, [x])))[0]
    t = sum(l)
    for v in range(n):
        e = some(E, only)[i]
        ctx.close('values in proportion to the coordinates in the simplex', s[v] * t, l[e.index(v)] if v in e else 0, tol=1e-4)


@REG.family('sample-dual/{0}/{1}', [('circle4', None), ('arc', None), ('octahedron', 1), ('cap', 2)], timeout=120)
@REG.family('sample-dual/{0}/{1}', [('octahedron', None), ('cap', None)], tier='thorough', timeout=900)
def sample_dual(ctx, name, only):
    E, P, C = build(ctx, name)
    k = len(E[0])
    T = C.topology
    K = [[sorted(r) for r in ints(c)] for c in T.corners]
    Es = ints(T.elements[-1])
    PP = [[[cfloat(y) if ctx.symbolic else float(y) for y in p] for p in l] for l in centers(C)]
    B = iflat(T.boundary.parent_idx[-1]) if T.boundary is not None else []
    A = averages(Es, K, PP, B, False)
    n0 = len(E) + len(B)
    chain, l, x = domain_point(ctx, C, only)
    remember(C, 'pick_fundamental')
    s = basis(ctx, C.sample_dual_0, n0, nested(ctx, [x]), weighted=False)
    ctx.close('linear interpolation between averages over the elements of the domain', s, nested(ctx, [[sum(c * A[q][e].get(a, 0) for q, (c, e) in enumerate(zip(l, chain))) for a in range(n0)]]), tol=1e-4)


# ------------------------------------------------------------------ metric
def arc(a, b):
    c = math.sqrt(sum((x - y) ** 2 for x, y in zip(a, b)))
    return 2 * math.asin(c / 2)


def area(a, b, c):
    # by the triple product
    a, b, c = [np.array(x) for x in (a, b, c)]
    return 2 * math.atan2(abs(np.linalg.det([a, b, c])), 1 + a.dot(b) + b.dot(c) + c.dot(a))


@REG.family('metric/{0}', [(n,) for n in ('circle4', 'circle5', 'arc', 'octahedron', 'regular', 'cap')])
def metric(ctx, name):
    """for every radius"""
    r = ctx.real('radius', (), .25, 4)
    E, P, C = build(ctx, name, radius=r)
    n = len(E[0]) - 1
    T = C.topology
    K = [[sorted(x) for x in ints(c)] for c in T.corners]
    # centers: equally far from all corners
    PP = [P] + [[center([P[v] for v in e]) for e in K[d]] for d in range(1, n + 1)]
    PM, DM = C.metric
    ctx.check('one metric per dimension', [len(p) for p in PM] == [len(k) for k in K] and [len(d) for d in DM] == [len(k) for k in K[::-1]])
    ctx.close('points measure one', PM[0], arr(ctx, [1.] * len(P)))
    ctx.close('dual points measure one', DM[0], arr(ctx, [1.] * len(E)))
    ctx.close('length of edges', PM[1], arr(ctx, [r * arc(P[e[0]], P[e[1]]) for e in K[1]]), tol=1e-5)
    top = [(v, e) for v in range(len(P)) for e in range(len(K[1])) if v in K[1][e]]
    if n == 1:
        ctx.close('length of dual edges', DM[1], arr(ctx, [r * sum(arc(P[v], PP[1][e]) for w, e in top if w == v) for v in range(len(P))]), tol=1e-5)
    else:
        ctx.close('area of triangles', PM[2], arr(ctx, [r * r * area(*[P[v] for v in t]) for t in K[2]]), tol=1e-4)
        ctx.close('length of dual edges', DM[1], arr(ctx, [r * sum(arc(PP[1][e], PP[2][t]) for t in range(len(K[2])) if set(K[1][e]) < set(K[2][t])) for e in range(len(K[1]))]), tol=1e-4)
        ctx.close('area of dual faces', DM[2], arr(ctx, [r * r * sum(area(P[v], PP[1][e], PP[2][t]) for w, e in top if w == v for t in range(len(K[2])) if set(K[1][e]) < set(K[2][t])) for v in range(len(P))]), tol=1e-4)
    if T.boundary is None:
        total = (2 * math.pi * r) if n == 1 else 4 * math.pi * r * r
        ctx.close('primal measures add up to that of the sphere', sum(rows(PM[-1])), total, tol=1e-4)
        ctx.close('dual measures add up to that of the sphere', sum(rows(DM[-1])), total, tol=1e-4)


def center(pts):
    p = np.array(pts)
    # in the span of the corners, with equal dot products
    g = np.linalg.solve(p.dot(p.T), np.ones(len(p)))
    return unit(g.dot(p).tolist())


# ------------------------------------------------------------------ positions
@REG.family('positions/{0}', [(n,) for n in ('circle4', 'octahedron', 'pair', 'wedge', 'cell5')])
def positions(ctx, name):
    """any weights"""
    w = ctx.real('w', (len(MESH[name][1]),), -.0625, .0625)
    E, P, C = build(ctx, name, weights=w)
    W = rows(w)
    K = [ints(c) for c in C.topology.corners]
    ctx.close('vertices stay', C.primal_position[0], nested(ctx, P))
    for k, b in zip(K[1:], C.primal_barycentric[1:]):
        for e, l in zip(k, rows(b)):
            c = combine([P[v] for v in e], l)
            ctx.close('coordinates add up to one', sum(l), 1)
            d = [dots([x - y for x, y in zip(c, P[v])], [x - y for x, y in zip(c, P[v])]) - W[v] for v in e]
            for a in d[1:]:
                ctx.close('centers at equal (power) distance of the corners', a, d[0], tol=1e-5)


@REG.family('unit/{0}', [(n,) for n in ('circle4', 'octahedron', 'pair', 'wedge', 'cell5')])
def on_sphere(ctx, name):
    """one weight at a time"""
    n = len(MESH[name][1])
    j = 1
    w = ctx.real('w', (), -.0625, .0625)
    E, P, C = build(ctx, name, weights=arr(ctx, [w if i == j else 0 * w for i in range(n)]))
    K = [ints(c) for c in C.topology.corners]
    for k, b, p in zip(K, C.primal_barycentric, C.primal_position):
        for e, l, x in zip(k, rows(b), rows(p)):
            if j not in e and len(e) > 1:
                continue
            c = combine([P[v] for v in e], l)
            ctx.close('centers are on the sphere', dots(x, x), 1, tol=1e-5)
            for q, r in itertools.combinations(range(len(c)), 2):
                ctx.close('in the direction of the euclidian center', x[q] * c[r], x[r] * c[q], tol=1e-5)
            ctx.leq('and not opposite', 0, dots(x, c))


def symmetric_pair(ctx):
    """two vectors of equal length: one and its mirror image"""
    a = rows(ctx.real('a', (3,), .25, 1))
    n = [2 / 3., -1 / 3., 2 / 3.]
    d = 2 * dots(a, n)
    return a, [x - d * y for x, y in zip(a, n)]


@REG.family('edge-center/{0}', [('edge_circumcenter',), ('circumcenter',)])
def edge_center(ctx, f):
    from pycomplex.geometry import spherical as M
    a, b = symmetric_pair(ctx)
    # not opposite
    s = [x + y for x, y in zip(a, b)]
    ctx.assume(dots(s, s) >= .0625)
    c = getattr(M, f)(nested(ctx, [[a, b]]))
    ctx.check('shape', tuple(c.shape) == (1, 3))
    c = rows(c)[0]
    ctx.close('on the sphere', dots(c, c), 1, tol=1e-5)
    ctx.close('equally far from both', dots(c, a), dots(c, b), tol=1e-5)
    ctx.leq('halfway', 0, dots(c, a))
    for i, j in ((0, 1), (1, 2)):
        ctx.close('on the edge', c[i] * s[j], c[j] * s[i], tol=1e-5)


@REG.family('intersect/{0}', [((0, 4, 8),), ((1, 5, 9),), ((3, 7, 11),), ((0, 6),)])
def intersect(ctx, free):
    from pycomplex.geometry.spherical import intersect_edges
    base = [1., .25, -.125, .125, 1., .25, .25, -.25, 1., .875, .5, .625]
    v = rows(ctx.real('p', (len(free),), -1, 1))
    for i, x in zip(free, v):
        base[i] = x
    p = [base[i:i + 3] for i in range(0, 12, 3)]
    n0, n1 = cross(p[0], p[1]), cross(p[2], p[3])
    c = cross(n0, n1)
    ctx.assume(dots(c, c) >= .0625)
    x = intersect_edges(*[nested(ctx, [q, q[::-1]]) for q in p])
    ctx.check('shape', tuple(x.shape) == (2, 3))
    x = rows(x)[0]
    ctx.close('on the sphere', dots(x, x), 1, tol=1e-5)
    ctx.close('on the first great circle', dots(x, n0), 0, tol=1e-5)
    ctx.close('on the second great circle', dots(x, n1), 0, tol=1e-5)
    ctx.leq('orientation', 0, dots(x, c))


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


@REG.family('loop/{0}', [('octahedron',), ('cap',)])
def loop(ctx, name):
    """positions and radius after subdivision"""
    r = ctx.real('radius', (), .25, 4)
    E, P, C = build(ctx, name, radius=r)
    F = C.subdivide_loop()
    K = ints(C.topology.elements[1])
    ctx.check('type', type(F) is type(C))
    ctx.eq('radius', F.radius, r)
    ctx.close('vertices and midpoints', F.vertices, nested(ctx, P + [unit([x + y for x, y in zip(P[a], P[b])]) for a, b in K]))
    ctx.check('four triangles for each', int(F.topology.n_elements[2]) == 4 * len(E))
    # the direct construction makes the same complex
    G = C.subdivide_loop_direct()
    ctx.check('direct: type', type(G) is type(C))
    ctx.eq('direct: radius', G.radius, r)
    ctx.close('direct: vertices and midpoints', G.vertices, F.vertices)
    ctx.check('direct: same triangles', {tuple(sorted(e)) for e in ints(G.topology.elements[2])} == {tuple(sorted(e)) for e in ints(F.topology.elements[2])} and len(ints(G.topology.elements[2])) == 4 * len(E))


@REG.family('convert/{0}', [('octahedron',), ('circle4',), ('cap',)])
def convert(ctx, name):
    n = len(MESH[name][1])
    w = ctx.real('w', (n,), -1, 1)
    E, P, C = build(ctx, name, weights=w)
    D = C.as_euclidian()
    S = D.as_spherical()
    for what, X in (('euclidian', D), ('back on the sphere', S)):
        ctx.check(what + ': topology', X.topology is C.topology)
        ctx.close(what + ': positions', X.vertices, nested(ctx, P))
        ctx.eq(what + ': weights', X.weights, w)
    ctx.check('type', type(S) is type(C))


@REG.family('derived/{0}', [('circle4',), ('arc',), ('octahedron',), ('cap',)])
def derived(ctx, name):
    """complexes made from a complex live on the same sphere"""
    r = ctx.real('radius', (), .25, 4)
    E, P, C = build(ctx, name, radius=r)
    w = ctx.real('w', (len(P),), -.0625, .0625)
    D = C.copy(weights=w)
    n = len(E[0]) - 1
    same = [('copy', lambda C: C.copy()), ('orientation', lambda C: C.fix_orientation()), ('subset', lambda C: C.select_subset(indices([1] * (len(E) - 1) + [0])))]
    finer = [('fundamental', lambda C: C.subdivide_fundamental())]
    if n == 2:
        finer += [('loop', lambda C: C.subdivide_loop()), ('loop', lambda C: C.subdivide_loop_direct()), ('simplicial', lambda C: C.subdivide_simplicial())]
    for m, f in same + finer:
        F = f(C)
        ctx.close('%s: radius' % m, F.radius, r)
        ctx.check('%s: no weights' % m, F.weights is None)
        F = f(D)
        ctx.close('%s of weighted complexes: radius' % m, F.radius, r)
        ctx.check('%s of weighted complexes: a weight per vertex, or none' % m, F.weights is None or len(F.weights) == len(F.vertices))
        q = rows(F.vertices)
        for p in q:
            ctx.close('%s: on the unit sphere' % m, sum(x * x for x in p), 1)
        if (m, f) in same:
            # selected vertices carry their weights
            for p, v in zip(q, rows(F.weights)):
                at = [i for i in range(len(P)) if all(abs(float(a) - b) < 1e-9 for a, b in zip(p, P[i]))]
                ctx.check('%s: original vertices' % m, len(at) == 1)
                ctx.close('%s: weights of the vertices' % m, v, rows(w)[at[0]])
    for D, weighted in ((C, False), (D, True)):
        B = D.boundary
        b = D.topology.boundary
        ctx.check('boundary of a closed complex', (B is None) == (b is None))
        if B is None:
            continue
        at = iflat(b.parent_idx[0])
        ctx.close('boundary: radius', B.radius, r)
        ctx.check('boundary: elements', B.topology.n_dim == n - 1 and len(B.vertices) == len(at) and ints(B.topology.elements[-1]) == ints(b.elements[-1]))
        ctx.close('boundary: vertices', B.vertices, nested(ctx, [P[v] for v in at]))
        ctx.check('boundary: weights', (B.weights is not None) == weighted)
        if weighted:
            ctx.close('boundary: weights of the vertices', B.weights, arr(ctx, [rows(w)[v] for v in at]))
        elif n == 2:
            L = {tuple(sorted(at[i] for i in e)) for e in ints(b.elements[1])}
            ctx.close('boundary: length', sum(rows(B.metric[0][1])), sum(r * arc(P[i], P[j]) for i, j in L), tol=1e-5)
