"""Metrics and hodges of simplicial and regular complexes"""
import itertools
import math
from fractions import Fraction
import numpy as np
from vsym.prop import Registry
from props.lib import *
from props.shapes import *
from props.C04 import ints
from props.C09 import arr, nested, det, dots, gram, root

REG = Registry('C10', bounds='simplicial complexes of 1-4 elements in 1-3 dimensions (curves, triangle meshes in 2d and 3d, tetrahedral meshes), 1-3 symbolic coordinates at a time around generic positions, '
               'circumcenters inside or outside of the elements, symbolic vertex weights; regular grids of 1-4 dimensions with symbolic spacings per layer',
               assumptions=['real arithmetic in place of floating point; results compared within 1e-6',
                            'numerical rank of a matrix equals its exact rank',
                            'faces of tetrahedra are acute and (weighted) centers of edges lie on their edge: the metric is only defined to be signed at the top level'])

# name: simplices, positions, slices of (vertex, coordinate) that are symbolic
MESH = {
    'segment': ([[0, 1]], [[-.5], [.75]], [[(0, 0), (1, 0)]]),
    'path': ([[0, 1], [1, 2]], [[-.5], [.125], [1.]], [[(0, 0), (1, 0), (2, 0)]]),
    'curve2': ([[0, 1], [1, 2]], [[-.5, .5], [.125, 0], [1., .75]], [[(0, 0), (1, 1)], [(0, 1), (2, 0)]]),
    'triangle': ([[0, 1, 2]], [[0, 0], [1., .125], [.375, 1.]], [[(0, 0)], [(0, 1)], [(1, 0)], [(1, 1)], [(2, 0)], [(2, 1)]]),
    'two': ([[0, 1, 2], [1, 3, 2]], [[0, 0], [1., .125], [.375, 1.], [1.25, 1.125]], [[(0, 0)], [(1, 0)], [(1, 1)], [(2, 1)], [(3, 0)]]),
    'two_rev': ([[2, 0, 1], [2, 1, 3]], [[0, 0], [1., .125], [.375, 1.], [1.25, 1.125]], [[(3, 1)], [(2, 0)]]),
    'fan4': ([[0, 1, 2], [0, 2, 3], [0, 3, 4], [0, 4, 1]], [[.125, .0625], [1., 0], [.125, 1.], [-1., .25], [0, -1.]], [[(0, 0)], [(1, 0)]]),
    'obtuse': ([[0, 1, 2]], [[0, 0], [1., .125], [.375, .5]], [[(0, 0)], [(1, 1)], [(2, 0)], [(2, 1)]]),
    'two_obtuse': ([[0, 1, 2], [1, 3, 2]], [[0, 0], [1., .125], [.375, .5], [1.25, 1.125]], [[(1, 0)], [(2, 1)], [(3, 0)]]),
    'fan_obtuse': ([[0, 1, 2], [0, 2, 3], [0, 3, 4], [0, 4, 1]], [[.25, .25], [1., 0], [.125, 1.], [-1., .25], [0, -1.]], [[(0, 0)], [(2, 1)]]),
    'tri3': ([[0, 1, 2]], [[0, 0, .25], [1., .125, 0], [.375, 1., .5]], [[(0, 0)], [(1, 2)], [(2, 1)]]),
    'fold': ([[0, 1, 2], [1, 3, 2]], [[0, 0, 0], [1., .125, 0], [.375, 1., .25], [1.25, 1.125, .5]], [[(0, 2)], [(3, 2)]]),
    'tetsurface': ([[0, 2, 1], [0, 1, 3], [0, 3, 2], [1, 2, 3]], [[0, 0, 0], [1., 0, 0], [.5, 1., 0], [.5, .25, 1.]], [[(3, 2)], [(2, 1)]]),
    'tet': ([[0, 1, 2, 3]], [[0, 0, 0], [1., 0, 0], [.5, .875, .125], [.5, .25, .875]], [[(3, 0)], [(3, 1)], [(3, 2)], [(0, 0)], [(1, 1)], [(2, 1)]]),
    'tet_out': ([[0, 1, 2, 3]], [[0, 0, 0], [1., 0, 0], [.5, .875, 0], [.5, .375, .5]], [[(3, 0)], [(3, 2)], [(0, 0)], [(2, 1)]]),
    'two_tets': ([[0, 1, 2, 3], [0, 2, 1, 4]], [[0, 0, 0], [1., 0, 0], [.5, .875, .125], [.5, .25, .875], [.5, .375, -.75]], [[(3, 2)], [(4, 0)]]),
}



SLOW = ['two_tets']
LATER = [('tet', 2), ('tet', 4), ('tet', 5), ('tet_out', 3), ('tet', 1)]


def exact(ctx, l):
    """constants as exact rationals in symbolic runs, so that nothing is rounded on the way"""
    if isinstance(l, list):
        return [exact(ctx, x) for x in l]
    if ctx.symbolic and isinstance(l, (int, float)):
        from vsym.core import S
        return S.of(l)
    return l


def place(ctx, mesh, free, lo=-.25, hi=.25):
    E, P, _ = MESH[mesh]
    P = exact(ctx, P)
    if free:
        v = rows(ctx.real('v', (len(free),), lo, hi))
        for (i, j), x in zip(free, v):
            P[i][j] = P[i][j] + x
    return np.array(E), P


def build(ctx, E, P, w=None):
    from pycomplex.complex.simplicial.euclidian import ComplexSimplicialEuclidian
    C = ComplexSimplicialEuclidian(vertices=nested(ctx, P), simplices=E, weights=w)
    assert C.topology.is_oriented
    return C


def flat(a):
    return [int(i) for i in np.asarray(plain(a)).ravel()]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def frac(ctx, a, b=1):
    return Fraction(a, b) if ctx.symbolic else a / b


def square_measure(ctx, ps):
    """squared volume of a simplex"""
    m = len(ps) - 1
    if m == 0:
        return 1
    e = [sub(p, ps[0]) for p in ps[1:]]
    return det([[dots(a, b) for b in e] for a in e]) * frac(ctx, 1, math.factorial(m) ** 2)


def barycentric_center(ps, ws):
    n, d = barycentric_ratio(ps, ws)
    return [x / d for x in n]


def barycentric_ratio(ps, ws):
    """barycentric coordinates of the point of equal power in the plane of a simplex, by Cramer: numerators and common (positive) denominator"""
    e = [sub(p, ps[0]) for p in ps[1:]]
    if not e:
        return [1], 1
    G = [[dots(a, b) for b in e] for a in e]
    r = [(dots(a, a) - w + ws[0]) * .5 for a, w in zip(e, ws[1:])]
    D = det(G)
    x = [det([row[:i] + [r[k]] + row[i + 1:] for k, row in enumerate(G)]) for i in range(len(e))]
    return [D - sum(x)] + x, D


def flags(bary, s, t):
    """sum over all chains of faces from s down to t, of the product of the barycentric coordinates of the centers relative to the corners dropped on the way"""
    if len(s) == len(t):
        return 1
    return sum(bary[s][s.index(i)] * flags(bary, tuple(j for j in s if j != i), t) for i in s if i not in t)


def hodge(ctx, N, P, W, PMn):
    """ratios of dual to primal measure of all elements: every n-simplex adds (volume of the simplex / squared measure of the face) * binom(n, k) * flags"""
    n = len(N) - 1
    idx = [{frozenset(s): i for i, s in enumerate(Nk)} for Nk in N[:1]] + [{frozenset(s): i for i, s in enumerate(Nk)} for Nk in N[1:]]
    H = [[0] * len(Nk) for Nk in N]
    for v, e in zip(PMn, N[n]):
        bary = {}
        for k in range(n + 1):
            for s in itertools.combinations(e, k + 1):
                bary[s] = barycentric_center([P[i] for i in s], [W[i] for i in s])
        for k in range(n):
            for t in itertools.combinations(e, k + 1):
                H[k][idx[k][frozenset(t)]] += v * flags(bary, tuple(e), t) * math.comb(n, k) / square_measure(ctx, [P[i] for i in t])
    for i, e in enumerate(N[n]):
        H[n][i] = 1 / PMn[i]
    return H


def domain(ctx, N, P, W):
    """non-degenerate; (weighted) centers of the faces below the top level inside of them; those of the top level anywhere but on their faces"""
    n = len(N) - 1
    for k in range(1, n + 1):
        for s in N[k]:
            q, w = [P[i] for i in s], [W[i] for i in s]
            b, d = barycentric_ratio(q, w)
            ctx.assume(d >= frac(ctx, 1, 16) ** k)
            for x in b:
                if k < n:
                    ctx.assume(x >= d / 64)
                elif x > 0:
                    ctx.assume(x >= d / 64)
                else:
                    ctx.assume(x <= -d / 64)


def check_metric(ctx, P, W, C, label=''):
    """all metrics against sums of elementary pieces"""
    T = C.topology
    n = T.n_dim
    N = [[(i,) for i in range(len(P))]] + [[tuple(r) for r in ints(c)] for c in T.corners[1:]]
    PM, DM = C.metric
    ctx.check(label + 'one metric per dimension', len(PM) == len(DM) == n + 1 and [len(p) for p in PM] == list(T.n_elements) and [len(d) for d in DM] == list(T.n_elements)[::-1])
    for k in range(0, n + 1):
        for i, s in enumerate(N[k]):
            p = rows(PM[k])[i]
            ctx.close(label + 'measure of primal %d-elements' % k, p * p, square_measure(ctx, [P[j] for j in s]))
            ctx.leq(label + 'measure of primal %d-elements is positive' % k, 0, p)
    H = hodge(ctx, N, P, W, rows(PM[n]))
    for k in range(n + 1):
        ctx.close(label + 'measure of duals of %d-elements' % k, DM[n - k], arr(ctx, [p * h for p, h in zip(rows(PM[k]), H[k])]))
    ctx.close(label + 'dual volumes add up to the volume', sum(rows(DM[n])), sum(rows(PM[n])))
    return PM, DM, H


def top(E):
    return [[(i,) for i in range(max(max(e) for e in E) + 1)]] + [sorted({s for e in E for s in itertools.combinations([int(i) for i in e], k + 1)}) for k in range(1, len(E[0]))]


def hodges(ctx, C, PM, DM, label=''):
    n = len(PM) - 1
    for k in range(n + 1):
        p, d, dp, pd = rows(PM[k]), rows(DM[n - k]), rows(C.hodge_DP[k]), rows(C.hodge_PD[k])
        ctx.check(label + 'one hodge per element', len(dp) == len(pd) == len(p) == len(d))
        for i in range(len(p)):
            ctx.close(label + 'hodge from primal to dual is the ratio of the measures', dp[i] * p[i], d[i])
            ctx.close(label + 'hodge from dual to primal is the inverse', pd[i] * dp[i], 1)


def dual_edges(ctx, N, P, W):
    """is the signed length of the dual edge through every facet positive: sum of volume times barycentric coordinate of the center"""
    n = len(N) - 1
    out = []
    for f in N[n - 1]:
        t = 0
        for e in N[n]:
            if set(f) <= set(e):
                b, d = barycentric_ratio([P[i] for i in e], [W[i] for i in e])
                b = b[[i for i in range(n + 1) if e[i] not in f][0]]
                q = [sub(P[i], P[e[0]]) for i in e[1:]]
                if len(q) == len(q[0]):
                    v = det(q)
                    # b / d * |v|, where d == v * v
                    t = t + b / (v if v > 0 else -v)
                elif n == 1:
                    # sign of a sum is that of the sum of signed squares
                    t = t + (b if b > 0 else -b) * b / d / d * dots(q[0], q[0])
                else:
                    t = t + b
        if isinstance(t, (int, float)):
            out.append(t > 0)
        else:
            ctx.assume(abs(t) >= .015625)
            out.append(bool(t > 0))
    return out


@REG.family('simplicial/{0}/{1}', [(m, i) for m, (E, P, F) in MESH.items() for i in range(len(F)) if m not in SLOW and (m, i) not in LATER], timeout=120)
@REG.family('simplicial/{0}/{1}', [(m, i) for m, (E, P, F) in MESH.items() for i in range(len(F)) if m in SLOW or (m, i) in LATER], tier='thorough', timeout=900)
def simplicial(ctx, mesh, i):
    ctx.fork_signs()
    E, P = place(ctx, mesh, MESH[mesh][2][i])
    W = [0] * len(P)
    domain(ctx, top(E), P, W)
    C = build(ctx, E, P)
    check_metric(ctx, P, W, C)


@REG.family('hodges/{0}/{1}', [('path', 0), ('curve2', 0), ('triangle', 1), ('obtuse', 0), ('two', 1), ('two_obtuse', 0), ('fold', 0), ('tri3', 0), ('tetsurface', 0), ('tet', 0)])
def simplicial_hodges(ctx, mesh, i):
    ctx.fork_signs()
    E, P = place(ctx, mesh, MESH[mesh][2][i])
    W = [0] * len(P)
    domain(ctx, top(E), P, W)
    C = build(ctx, E, P)
    hodges(ctx, C, *C.metric)


@REG.family('verdict-weighted/{0}/{1}', [(m, i) for m in ['path', 'curve2'] for i in range(3)] + [('two', 0)])
def verdict_weighted(ctx, mesh, i):
    ctx.fork_signs()
    E, P = place(ctx, mesh, None)
    W = exact(ctx, [.0625 * (j % 2) for j in range(len(P))])
    W[i] = ctx.real('w', (), -1, 1) if len(E[0]) == 2 else ctx.real('w', (), -.1875, .25)
    domain(ctx, top(E), P, W)
    C = build(ctx, np.array(E), P, w=arr(ctx, W))
    if len(E[0]) == 2:
        dual = [x for m in C.metric[1] for x in rows(m)]
        for x in dual:
            if not isinstance(x, (int, float)):
                ctx.assume(abs(x) >= .001953125)
        ctx.check('positive exactly when all dual measures are', bool(C.positive_dual_metric) == all([bool(x > 0) for x in dual]))
    N = top(E)
    edges = dual_edges(ctx, N, P, W)
    ctx.check('pairwise delaunay exactly when all dual edges have positive length', bool(C.is_pairwise_delaunay) == all(edges))
    inside = [x > 0 for k in range(1, len(N)) for s in N[k] for x in barycentric_ratio([P[i] for i in s], [W[i] for i in s])[0]]
    ctx.check('well centered exactly when all centers are inside', bool(C.is_well_centered) == all(inside))


@REG.ob('verdict-weighted-corner')
def verdict_corner(ctx):
    """the center of an obtuse triangle may be inside, while that of one of its edges is not, and the other way around"""
    ctx.fork_signs()
    P = [[0., 0.], [1., 0.], [-.5, .5]]
    W = exact(ctx, [.15, 1.75, 0])
    W[1] = ctx.real('w', (), .5, 2)
    C = build(ctx, np.array([[0, 1, 2]]), P, w=arr(ctx, W))
    N = top([[0, 1, 2]])
    inside = [[all([bool(x > 0) for x in barycentric_ratio([P[i] for i in s], [W[i] for i in s])[0]]) for s in N[k]] for k in (1, 2)]
    for x in barycentric_ratio(P, W)[0] + [y for s in N[1] for y in barycentric_ratio([P[i] for i in s], [W[i] for i in s])[0]]:
        if not isinstance(x, (int, float)):
            ctx.assume(abs(x) >= 2**-10)
    ctx.check('well centered exactly when all centers are inside', bool(C.is_well_centered) == all(inside[0] + inside[1]))


@REG.family('verdict/{0}/{1}', [(m, i) for m in ['path', 'curve2', 'triangle', 'obtuse', 'two', 'two_obtuse', 'two_rev', 'fan_obtuse', 'tet_out'] for i in range(len(MESH[m][2]))])
def verdict(ctx, mesh, i):
    ctx.fork_signs()
    E, P = place(ctx, mesh, MESH[mesh][2][i])
    W = [0] * len(P)
    domain(ctx, top(E), P, W)
    C = build(ctx, E, P)
    N = top(E)
    ctx.check('pairwise delaunay exactly when all dual edges have positive length', bool(C.is_pairwise_delaunay) == all(dual_edges(ctx, N, P, W)))
    inside = [x > 0 for k in range(1, len(N)) for s in N[k] for x in barycentric_ratio([P[i] for i in s], [W[i] for i in s])[0]]
    ctx.check('well centered exactly when all centers are inside', bool(C.is_well_centered) == all(inside))
    if all(inside):
        ctx.check('well centered complexes have a positive metric', C.positive_dual_metric)
        ctx.check('primal and dual metric', all(a is b for a, b in zip(C.primal_metric, C.metric[0])) and all(a is b for a, b in zip(C.dual_metric, C.metric[1])))


@REG.family('positive/{0}/{1}', [('path', 0), ('triangle', 0), ('obtuse', 0), ('obtuse', 1), ('obtuse', 3)])
def positive(ctx, mesh, i):
    ctx.fork_signs()
    E, P = place(ctx, mesh, MESH[mesh][2][i])
    W = [0] * len(P)
    domain(ctx, top(E), P, W)
    C = build(ctx, E, P)
    dual = [x for m in C.metric[1] for x in rows(m)]
    for x in dual:
        if not isinstance(x, (int, float)):
            ctx.assume(abs(x) >= .001953125)
    ctx.check('positive exactly when all dual measures are', bool(C.positive_dual_metric) == all([bool(x > 0) for x in dual]))


@REG.family('weighted/{0}/{1}', [(m, i) for m in ['path', 'curve2', 'triangle', 'obtuse', 'two', 'tri3', 'fold'] for i in range(2)] + [('tet', 0), ('tet', 3)])
def weighted(ctx, mesh, i):
    """a vertex weight moves the centers of all incident elements"""
    ctx.fork_signs()
    E, P = place(ctx, mesh, None)
    W = exact(ctx, [.0625 * (j % 2) for j in range(len(P))])
    # also far enough for the centers of segments to leave them
    W[i] = ctx.real('w', (), -1, 1) if len(E[0]) == 2 else ctx.real('w', (), -.1875, .25)
    domain(ctx, top(E), P, W)
    C = build(ctx, np.array(E), P, w=arr(ctx, W))
    PM, DM, H = check_metric(ctx, P, W, C)
    B = C.boundary
    if B is not None and mesh != 'path' and mesh != 'curve2':
        idx = flat(B.topology.parent_idx[0])
        check_metric(ctx, [P[j] for j in idx], [W[j] for j in idx], B, 'boundary: ')
    closed(ctx, C, DM)


def closed(ctx, C, DM):
    DC = C.dual_metric_closed
    B = C.boundary
    n = len(DM) - 1
    ctx.check('one closed metric per dimension', len(DC) == n + 1 and [len(d) for d in DC] == [int(k) for k in C.topology.dual.n_elements])
    for k in range(n + 1):
        ctx.close('closed metric: interior elements', DC[k][:len(DM[k])], DM[k])
        if B is not None and k < n:
            ctx.close('closed metric: boundary elements', DC[k][len(DM[k]):], B.metric[1][k])


@REG.family('closed/{0}/{1}', [('segment', 0), ('path', 0), ('triangle', 0), ('two', 1), ('fold', 0), ('tetsurface', 0), ('tet', 0)])
def closed_metric(ctx, mesh, i):
    ctx.fork_signs()
    E, P = place(ctx, mesh, MESH[mesh][2][i])
    W = [0] * len(P)
    domain(ctx, top(E), P, W)
    C = build(ctx, E, P)
    PM, DM = C.metric
    closed(ctx, C, DM)
    B = C.boundary
    if B is not None and len(E[0]) > 2:
        idx = flat(B.topology.parent_idx[0])
        check_metric(ctx, [P[j] for j in idx], [0] * len(idx), B, 'boundary: ')


@REG.family('triangular/{0}/{1}', [(m, i) for m in ['triangle', 'obtuse', 'two', 'two_rev', 'two_obtuse', 'fan4', 'tri3', 'tetsurface'] for i in range(min(3, len(MESH[m][2])))])
def triangular(ctx, mesh, i):
    """areas and cotangent formula of triangle meshes"""
    from pycomplex.complex.simplicial.euclidian import ComplexTriangularEuclidian
    ctx.fork_signs()
    E, P = place(ctx, mesh, MESH[mesh][2][i])
    W = [0] * len(P)
    domain(ctx, top(E), P, W)
    C = build(ctx, E, P)
    if i % 2:
        T = C.as_2()
    else:
        T = ComplexTriangularEuclidian(vertices=nested(ctx, P), triangles=np.array(E))
    a, v = rows(T.compute_triangle_areas), rows(T.compute_vertex_areas)
    ctx.check('one area per triangle and vertex', len(a) == len(E) and len(v) == len(P))
    for e, x in zip(E, a):
        ctx.close('area of triangles', x * x, square_measure(ctx, [P[j] for j in e]))
        ctx.leq('area of triangles is positive', 0, x)
    for j in range(len(P)):
        ctx.close('every vertex gets a third of its triangles', v[j] * 3, sum(x for e, x in zip(E, a) if j in e))
    # half the sum of the cotangents of the angles facing an edge: a / (2 A) of the dot product of the sides
    edges = [frozenset(s) for s in ints(T.topology.elements[1])]
    r = [0] * len(edges)
    for e, x in zip(ints(T.topology.elements[2]), a):
        for q in range(3):
            c, f, g = e[q], e[(q + 1) % 3], e[(q + 2) % 3]
            r[edges.index(frozenset([f, g]))] += dots(sub(P[f], P[c]), sub(P[g], P[c])) * x / (square_measure(ctx, [P[j] for j in e]) * 4)
    ctx.close('edge ratio is the cotangent formula', T.compute_edge_ratio, arr(ctx, r))


# -- regular grids

def grid(ctx, shape, free):
    """regular grid with symbolic layer spacings along the axes in free"""
    from pycomplex import synthetic
    C = synthetic.n_cube_grid(shape)
    n = len(shape)
    X = []
    for d, k in enumerate(shape):
        h = [.5 + .125 * ((3 * j + 5 * d) % 7) for j in range(k)]
        if d in free:
            h = rows(ctx.real('h%d' % d, (k,), .25, 2))
        h, o = exact(ctx, list(h)), exact(ctx, .375 * d - .5)
        x = [o]
        for y in h:
            x.append(x[-1] + y)
        X.append(x)
    V = np.asarray(C.vertices).tolist()
    ax = [sorted({v[d] for v in V}) for d in range(n)]
    L = [[ax[d].index(v[d]) for d in range(n)] for v in V]
    return C, L, X


def regular_type(n):
    from pycomplex.complex import regular
    return getattr(regular, 'ComplexRegular%d' % n)


def extents(L, X, s):
    """axis -> extent of a cell given by its vertices"""
    out = {}
    for d in range(len(X)):
        i = sorted({L[v][d] for v in s})
        if len(i) > 1:
            out[d] = X[d][i[-1]] - X[d][i[0]]
    return out


def prod(l):
    r = 1
    for x in l:
        r = r * x
    return r


def check_regular(ctx, C, L, X, label=''):
    T = C.topology
    n = T.n_dim
    N = [[(i,) for i in range(len(L))]] + [[tuple(sorted(r)) for r in ints(c)] for c in T.corners[1:]]
    PM, DM = C.metric
    ctx.check(label + 'one metric per dimension', len(PM) == len(DM) == n + 1 and [len(p) for p in PM] == list(T.n_elements) and [len(d) for d in DM] == list(T.n_elements)[::-1])
    ext = [[extents(L, X, s) for s in Nk] for Nk in N]
    for k in range(n + 1):
        ctx.close(label + 'measure of %d-cubes is the product of their extents' % k, PM[k], arr(ctx, [prod(e.values()) for e in ext[k]]))
        D = []
        for s, e in zip(N[k], ext[k]):
            D.append(sum(prod(x * .5 for d, x in t.items() if d not in e) for c, t in zip(N[n], ext[n]) if set(s) <= set(c)))
        ctx.close(label + 'measure of duals of %d-cubes is the product of half the extents of all cubes around' % k, DM[n - k], arr(ctx, D))
    ctx.close(label + 'volume', sum(rows(DM[n])), sum(rows(PM[n])))
    hodges(ctx, C, PM, DM, label)
    return DM


GRIDS = [((1,), (0,)), ((2,), (0,)), ((4,), (0,)), ((1, 1), (0, 1)), ((2, 1), (0,)), ((2, 2), (0,)), ((2, 2), (1,)), ((1, 1, 1), (0, 1)), ((2, 1, 1), (0,)), ((1, 1, 2), (2,)), ((1, 1, 1, 1), (3,))]
GRIDS_T = [((2, 1), (0, 1)), ((1, 1, 1), (0, 1, 2)), ((1, 2, 1), (1,)), ((2, 2, 1), (2,)), ((3, 2), (0,)), ((2, 3), (0,)), ((2, 2, 2), (1,)), ((1, 1, 1, 1), (0,)), ((2, 1, 1, 1), (1,))]



@REG.family('regular/{0}/{1}', GRIDS)
@REG.family('regular/{0}/{1}', GRIDS_T, tier='thorough', timeout=900)
def regular_metric(ctx, shape, free):
    ctx.fork_signs()
    C, L, X = grid(ctx, shape, free)
    C = regular_type(len(shape))(vertices=nested(ctx, [[X[d][i] for d, i in enumerate(v)] for v in L]), topology=C.topology)
    DM = check_regular(ctx, C, L, X)
    closed(ctx, C, DM)
    B = C.boundary
    idx = flat(B.topology.parent_idx[0])
    check_regular(ctx, B, [L[i] for i in idx], X, 'boundary: ')


@REG.family('subset/{0}', [((2, 2),), ((3, 1),), ((2, 2, 1),)])
def subset(ctx, shape):
    """any part of a grid"""
    ctx.fork_signs()
    C, L, X = grid(ctx, shape, ())
    n = len(shape)
    x = ctx.real('h', (), .25, 2)
    X[0] = [X[0][0]] + [X[0][1] - X[0][0] + v - 1 + x for v in X[0][1:]]
    sel = ctx.bool('sel', (int(np.prod(shape)),))
    s = [bool(b) for b in rows(sel)]
    ctx.assume(any(s) and not all(s))
    C = regular_type(n)(vertices=nested(ctx, [[X[d][i] for d, i in enumerate(v)] for v in L]), topology=C.topology)
    S = C.select_subset(np.array(s))
    idx = flat(S.topology.parent_idx[0])
    check_regular(ctx, S, [L[i] for i in idx], X)
