"""Picking and sampling on simplicial complexes"""
import itertools
import math
import numpy as np
from vsym.prop import Registry
from props.lib import *
from props.shapes import *
from props.C04 import ints
from props.C09 import arr, nested, det, dots
from props.C10 import exact, sub
from props.C10 import flat as iflat

REG = Registry('C13', bounds='pairwise Delaunay simplicial meshes of 1-3 dimensions with 1-8 simplices (well-centered or not, with or without vertex weights), every point of the mesh (and points around it), every initial guess, '
               'all values of sampled forms; nearest vertices for all positions and weights of up to 4 vertices; meshes with symbolic positions or weights for the simplices and weights listed',
               assumptions=['real arithmetic in place of floating point; results compared within 1e-5',
                            'the nearest neighbour search of scipy returns a nearest neighbour (any one, on ties); minres solves consistent systems',
                            'meshes are those where the union of the simplices is convex'])

HEX = [[.0625, 0], [1., .125], [.5, .875], [-.5, 1.], [-1., 0], [-.5, -.875], [.5, -1.]]
MESH = {
    # name: simplices, positions
    'path': ([[0, 1], [1, 2], [2, 3]], [[-1.], [0], [.5], [2.]]),
    'shuffled': ([[2, 0], [0, 3], [3, 1]], [[0.], [2], [-1.], [.5]]),
    'triangle': ([[0, 1, 2]], [[0, 0], [1., .125], [.375, 1.]]),
    'two': ([[0, 1, 2], [1, 3, 2]], [[0, 0], [1., .125], [.375, 1.], [1.25, 1.125]]),
    'two_rev': ([[2, 0, 1], [2, 1, 3]], [[0, 0], [1., .125], [.375, 1.], [1.25, 1.125]]),
    'hex': ([[0, 1, 2], [0, 2, 3], [0, 3, 4], [0, 4, 5], [0, 5, 6], [0, 6, 1]], HEX),
    'off': ([[0, 1, 2], [0, 2, 3], [0, 3, 4], [0, 4, 5], [0, 5, 6], [0, 6, 1]], [[.25, .125]] + HEX[1:]),
    'band': ([[0, 1, 2], [1, 3, 2], [2, 3, 4], [3, 5, 4]], [[0, 0], [1., 0], [.5, .875], [1.5, .875], [1., 1.75], [2., 1.75]]),
    'tet': ([[0, 1, 2, 3]], [[0, 0, 0], [1., 0, 0], [.5, .875, .125], [.5, .25, .875]]),
    'tets': ([[0, 1, 2, 3], [0, 2, 1, 4]], [[0, 0, 0], [1., 0, 0], [.5, .875, 0], [.5, .25, .875], [.5, .375, -.875]]),
}
# one circumcenter in the other triangle
MESH['obtuse'] = ([[0, 1, 2], [1, 3, 2]], [[0, 0], [1., 0.], [.25, 1.], [.875, 1.125]])


def build(ctx, name, weights=None, P=None):
    from pycomplex.complex.simplicial.euclidian import ComplexSimplicialEuclidian, ComplexTriangularEuclidian
    E, V = MESH[name]
    P = [list(v) for v in V] if P is None else P
    cls = ComplexTriangularEuclidian if len(E[0]) == 3 else ComplexSimplicialEuclidian
    w = weights if not isinstance(weights, list) else indices(weights)
    return E, P, cls(positions(ctx, P), np.array(E), weights=w)


def positions(ctx, P):
    # concrete positions are used as they are
    if all(isinstance(x, (int, float)) for r in P for x in r):
        from pycomplex.topology.util import np as code
        return code.array(P)
    return nested(ctx, P)


def member(ctx, E, P, name='l', size=1):
    """any points of the mesh: simplex and barycentric coordinates"""
    k = len(E[0])
    out = []
    which = [int(i) for i in rows(ctx.int(name + 'k', (size,), 0, len(E) - 1))] if len(E) > 1 else [0] * size
    L = rows(ctx.real(name, (size, k), 0, 1))
    for i, l in zip(which, L):
        ctx.assume(sum(l) >= 1)
        ctx.assume(sum(l) <= 1)
        # eliminate the last coordinate, so that the point is affine in the others
        l = l[:-1] + [1 - sum(l[:-1])]
        out.append((i, l, combine([P[v] for v in E[i]], l)))
    return out


def combine(pts, l):
    return [sum(p[d] * c for p, c in zip(pts, l)) for d in range(len(pts[0]))]


def weighted_offsets(name, far=False):
    if far:
        # the center of the first segment beyond its end
        return [1.3, 0, 0, 0]
    n = len(MESH[name][1])
    return [((i * 5 + 2) % 7) / 64. for i in range(n)]


def indices(l):
    from pycomplex.topology.util import np as code
    return code.array(l)


def check_primal(ctx, E, P, idx, bary, pts, inside=True, label=''):
    k = len(E[0])
    ctx.check(label + 'one simplex per point', tuple(np.shape(idx)) == (len(pts),) and tuple(bary.shape) == (len(pts), k))
    for i, b, x in zip(rows(idx), rows(bary), pts):
        corners = [P[v] for v in E[int(i)]]
        ctx.close(label + 'coordinates add up to one', sum(b), 1)
        ctx.close(label + 'coordinates are those of the point in the simplex', arr(ctx, combine(corners, b)), arr(ctx, x), tol=1e-5)
        if inside:
            for c in b:
                ctx.leq(label + 'point is in the simplex', 0, c, tol=1e-5)


PICK = ['path', 'shuffled', 'triangle', 'two', 'two_rev', 'obtuse', 'hex', 'off', 'band', 'tet', 'tets']


@REG.family('pick/{0}/weights:{1}', [(n, w) for n in PICK for w in ((False, True) if n in ('path', 'two', 'hex', 'tets') else (False,))] + [('path', 'far')])
def pick(ctx, name, weights):
    E, P, C = build(ctx, name, weighted_offsets(name, weights == 'far') if weights else None)
    pts = [x for _, _, x in member(ctx, E, P)]
    idx, bary = C.pick_primal(nested(ctx, pts))
    check_primal(ctx, E, P, idx, bary, pts)


@REG.family('pick-around/{0}', [(n,) for n in ('path', 'two', 'hex', 'tet')])
def pick_around(ctx, name):
    """points anywhere: the coordinates still describe the point"""
    E, P, C = build(ctx, name)
    pts = rows(ctx.real('x', (1, len(P[0])), -4, 4))
    idx, bary = C.pick_primal(nested(ctx, pts))
    check_primal(ctx, E, P, idx, bary, pts, False)


@REG.family('exhaustive/{0}', [(n,) for n in ('path', 'two', 'hex', 'tet', 'tets')])
def exhaustive(ctx, name):
    """trying all simplices"""
    E, P, C = build(ctx, name)
    pts = [x for _, _, x in member(ctx, E, P)]
    idx = C.pick_primal_brute(C.homogenize(nested(ctx, pts)))
    bary = [coordinates([P[v] for v in E[int(i)]], x) for i, x in zip(rows(idx), pts)]
    check_primal(ctx, E, P, idx, nested(ctx, bary), pts)


@REG.family('guess/{0}', [(n,) for n in ('path', 'two', 'obtuse', 'tets', 'band')])
def guess(ctx, name):
    E, P, C = build(ctx, name)
    size = 1 if name == 'band' else 2
    m = member(ctx, E, P, size=size)
    pts = [x for _, _, x in m]
    g = [int(i) for i in rows(ctx.int('guess', (size,), 0, len(E) - 1))]
    given = indices(g)
    idx, bary = C.pick_primal(nested(ctx, pts), simplex_idx=given)
    check_primal(ctx, E, P, idx, bary, pts)
    ctx.check('guess is left as given', [int(i) for i in rows(given)] == g)
    for i, h, (j, l, _) in zip(rows(idx), g, m):
        if h == j:
            ctx.check('right guess is kept', int(i) == h or not all(bool(c >= 1e-4) for c in l))


@REG.family('dual/{0}-{1}/weights:{2}', [(3, 1, False), (3, 2, False), (4, 2, True), (3, 3, True), (3, 1, True)])
def dual(ctx, n, dim, weights):
    """nearest vertex, with any positions and weights"""
    from pycomplex.complex.simplicial.euclidian import ComplexSimplicialEuclidian
    ctx.fork_extremes()
    p = ctx.real('p', (n, dim), -1, 1)
    x = ctx.real('x', (1, dim), -2, 2)
    w = ctx.real('w', (n,), -1, 1) if weights else None
    C = ComplexSimplicialEuclidian(p, np.array([[i, i + 1] for i in range(n - 1)]), weights=w)
    C.__dict__['primal_position'] = [p]
    C.homogenize = lambda c: code_eye(c)
    near = C.pick_dual(x)
    ctx.check('one vertex per point', tuple(np.shape(near)) == (1,))
    i = int(rows(near)[0])
    P, X = rows(p), rows(x)[0]
    W = rows(w) if weights else [0] * n

    def d(j):
        # |x|^2 cancels
        return dots(P[j], P[j]) - 2 * dots(P[j], X) - W[j]
    for j in range(n):
        if j != i:
            ctx.leq('no vertex is nearer', d(i), d(j), tol=1e-6)


def code_eye(c):
    """the bases of the simplices do not matter when picking vertices"""
    from pycomplex.topology.util import np as code
    return code.array([np.eye(c.shape[-2]).tolist()] * c.shape[0])


@REG.family('dual-cell/{0}', [('two',), ('hex',), ('tets',), ('path',)])
def dual_cell(ctx, name):
    """dual vertices lie at the same (weighted) distance of all corners, so that they are on the edge of the cells that are picked"""
    n = len(MESH[name][1])
    w = ctx.real('w', (n,), -.0625, .0625)
    E, P, C = build(ctx, name, w)
    W = rows(w)
    c = rows(C.primal_position[-1])
    for e, x in zip(E, c):
        r = [dots(sub(x, P[v]), sub(x, P[v])) - W[v] for v in e]
        for a in r[1:]:
            ctx.close('same distance to all corners', a, r[0])
    ctx.close('offsets are the square root of the distance to the largest weight', C.weights_to_offsets(w) * C.weights_to_offsets(w), arr(ctx, [max_of(W) - a for a in W]))


def max_of(l):
    m = l[0]
    for a in l[1:]:
        if bool(a > m):
            m = a
    return m


# ------------------------------------------------------------------ fundamental domains
FUND = ['path', 'triangle', 'two']


@REG.family('fundamental/{0}', [(n,) for n in FUND], timeout=120)
def fundamental(ctx, name):
    E, P, C = build(ctx, name)
    k = len(E[0])
    pts = [x for _, _, x in member(ctx, E, P)]
    idx, bary, dom = C.pick_fundamental(nested(ctx, pts))
    check_domain(ctx, C, idx, bary, dom, pts, k)


def centers(C):
    """positions of the elements of every dimension"""
    return [rows(p) for p in C.primal_position]


def check_domain(ctx, C, idx, bary, dom, pts, k):
    ctx.check('shapes', tuple(np.shape(idx)) == (len(pts),) and tuple(bary.shape) == (len(pts), k) and tuple(np.shape(dom)) == (len(pts), k))
    K = [[sorted(r) for r in ints(c)] for c in C.topology.corners]
    PP = centers(C)
    for i, b, d, x in zip(rows(idx), rows(bary), np.asarray(plain(dom)).tolist(), pts):
        if int(i) % 2:
            b = b[:-2] + [b[-1], b[-2]]
        d = [int(j) for j in d]
        ctx.check('a vertex of an edge of ... of a simplex', all(set(K[j][d[j]]) < set(K[j + 1][d[j + 1]]) for j in range(k - 1)))
        ctx.close('coordinates add up to one', sum(b), 1)
        ctx.close('coordinates are those of the point in the domain', arr(ctx, combine([PP[j][d[j]] for j in range(k)], b)), arr(ctx, x), tol=1e-5)
        for c in b:
            ctx.leq('point is in the domain', 0, c, tol=1e-5)


@REG.family('fundamental-guess/{0}', [('path',), ('triangle',)], timeout=120)
def fundamental_guess(ctx, name):
    E, P, C = build(ctx, name)
    k = len(E[0])
    pts = [x for _, _, x in member(ctx, E, P)]
    n = len(E) * math.factorial(k)
    g = [int(i) for i in rows(ctx.int('guess', (1,), 0, n - 1))]
    idx, bary, dom = C.pick_fundamental(nested(ctx, pts), domain_idx=indices(g))
    check_domain(ctx, C, idx, bary, dom, pts, k)


# ------------------------------------------------------------------ sampling
@REG.family('sample-primal/{0}', [(n,) for n in ('path', 'triangle', 'two', 'obtuse', 'hex', 'tets')])
def sample_primal(ctx, name):
    E, P, C = build(ctx, name)
    m = member(ctx, E, P)
    n = len(P)
    # a form for each vertex: samples are linear in the point
    remember(C, 'pick_primal')
    s = basis(ctx, C.sample_primal_0, n, nested(ctx, [x for _, _, x in m]))
    ctx.close('linear interpolation between the corners', s, nested(ctx, [[l[E[i].index(v)] if v in E[i] else 0 for v in range(n)] for i, l, _ in m]), tol=1e-4)


def basis(ctx, f, n, pts, **kw):
    """samples of every unit form"""
    out = []
    for i in range(n):
        s = f(indices([float(i == j) for j in range(n)]), pts, **kw)
        ctx.check('one value per point', tuple(s.shape) == (len(pts),))
        out.append(rows(s))
    return nested(ctx, [list(r) for r in zip(*out)])


def remember(C, name):
    """answer the same pick once only"""
    f, known = getattr(C, name), []

    def g(points, *args, **kw):
        if args or kw:
            return f(points, *args, **kw)
        for p, r in known:
            if p is points:
                return tuple(a.copy() for a in r)
        r = f(points)
        known.append((points, tuple(a.copy() for a in r)))
        return r
    setattr(C, name, g)


@REG.family('sample-form/{0}', [(n,) for n in ('path', 'two', 'hex', 'tets')])
def sample_form(ctx, name):
    """any form, at points given in advance"""
    E, P, C = build(ctx, name)
    k = len(E[0])
    L = [[(i * 3 + j * 5) % 7 + 1 for j in range(k)] for i in range(len(E))]
    L = [[a / sum(l) for a in l] for l in L]
    pts = indices([combine([P[v] for v in e], l) for e, l in zip(E, L)])
    f = ctx.real('f', (len(P),), -2, 2)
    F = rows(f)
    s = C.sample_primal_0(f, pts)
    ctx.close('linear interpolation between the corners', s, arr(ctx, [sum(F[v] * c for v, c in zip(e, l)) for e, l in zip(E, L)]), tol=1e-4)
    if k == 4:
        return
    n0 = int(C.topology.dual.n_elements[0])
    d = ctx.real('d', (n0,), -2, 2)
    D = rows(d)
    for weighted in (False, True):
        one = basis(ctx, C.sample_dual_0, n0, pts, weighted=weighted)
        s = C.sample_dual_0(d, pts, weighted=weighted)
        ctx.close('samples are linear in the form', s, arr(ctx, [sum(a * b for a, b in zip(D, r)) for r in rows(one)]), tol=1e-4)


def averages(E, K, PP, B, weighted):
    """weights {dual vertex: weight} of every element of every dimension; B: facets with a dual boundary vertex, in order"""
    k = len(E[0])
    out = []
    for d in range(k):
        row = []
        for j, e in enumerate(K[d]):
            w = {}
            for i, s in enumerate(E):
                if set(e) <= set(s):
                    w[i] = sum(flag_weights(K, PP, d, j, i)) if weighted else 1
            if not weighted and d < k - 1:
                for q, b in enumerate(B):
                    if set(e) <= set(K[k - 2][b]):
                        w[len(E) + q] = 1
            t = sum(w.values())
            row.append({a: b / t for a, b in w.items()})
        out.append(row)
    return out


def flag_weights(K, PP, d, j, i):
    """for every chain from an element up to a simplex: measure of the part beyond the element, over the product of the distances to its corners"""
    k = len(K)
    if d == k - 1:
        return [1]
    out = []

    def up(chain):
        q = len(chain) + d
        if q == k:
            if chain[-1] != i:
                return
            pts = [PP[d + a][c] for a, c in enumerate(chain)]
            r = [math.dist(pts[0], p) for p in pts[1:]]
            out.append(measure(pts[1:]) / math.prod(r))
            return
        for c, e in enumerate(K[q]):
            if set(K[q - 1][chain[-1]]) < set(e) and (q < k - 1 or c == i):
                up(chain + [c])
    up([j])
    return out


def measure(pts):
    if len(pts) == 1:
        return 1.
    a = np.array(pts[1:]) - np.array(pts[0])
    return math.sqrt(max(np.linalg.det(a.dot(a.T)), 0)) / math.factorial(len(a))


def dual_setup(ctx, name, weighted):
    E, P, C = build(ctx, name)
    T = C.topology
    K = [[sorted(r) for r in ints(c)] for c in T.corners]
    PP = [[[float(x) if not ctx.symbolic else cfloat(x) for x in p] for p in l] for l in centers(C)]
    B = iflat(T.boundary.parent_idx[-1])
    remember(C, 'pick_fundamental')
    return E, P, C, K, PP, averages(E, K, PP, B, weighted), len(E) + len(B)


def expected(A, n0, chain, l):
    return [sum(c * A[q][e].get(a, 0) for q, (c, e) in enumerate(zip(l, chain))) for a in range(n0)]


@REG.family('sample-dual/{0}/weighted:{1}', [(n, w) for n in ('path', 'triangle') for w in (False, True)], timeout=120)
@REG.family('sample-dual/{0}/weighted:{1}', [(n, w) for n in ('two', 'hex') for w in (False, True)], tier='thorough', timeout=600)
def sample_dual(ctx, name, weighted):
    E, P, C, K, PP, A, n0 = dual_setup(ctx, name, weighted)
    m = member(ctx, E, P)
    x = m[0][2]
    # a form for each dual vertex: samples are linear in the point
    s = basis(ctx, C.sample_dual_0, n0, nested(ctx, [x]), weighted=weighted)
    # the domain that holds the point: any chain of elements with nonnegative coordinates
    for chain in chains(K, E, m[0][0]):
        l = coordinates([PP[q][c] for q, c in enumerate(chain)], x)
        if all(bool(v >= 0) for v in l[:-1]) and bool(l[-1] >= 0):
            ctx.close('linear interpolation between averages over the elements of the domain', s, nested(ctx, [expected(A, n0, chain, l)]), tol=1e-4)
            return
    ctx.assume(False)


@REG.family('sample-dual-in/{0}/weighted:{1}/every:{2}', [('two', False, 1), ('two', True, 1), ('hex', False, 7), ('hex', True, 5)], timeout=120)
@REG.family('sample-dual-in/{0}/weighted:{1}/every:{2}', [('hex', False, 1), ('hex', True, 1)], tier='thorough', timeout=600)
def sample_dual_in(ctx, name, weighted, step):
    """points of any fundamental domain, off its edges"""
    E, P, C, K, PP, A, n0 = dual_setup(ctx, name, weighted)
    all_chains = [c for i in range(len(E)) for c in chains(K, E, i)][::step]
    j = int(rows(ctx.int('domain', (1,), 0, len(all_chains) - 1))[0])
    chain = all_chains[j]
    l = rows(ctx.real('l', (2,), .0625, .5))
    ctx.assume(sum(l) <= .9375)
    l = l + [1 - sum(l)]
    x = combine([PP[q][c] for q, c in enumerate(chain)], l)
    s = basis(ctx, C.sample_dual_0, n0, nested(ctx, [x]), weighted=weighted)
    ctx.close('linear interpolation between averages over the elements of the domain', s, nested(ctx, [expected(A, n0, chain, l)]), tol=1e-4)


def cfloat(x):
    c = x.const() if hasattr(x, 'const') else x
    return float(c)


def chains(K, E, i):
    k = len(K)

    def down(q, chain):
        if q < 0:
            yield chain
            return
        for c, e in enumerate(K[q]):
            if set(e) < set(K[q + 1][chain[0]]):
                for r in down(q - 1, [c] + chain):
                    yield r
    return list(down(k - 2, [i]))


def coordinates(pts, x):
    """barycentric coordinates by the concrete inverse"""
    A = np.linalg.inv(np.array([list(p) + [1.] for p in pts]).T).tolist()
    return [sum(a * v for a, v in zip(r[:-1], x)) + r[-1] for r in A]


# ------------------------------------------------------------------ velocities
@REG.family('velocity/{0}', [('triangle',), ('two',), ('hex',), ('band',), ('tet',), ('tets',)])
def velocity(ctx, name):
    """fluxes of a constant field along the dual edges give back the field in every simplex"""
    E, P, C = build(ctx, name)
    n = len(P[0])
    u = ctx.real('u', (n,), -2, 2)
    pos = C.dual_position[0]
    flux = C.topology.dual.matrices[0].T * (pos.dot(u) if not isinstance(pos, list) else None)
    v = C.dual_flux_to_dual_velocity(flux)
    n0 = int(C.topology.dual.n_elements[0])
    ctx.check('one vector per dual vertex', tuple(v.shape) == (n0, n))
    ctx.close('velocity of a constant field', v, nested(ctx, [rows(u) if i < len(E) else [0] * n for i in range(n0)]))


@REG.family('velocity-grid/{0}', [('3',), ('2-1',), ('2-2',), ('1-2-1',)])
def velocity_grid(ctx, shape):
    from pycomplex import synthetic
    from props.C10 import regular_type
    shape = [int(s) for s in shape.split('-')]
    n = len(shape)
    G = synthetic.n_cube_grid(shape)
    V = np.asarray(G.vertices).tolist()
    h = [.75, 1.5, .5]
    C = regular_type(n)(vertices=indices([[a * b - .25 for a, b in zip(v, h)] for v in V]), topology=G.topology)
    u = ctx.real('u', (n, 2), -2, 2)
    flux = C.topology.dual.matrices[0].T * C.dual_position[0].dot(u)
    v = C.dual_flux_to_dual_velocity(flux)
    n0 = int(C.topology.dual.n_elements[0])
    m = int(np.prod(shape))
    ctx.check('one vector of pairs per dual vertex', tuple(v.shape) == (n0, n, 2))
    for i in range(n0):
        ctx.close('velocity of two constant fields', v[i], u if i < m else nested(ctx, [[0, 0]] * n))


@REG.family('velocity-surface/{0}', [('two',), ('hex',)])
def velocity_surface(ctx, name):
    """planar mesh in space: the component in the plane"""
    E, V = MESH[name]
    # (x, y) -> x (.6, .8, 0) + y (0, 0, 1)
    P = [[.6 * x, .8 * x, y] for x, y in V]
    E, P, C = build(ctx, name, P=P)
    u = ctx.real('u', (3,), -2, 2)
    flux = C.topology.dual.matrices[0].T * C.dual_position[0].dot(u)
    v = C.dual_flux_to_dual_velocity(flux)
    U = rows(u)
    a = U[0] * .6 + U[1] * .8
    for i in range(len(E)):
        ctx.close('component of a constant field in the plane', v[i], arr(ctx, [a * .6, a * .8, U[2]]))


def opposing(e, j):
    """faces are ordered by opposing corner; those of segments are their corners"""
    return sorted(e[:j] + e[j + 1:]) if len(e) > 2 else [e[j]]


@REG.family('boundary-sums/{0}', [(n,) for n in MESH])
def boundary_sums(ctx, name):
    """sums of a quantity on the faces of all simplices"""
    E, P, C = build(ctx, name)
    k = len(E[0])
    f = ctx.real('f', (len(E), k), -2, 2)
    F = rows(f)
    T = C.topology
    K = [[sorted(r) for r in ints(c)] for c in T.corners]
    face = [sum(F[i][j] for i, e in enumerate(E) for j in range(k) if opposing(e, j) == b) for b in K[-2]]
    ctx.close('sum of both sides of every face', C.remap_boundary_N(f, oriented=False), arr(ctx, face))
    # oriented: by the induced orientation
    M = T.matrices[-1].toarray() if hasattr(T.matrices[-1], 'toarray') else T.matrices[-1].todense()
    M = np.asarray(plain(M)).tolist()
    face = [sum(F[i][j] * M[K[-2].index(b)][i] for i, e in enumerate(E) for j in range(k) if opposing(e, j) == b) for b in K[-2]]
    ctx.close('difference over every face', C.remap_boundary_N(f), arr(ctx, face))
    vert = [sum(F[i][e.index(v)] for i, e in enumerate(E) if v in e) for v in range(len(P))]
    ctx.close('sum of the opposite faces around every vertex', C.remap_boundary_0(f), arr(ctx, vert))
