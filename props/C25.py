"""Answers do not depend on how things are numbered, where they are, how they are turned, or in which unit they are given"""
import itertools
import math
import numpy as np
from vsym.prop import Registry
from props.lib import *
from props.shapes import *
from props.C04 import ints
from props.C09 import arr, nested, dots
from props.C10 import exact, frac
from props.C10 import flat as iflat
from props.C13 import combine, positions
from props.C13 import indices as given

REG = Registry('C25', bounds='curves, triangle meshes in 2d and 3d (open, closed, weighted), tetrahedra, grids of 1-3 dimensions, spheres and stencil complexes of up to 8 elements; every exchange of two vertices, every rotation of the list of elements, '
               'even permutations of the corners of every element, reversal of all orientations, with one symbolic coordinate and symbolic forms; any translation, scale and (rationally parametrized) rotation of concrete positions',
               assumptions=['real arithmetic in place of floating point; results compared within 1e-5', 'numerical rank of a matrix equals its exact rank'])

MESH = {
    'curve': ([[0, 1], [1, 2], [2, 3]], [[-1.], [0.], [.5], [2.]]),
    'curve2': ([[0, 1], [1, 2]], [[-.5, .5], [.125, 0.], [1., .75]]),
    'two': ([[0, 1, 2], [1, 3, 2]], [[0., 0.], [1., .125], [.375, 1.], [1.25, 1.125]]),
    'band': ([[0, 1, 2], [1, 3, 2], [2, 3, 4]], [[0., 0.], [1., 0.], [.5, .875], [1.5, .875], [1., 1.75]]),
    'fold': ([[0, 1, 2], [1, 3, 2]], [[0., 0., 0.], [1., .125, 0.], [.375, 1., .25], [1.25, 1.125, .5]]),
    'closed': ([[1, 2, 3], [0, 3, 2], [0, 1, 3], [0, 2, 1]], [[1., 1., 1.], [1., -1., -.875], [-1., 1., -1.], [-1., -.75, 1.]]),
    'tets': ([[0, 1, 2, 3], [0, 2, 1, 4]], [[0., 0., 0.], [1., 0., 0.], [.5, .875, .125], [.5, .25, .875], [.5, .375, -.75]]),
}


def renumberings(E, nv):
    """lists of (new number of every vertex, order of the elements, order of the corners of every element, orientation)"""
    n, k = len(E), len(E[0])
    one, order, still = list(range(nv)), list(range(n)), [list(range(k))] * n
    out = []
    for i, j in itertools.combinations(range(nv), 2):
        p = list(one)
        p[i], p[j] = j, i
        out.append((p, order, still, 1))
    for s in range(1, n):
        out.append((one, order[s:] + order[:s], still, 1))
    for q in itertools.permutations(range(k)):
        if perm_sign(q) > 0 and list(q) != still[0]:
            for i in range(n):
                out.append((one, order, [list(q) if m == i else still[0] for m in range(n)], 1))
    flip = [1, 0] + list(range(2, k))
    out.append((one, order, [flip] * n, -1))
    # everything at once
    out.append((one[::-1], order[::-1], [list(range(1, k)) + [0] if k % 2 else still[0] if k == 2 else [1, 2, 0, 3]] * n, 1))
    return out


def renumber(E, P, W, g):
    p, order, corners, _ = g
    Q, V = [None] * len(P), [0] * len(P)
    for i, x in enumerate(P):
        Q[p[i]], V[p[i]] = x, W[i]
    F = [[p[E[e][c]] for c in corners[e]] for e in order]
    name = [None] * len(P)          # new number -> old number
    for i in range(len(P)):
        name[p[i]] = i
    return F, Q, V, name


def build(ctx, E, P, W=None):
    from pycomplex.complex.simplicial import euclidian as M
    n, k = len(P[0]), len(E[0])
    if k == 3:
        C = M.ComplexTriangularEuclidian(positions(ctx, P), np.array(E), weights=W)
        return C.as_2() if n == 2 else C.as_3()
    return M.ComplexSimplicialEuclidian(positions(ctx, P), np.array(E), weights=W)


# what is known about a complex, under names that do not depend on the numbering: name -> (kind, {key: value})
# kinds: an integer is the power of the unit of length; point; vector (with a power)

def keys(C, name):
    K = [ints(c) for c in C.topology.corners]
    return [[frozenset(name[v] for v in np.ravel(r)) for r in Kd] for Kd in K]


def by(keys, values):
    values = list(values)
    assert len(keys) == len(values), 'one value per element'
    return dict(zip(keys, values))


def boundary_keys(C, K):
    B = C.topology.boundary
    return [] if B is None else [[K[d][i] for i in iflat(p)] for d, p in enumerate(B.parent_idx)]


def describe_topology(ctx, C, name):
    T = C.topology
    K = keys(C, name)
    n = T.n_dim
    out = {'elements': (0, {(d, k): 1 for d in range(n + 1) for k in K[d]}), 'closed': (0, {0: int(bool(T.is_closed))}), 'oriented': (0, {0: int(bool(T.is_oriented))}), 'manifold': (0, {0: int(bool(T.is_manifold))})}
    out['components'] = (0, {frozenset(frozenset(k for k in sub) for sub in [[K[n][i] for i in iflat(S.parent_idx[-1])]]): 1 for S in T.split_connected_components()})
    out['boundary'] = (0, {(d, k): 1 for d, ks in enumerate(boundary_keys(C, K)) for k in ks})
    for d in range(n + 1):
        out['degree %d' % d] = (0, by(K[d], rows(T.degree[d]))) if d < len(T.degree) else (0, {})
    # incidences without sign, derivatives up to orientation: product of the signs around is the same
    M = [imat(m) for m in T.matrices]
    for d, m in enumerate(M):
        out['incidence %d' % d] = (0, {(K[d][i], K[d + 1][j]): abs(int(m[i][j])) for i in range(len(K[d])) for j in range(len(K[d + 1]))})
    for d, m in enumerate(M):
        out['derivative products %d' % d] = (0, {(K[d][i], K[d][j]): sum(a * b for a, b in zip(m[i], m[j])) * orient(ctx, C, name, d, i) * orient(ctx, C, name, d, j) for i in range(len(K[d])) for j in range(len(K[d]))})
    for d, m in enumerate(T.averaging_operators_0):
        out['average %d' % d] = (0, table(K[d], K[0], m))
    for d, m in enumerate(T.averaging_operators_N):
        out['average N %d' % d] = (0, table(K[d], K[n], m))
    return out


def table(a, b, m):
    m = m.toarray() if hasattr(m, 'toarray') else m
    m = m.plain() if hasattr(m, 'plain') else np.asarray(m)
    return {(x, y): float(m[i][j]) for i, x in enumerate(a) for j, y in enumerate(b)}


def orient(ctx, C, name, d, i):
    """sign of the stored order of the corners of an element, relative to the order of their names"""
    if d == 0:
        return 1
    r = [name[v] for v in np.ravel(ints(C.topology.corners[d])[i])]
    q = sorted(r)
    return perm_sign([q.index(x) for x in r])


def describe_metric(ctx, C, name, weighted):
    K = keys(C, name)
    n = C.topology.n_dim
    PM, DM = C.metric
    B = boundary_keys(C, K)
    out = {}
    for d in range(n + 1):
        out['primal position %d' % d] = ('point', by(K[d], rows(C.primal_position[d])))
        out['primal metric %d' % d] = (d, by(K[d], rows(PM[d])))
        out['dual metric %d' % d] = (n - d, by(K[d], rows(DM[n - d])))
        out['hodge %d' % d] = (n - 2 * d, by(K[d], rows(C.hodge_DP[d])))
        out['hodge back %d' % d] = (2 * d - n, by(K[d], rows(C.hodge_PD[d])))
        dual = K[d] + [('boundary', k) for k in (B[d - 1] if d and B else [])]
        out['dual position %d' % d] = ('point', by(dual, rows(C.dual_position[n - d])))
        out['closed dual metric %d' % d] = (n - d, by(dual, rows(C.dual_metric_closed[n - d])))
    return out


def describe_verdicts(ctx, C, name):
    out = {'well centered': (0, {0: int(bool(C.is_well_centered))}), 'delaunay': (0, {0: int(bool(C.is_pairwise_delaunay))}), 'positive': (0, {0: int(bool(C.positive_dual_metric))})}
    return out


def moments(ctx, C, label, out, power):
    """sums over all elements of a derived complex, in any order"""
    from pycomplex.topology.util import np as code
    E = [list(map(int, np.ravel(e))) for e in ints(C.topology.corners[-1])]
    P = rows(C.vertices)
    n = len(P[0])
    out[label + ' vertices'] = (0, {0: len(P)})
    out[label + ' elements'] = (0, {0: len(E)})
    out[label + ' sum of vertices'] = ('point', {0: [sum(p[d] for p in P) * frac(ctx, 1, len(P)) for d in range(n)]})
    out[label + ' sum of corners'] = ('point', {0: [sum(P[v][d] for e in E for v in e) * frac(ctx, 1, len(E) * len(E[0])) for d in range(n)]})
    out[label + ' spread of elements'] = (2, {0: sum(sum((P[v][d] - P[u][d]) ** 2 for d in range(n)) for e in E for v, u in itertools.combinations(e, 2))})
    return out


def describe_refined(ctx, C, name, weighted):
    out = {}
    k = C.topology.n_dim
    moments(ctx, C.subdivide_fundamental(), 'fundamental subdivision', out, k)
    if k > 1:
        moments(ctx, C.subdivide_cubical(), 'cubical subdivision', out, k)
    moments(ctx, C.subdivide_simplicial(), 'simplicial subdivision', out, k)
    if k == 2:
        moments(ctx, C.subdivide_loop(), 'loop subdivision', out, k)
        if not weighted:
            moments(ctx, C.subdivide_loop(smooth=True), 'smooth loop subdivision', out, k)
    if not weighted:
        out['smooth'] = ('point', by(keys(C, name)[0], rows(C.smooth().vertices)))
    B = C.boundary
    if B is not None and k > 1:
        moments(ctx, B, 'boundary', out, k - 1)
    return out


def describe_surface(ctx, C, name, sign=1):
    K = keys(C, name)
    out = {}
    sg = lambda l: [[x * sign for x in r] for r in rows(l)]
    out['triangle normals'] = (('vector', 2), by(K[2], sg(C.triangle_normals())))
    out['triangle centroids'] = ('point', by(K[2], rows(C.triangle_centroids())))
    out['vertex normals'] = (('vector', 2), by(K[0], sg(C.vertex_normals())))
    out['vertex areas'] = (2, by(K[0], rows(C.vertex_areas())))
    out['edge lengths'] = (1, by(K[1], rows(C.edge_lengths())))
    out['area'] = (2, {0: C.area()})
    if C.topology.is_closed:
        out['volume'] = (3, {0: C.volume() * sign})
        out['center of mass'] = ('point', {0: rows(C.center_of_mass())})
    return out


# ------------------------------------------------------------------ picking and sampling at given points
QUERY = ('curve', 'two', 'band', 'tets')


def facet_sign(C, K, name, i):
    """dual edges cross facets: orientation of the stored facet relative to the order of the names"""
    return orient(None, C, name, C.topology.n_dim - 1, i)


def inputs(ctx, mesh, C, E, P):
    """points in every element, and forms by the names of what they live on"""
    name = list(range(len(P)))
    K = keys(C, name)
    n = C.topology.n_dim
    L = [[(i * 3 + j * 5) % 7 + 1 for j in range(n + 1)] for i in range(len(E))]
    pts = [combine([P[v] for v in e], [a / sum(l) if isinstance(P[0][0], float) else frac(ctx, a, sum(l)) for a in l]) for e, l in zip(E, L)]
    B = boundary_keys(C, K)
    F = dict(zip(K[0], rows(ctx.real('f', (len(P),), -2, 2))))
    d = K[n] + [('boundary', k) for k in (B[n - 1] if B else [])]
    G = dict(zip(d, rows(ctx.real('d', (len(d),), -2, 2))))
    H = dict(zip(K[n - 1], rows(ctx.real('flux', (len(K[n - 1]),), -2, 2))))
    return pts, F, G, H


def describe_queries(ctx, C, name, weighted, sign, given_inputs, g=(1, None, None), moving=False, still=None):
    pts, F, G, H = given_inputs
    K = keys(C, name)
    n = C.topology.n_dim
    m = len(pts[0])
    B = boundary_keys(C, K)
    still = g[2] is None and not moving if still is None else still
    g = g if g[2] is not None else identity(m)
    x = nested(ctx, [moved(ctx, 'point', p, g) for p in pts]) if any(not isinstance(v, (int, float)) for p in pts for v in moved(ctx, 'point', p, g)) else given([moved(ctx, 'point', p, g) for p in pts])
    out = {}
    i, b = C.pick_primal(x)
    T = [list(map(int, r)) for r in ints(C.topology.elements[-1])]
    i = [int(j) for j in rows(i)]
    out['picked'] = (0, {(q, K[n][j]): 1 for q, j in enumerate(i)})
    out['coordinates'] = (0, {(q, name[v]): c for q, (j, r) in enumerate(zip(i, rows(b))) for v, c in zip(T[j], r)})
    out['nearest'] = (0, {(q, name[int(j)]): 1 for q, j in enumerate(rows(C.pick_dual(x)))})
    f = arr(ctx, [F[k] for k in K[0]])
    out['samples'] = (0, dict(enumerate(rows(C.sample_primal_0(f, x)))))
    if n < 3 and (not weighted or n == 1):
        i, b, dom = C.pick_fundamental(x)
        dom = [[int(v) for v in r] for r in rows(dom)]
        out['domain'] = (0, {(q, d, K[d][e]): 1 for q, r in enumerate(dom) for d, e in enumerate(r)})
        dual = K[n] + [('boundary', k) for k in (B[n - 1] if B else [])]
        h = arr(ctx, [G[k] for k in dual])
        if still or n == 1:
            out['dual samples'] = (0, dict(enumerate(rows(C.sample_dual_0(h, x)))))
        out['dual samples, plain'] = (0, dict(enumerate(rows(C.sample_dual_0(h, x, weighted=False)))))
    if still and not weighted:
        flux = [H[k] * facet_sign(C, K, name, j) * sign for j, k in enumerate(K[n - 1])]
        S = C.topology.dual.selector_interior[-2]
        v = rows(C.dual_flux_to_dual_velocity(S.T * arr(ctx, flux)))
        out['velocity'] = (('vector', -1), by(K[n], v[:len(K[n])]))
    if n == 2 and m == 2:
        # cut along a line that crosses some of the elements
        c = combine(pts, [frac(ctx, 1, len(pts))] * len(pts))
        to = moved(ctx, ('vector', 0), [frac(ctx, 5, 8), frac(ctx, -1, 4)], g)
        c = moved(ctx, 'point', c, g)
        as_array = lambda l: given(l) if all(isinstance(v, (int, float)) for v in l) else arr(ctx, l)
        for label, clip in (('cut', True), ('split', False)):
            D = C.clip(as_array(c), as_array(to), clip)
            V = rows(D.vertices)
            area = [0, 0, 0]
            for e in ints(D.topology.elements[-1]):
                a, p, q = [V[int(v)] for v in e]
                w = (p[0] - a[0]) * (q[1] - a[1]) - (p[1] - a[1]) * (q[0] - a[0])
                area = [area[0] + w] + [z + w * (a[d] + p[d] + q[d]) for d, z in enumerate(area[1:])]
            out[label + ' area'] = (2, {0: area[0] * sign})
            out[label + ' center'] = ('point', {0: [z / area[0] * frac(ctx, 1, 3) for z in area[1:]]})
    return out


# ------------------------------------------------------------------ comparing
def moved(ctx, kind, v, g):
    """value that is expected after a motion: scale, matrix, translation"""
    s, R, t = g
    if isinstance(kind, int):
        return v * power(s, kind)
    rot = lambda x: [sum(r * a for r, a in zip(row, x)) for row in R] if R else list(x)
    if kind == 'point':
        return [s * a + b for a, b in zip(rot(v), t)]
    return [a * power(s, kind[1]) for a in rot(v)]


def power(s, k):
    r = 1
    for _ in range(abs(k)):
        r = r * s
    return r if k >= 0 else 1 / r


def compare(ctx, a, b, g):
    ctx.check('same kinds of answers', sorted(a) == sorted(b))
    for q in a:
        kind, va = a[q]
        vb = b[q][1]
        ctx.check(q + ': same elements', set(va) == set(vb))
        left, right = [], []
        for k in va:
            x, y = moved(ctx, kind, va[k], g), vb[k]
            if isinstance(g[0], float):
                # compare in the unit of the original
                z = power(g[0], -(kind if isinstance(kind, int) else 1 if kind == 'point' else kind[1]))
                x, y = [[v * z for v in u] if isinstance(u, list) else u * z for u in (x, y)]
            left += x if isinstance(x, list) else [x]
            right += y if isinstance(y, list) else [y]
        diff = [(x, y) for x, y in zip(left, right) if not (isinstance(x, (int, float)) and isinstance(y, (int, float)) and x == y)]
        if diff:
            ctx.close(q, arr(ctx, [y for _, y in diff]), arr(ctx, [x for x, _ in diff]), tol=1e-5)


def identity(n):
    return (1, None, [0] * n)


DESCRIBE = {
    'topology': lambda ctx, C, name, w, s: describe_topology(ctx, C, name),
    'metric': lambda ctx, C, name, w, s: describe_metric(ctx, C, name, w),
    'verdicts': lambda ctx, C, name, w, s: describe_verdicts(ctx, C, name),
    'refined': lambda ctx, C, name, w, s: describe_refined(ctx, C, name, w),
    'surface': lambda ctx, C, name, w, s: describe_surface(ctx, C, name, s),
    'queries': describe_queries,
}
FREE = {'curve': (1, 0), 'curve2': (1, 1), 'two': (2, 1), 'band': (2, 0), 'fold': (3, 2), 'closed': (0, 1), 'tets': (3, 2)}


def setup(ctx, mesh, weighted, free, plain=False):
    E, P = [list(e) for e in MESH[mesh][0]], [list(p) for p in MESH[mesh][1]]
    if not plain:
        P = exact(ctx, P)
    W = [(((i * 5 + 2) % 7) / 64. if weighted else 0) for i in range(len(P))]
    if free:
        i, j = FREE[mesh]
        P[i][j] = P[i][j] + rows(ctx.real('x', (1,), -.0625, .0625))[0]
    return E, P, W


HEAVY = ('closed', 'tets')
NUMBER = ([(m, q, False) for m in MESH for q in ('topology', 'metric', 'refined')] + [(m, 'surface', False) for m in ('fold', 'closed')] + [(m, 'metric', True) for m in ('curve', 'two', 'tets')]
          + [(m, 'verdicts', False) for m in ('curve', 'two', 'band', 'tets')] + [(m, 'queries', w) for m in QUERY for w in (False, True)])


def parts(m, q, w):
    return 2 if (m in HEAVY and q in ('metric', 'refined', 'queries', 'topology') or q in ('refined', 'metric', 'verdicts') and m in ('band', 'two', 'fold', 'tets')) else 1


@REG.family('numbering/{1}/{0}/weights:{2}/{3}', [(m, q, w, i) for m, q, w in NUMBER for i in range(parts(m, q, w))], timeout=120)
@REG.family('numbering/{1}/{0}/weights:{2}/{3}/any', [(m, q, w, i, True) for m, q, w in NUMBER if q in ('metric', 'refined') and (m in HEAVY or q == 'refined') and not w for i in range(parts(m, q, w))], tier='thorough', timeout=1500)
def numbering(ctx, mesh, what, weighted, part, free=None):
    """any numbering of vertices and elements, and order of corners"""
    ctx.fork_signs()
    if free is None:
        free = what in ('metric', 'verdicts', 'surface') and mesh not in HEAVY
    E, P, W = setup(ctx, mesh, weighted, free, what == 'queries')
    G = renumberings(E, len(P))
    G = G[part::parts(mesh, what, weighted)]
    if what == 'queries':
        # velocities depend on the orientation
        G = [g for g in G if g[3] > 0]
    g = G[int(rows(ctx.int('renumbering', (1,), 0, len(G) - 1))[0])]
    t = identity(len(P[0])) if free or what in ('topology', 'verdicts', 'queries') else (1, None, rows(ctx.real('shift', (len(P[0]),), -4, 4)))
    F, Q, V, name = renumber(E, [moved(ctx, 'point', p, t) for p in P] if not free else P, W, g)
    w = (lambda l: given(l)) if weighted else (lambda l: None)
    C, D = build(ctx, E, P, w(W)), build(ctx, F, Q, w(V))
    f = DESCRIBE[what]
    extra = (inputs(ctx, mesh, C, E, P),) if what == 'queries' else ()
    compare(ctx, f(ctx, C, list(range(len(P))), weighted, 1, *extra), f(ctx, D, name, weighted, g[3], *extra), t)


def motion(ctx, kind, n):
    if kind == 'unit':
        s = rows(ctx.real('scale', (1,), .0625, 16))[0]
        return (s, None, [0] * n)
    if kind == 'place':
        return (1, None, rows(ctx.real('shift', (n,), -64, 64)))
    # turn in the plane of two axes
    u = rows(ctx.real('turn', (1,), -1, 1))[0]
    d = 1 + u * u
    c, s = (1 - u * u) / d, 2 * u / d
    a, b = {'turn01': (0, 1), 'turn12': (1, 2), 'turn02': (0, 2)}[kind]
    R = [[int(i == j) for j in range(n)] for i in range(n)]
    R[a][a], R[a][b], R[b][a], R[b][b] = c, -s, s, c
    return (1, R, [0] * n)


def turns(m):
    n = len(MESH[m][1][0])
    return ['turn01', 'turn12', 'turn02'][:{1: 0, 2: 1, 3: 3}[n]]


@REG.family('{1}/{2}/{0}/weights:{3}', [(m, k, q, False) for m in MESH for k in ['unit', 'place'] + turns(m)[:1] for q in ('metric', 'refined')] + [(m, k, 'surface', False) for m in ('fold', 'closed') for k in ['unit', 'place'] + turns(m)]
            + [(m, k, 'queries', False) for m in QUERY for k in ['unit', 'place'] + turns(m)]
            + [(m, k, 'metric', True) for m in ('curve', 'two') for k in ('place', 'turn01') if not (m == 'curve' and k != 'place')], timeout=120)
def placement(ctx, mesh, kind, what, weighted):
    """any position, unit of length, and direction"""
    ctx.fork_signs()
    E, P, W = setup(ctx, mesh, weighted, False)
    g = motion(ctx, kind, len(P[0]))
    Q = [moved(ctx, 'point', p, g) for p in P]
    w = (lambda l: given(l)) if weighted else (lambda l: None)
    C, D = build(ctx, E, P, w(W)), build(ctx, E, Q, w(W))
    f = DESCRIBE[what]
    name = list(range(len(P)))
    if what == 'queries':
        extra = inputs(ctx, mesh, C, E, P)
        compare(ctx, f(ctx, C, name, weighted, 1, extra, moving=True), f(ctx, D, name, weighted, 1, extra, g), g)
    else:
        compare(ctx, f(ctx, C, name, weighted, 1), f(ctx, D, name, weighted, 1), g)


MOTIONS = {
    1: [(2. ** -12, None, [0.]), (2. ** 12, None, [0.]), (1, [[-1.]], [3.]), (1, None, [1000.])],
    2: [(2. ** -12, None, [0., 0.]), (2. ** 12, None, [0., 0.]), (1, [[.6, -.8], [.8, .6]], [0., 0.]), (1, [[0., -1.], [1., 0.]], [64., -3.]), (.125, [[-1., 0.], [0., -1.]], [1., 1.])],
    3: [(2. ** -12, None, [0.] * 3), (2. ** 12, None, [0.] * 3), (1, [[.6, -.8, 0.], [.8, .6, 0.], [0., 0., 1.]], [0., 5., 0.]), (1, [[0., 0., 1.], [1., 0., 0.], [0., 1., 0.]], [64., -3., 1.])],
}


PLACED = [(m, q, False) for m in MESH for q in ('metric', 'refined', 'verdicts', 'topology')] + [(m, 'surface', False) for m in ('fold', 'closed')] + [(m, q, True) for m in ('curve', 'two', 'tets') for q in ('metric', 'verdicts')] \
    + [(m, 'queries', w) for m in QUERY for w in (False, True)]


@REG.family('placed/{1}/{0}/weights:{2}', PLACED)
def placed(ctx, mesh, what, weighted):
    """complexes that are very small, very large, turned and moved"""
    E, P, W = setup(ctx, mesh, weighted, False, True)
    L = MOTIONS[len(P[0])]
    g = L[int(rows(ctx.int('motion', (1,), 0, len(L) - 1))[0])]
    w = (lambda s: given([v * s * s for v in W])) if weighted else (lambda s: None)
    C, D = build(ctx, E, P, w(1)), build(ctx, E, [moved(ctx, 'point', p, g) for p in P], w(g[0]))
    name = list(range(len(P)))
    if what == 'queries':
        extra = inputs(ctx, mesh, C, E, P)
        compare(ctx, describe_queries(ctx, C, name, weighted, 1, extra, still=True), describe_queries(ctx, D, name, weighted, 1, extra, g, still=True), g)
    else:
        f = DESCRIBE[what]
        ctx.check('asked', True)
        compare(ctx, f(ctx, C, name, weighted, 1), f(ctx, D, name, weighted, 1), g)


# ------------------------------------------------------------------ grids
GRIDS = {'2': ((2,), [1., .5]), '21': ((2, 1), [1., .75]), '22': ((2, 2), [.5, 1.]), '112': ((1, 1, 2), [.5, 1., .75])}


def symmetries(n):
    """axis orders and mirrors of a cube"""
    out = []
    for p in itertools.permutations(range(n)):
        for m in itertools.product((0, 1), repeat=n):
            out.append((p, m))
    return out


def regrids(shape, cubes, nv):
    """(new number of every vertex, order of the cubes, symmetry of every cube)"""
    n, N = len(shape), len(cubes)
    one, order = list(range(nv)), list(range(N))
    still = (tuple(range(n)), (0,) * n)
    out = []
    for i in range(nv - 1):
        for j in (i + 1, nv - 1 - i):
            if i < j:
                p = list(one)
                p[i], p[j] = j, i
                out.append((p, order, [still] * N))
    for s in range(1, N):
        out.append((one, order[s:] + order[:s], [still] * N))
    for q in symmetries(n):
        if q != still:
            out.append((one, order, [q] * N))
    return out


def grid_class(kind, n):
    from pycomplex.complex import regular as R, cubical as Q
    if kind == 'regular':
        return getattr(R, 'ComplexRegular%d' % n)
    return Q.ComplexCubical


def make_grid(ctx, kind, n, cubes, P):
    from pycomplex.topology.cubical import TopologyCubical
    return grid_class(kind, n)(vertices=positions(ctx, P), topology=TopologyCubical.from_cubes(np.array(cubes)))


def describe_grid(ctx, C, name, kind, pts, forms, g, oriented, velocities=None):
    K = keys(C, name)
    n = C.topology.n_dim
    B = boundary_keys(C, K)
    out = describe_metric(ctx, C, name, False) if kind == 'regular' else {}
    for d in range(n + 1):
        out['position %d' % d] = ('point', by(K[d], rows(C.primal_position[d])))
    for d, m in enumerate(C.topology.averaging_operators_0):
        out['average %d' % d] = (0, table(K[d], K[0], m))
    for d, m in enumerate(C.topology.averaging_operators_N):
        out['average N %d' % d] = (0, table(K[d], K[n], m))
    out['smooth'] = ('point', by(K[0], rows(C.smooth().vertices)))
    out['boundary'] = (0, {(d, k): 1 for d, ks in enumerate(B) for k in ks})
    if oriented:
        out['products'] = (0, {(d, a, b): abs(imat(m)[i][j]) for d, m in enumerate(C.topology.matrices) for i, a in enumerate(K[d]) for j, b in enumerate(K[d + 1])})
        moments(ctx, C.subdivide_cubical(), 'subdivision', out, n)
        moments(ctx, C.subdivide_cubical(smooth=True), 'smooth subdivision', out, n)
        if n < 3:
            moments(ctx, C.subdivide_fundamental(), 'fundamental subdivision', out, n)
        if n == 2:
            moments(ctx, C.as_22().subdivide_simplicial(), 'simplicial subdivision', out, n)
    if kind == 'regular' and pts:
        F, G = forms
        x = [moved(ctx, 'point', p, g) for p in pts]
        x = given(x) if all(isinstance(v, (int, float)) for r in x for v in r) else nested(ctx, x)
        i, b = C.pick_primal(x)
        out['picked'] = (0, {(q, K[n][int(j)]): 1 for q, j in enumerate(rows(i))})
        out['nearest'] = (0, {(q, name[int(j)]): 1 for q, j in enumerate(rows(C.pick_dual(x)))})
        out['samples'] = (0, dict(enumerate(rows(C.sample_primal_0(arr(ctx, [F[k] for k in K[0]]), x)))))
        dual = K[n] + [('boundary', k) for k in (B[n - 1] if B else [])]
        out['dual samples'] = (0, dict(enumerate(rows(C.sample_dual_0(arr(ctx, [G[k] for k in dual]), x)))))
    if velocities:
        S = C.topology.dual.selector_interior[-2]
        v = rows(C.dual_flux_to_dual_velocity(S.T * arr(ctx, velocities)))
        out['velocity'] = (('vector', -1), by(K[n], v[:len(K[n])]))
    return out


def grid_inputs(ctx, C, L, h):
    name = list(range(len(L)))
    K = keys(C, name)
    n = len(L[0])
    B = boundary_keys(C, K)
    F = dict(zip(K[0], rows(ctx.real('f', (len(K[0]),), -2, 2))))
    d = K[n] + [('boundary', k) for k in (B[n - 1] if B else [])]
    G = dict(zip(d, rows(ctx.real('d', (len(d),), -2, 2))))
    lo, hi = [min(p[a] for p in L) for a in range(n)], [max(p[a] for p in L) for a in range(n)]
    pts = [[a + (b - a) * t for a, b, t in zip(lo, hi, ts)] for ts in ([.3125, .8125, .6875], [.8125, .3125, .1875])]
    return pts, (F, G)


def grid_points(shape, h):
    return [[float(i * s) for i, s in zip(p, h)] for p in itertools.product(*[range(s + 1) for s in shape])]


@REG.family('grid-numbering/{0}/{1}', [('regular', '2'), ('regular', '21'), ('regular', '22'), ('plain', '21'), ('plain', '22')])
@REG.family('grid-numbering/{0}/{1}', [('regular', '112'), ('plain', '112')], tier='thorough', timeout=900)
def grid_numbering(ctx, kind, which):
    """any numbering of the vertices and cubes, and any choice of axes of the cubes"""
    ctx.fork_signs()
    shape, h = GRIDS[which]
    n = len(shape)
    cubes = [np.array(c).reshape((2,) * n) for c in grid_cubes(shape)]
    P = grid_points(shape, h)
    if kind == 'plain':
        P = exact(ctx, P)
        P[1][0] = P[1][0] + rows(ctx.real('x', (1,), -.125, .125))[0]
    G = regrids(shape, cubes, len(P))
    p, order, sym = G[int(rows(ctx.int('renumbering', (1,), 0, len(G) - 1))[0])]
    q = []
    for e in order:
        axes, mirror = sym[e]
        c = np.transpose(cubes[e], axes)
        for a, m in enumerate(mirror):
            if m:
                c = np.flip(c, a)
        q.append([p[int(v)] for v in c.ravel()])
    Q, name = [None] * len(P), [None] * len(P)
    for i in range(len(P)):
        Q[p[i]], name[p[i]] = P[i], i
    C = make_grid(ctx, kind, n, [c.tolist() for c in cubes], P)
    D = make_grid(ctx, kind, n, [np.array(c).reshape((2,) * n).tolist() for c in q], Q)
    still = len(set(sym)) == 1 and sym[0] == (tuple(range(n)), (0,) * n)
    pts, forms = grid_inputs(ctx, C, P, h) if kind == 'regular' and still else (None, None)
    f = lambda X, name: describe_grid(ctx, X, name, kind, pts, forms, identity(n), True)
    compare(ctx, f(C, list(range(len(P)))), f(D, name), identity(n))


@REG.family('grid-{1}/{0}/{2}', [(k, m, w) for m in ('unit', 'place', 'axes') for k, w in (('regular', '2'), ('regular', '21'), ('regular', '22'), ('plain', '21')) if not (m == 'axes' and w == '2')])
@REG.family('grid-{1}/{0}/{2}', [(k, m, '112') for m in ('unit', 'place', 'axes') for k in ('regular', 'plain')], tier='thorough', timeout=900)
def grid_placement(ctx, kind, motion_kind, which):
    ctx.fork_signs()
    shape, h = GRIDS[which]
    n = len(shape)
    cubes = [np.array(c).reshape((2,) * n).tolist() for c in grid_cubes(shape)]
    P = grid_points(shape, h)
    if motion_kind == 'axes':
        # the axes of space in another order
        ps = [p for p in itertools.permutations(range(n)) if list(p) != list(range(n))]
        p = ps[int(rows(ctx.int('axes', (1,), 0, len(ps) - 1))[0])]
        g = (1, [[int(j == p[i]) for j in range(n)] for i in range(n)], [0] * n)
    else:
        g = motion(ctx, motion_kind, n)
    C = make_grid(ctx, kind, n, cubes, P)
    D = make_grid(ctx, kind, n, cubes, [moved(ctx, 'point', p, g) for p in (exact(ctx, P) if motion_kind != 'axes' else P)])
    name = list(range(len(P)))
    pts, forms = grid_inputs(ctx, C, P, h)
    if motion_kind == 'axes':
        pts = None
    compare(ctx, describe_grid(ctx, C, name, kind, pts, forms, identity(n), True), describe_grid(ctx, D, name, kind, pts, forms, g, True), g)


@REG.family('grid-placed/{0}/{1}', [('regular', '2'), ('regular', '21'), ('regular', '22'), ('plain', '21'), ('plain', '22')])
@REG.family('grid-placed/{0}/{1}', [('regular', '112'), ('plain', '112')], tier='thorough', timeout=900)
def grid_placed(ctx, kind, which):
    """grids that are very small or very large, and moved"""
    shape, h = GRIDS[which]
    n = len(shape)
    cubes = [np.array(c).reshape((2,) * n).tolist() for c in grid_cubes(shape)]
    P = grid_points(shape, h)
    L = [(2. ** -12, None, [0.] * n), (2. ** 12, None, [0.] * n), (1, None, [64., -3., 5.][:n]), (.125, None, [-4.] * n)]
    g = L[int(rows(ctx.int('motion', (1,), 0, len(L) - 1))[0])]
    C, D = make_grid(ctx, kind, n, cubes, P), make_grid(ctx, kind, n, cubes, [moved(ctx, 'point', p, g) for p in P])
    name = list(range(len(P)))
    pts, forms = grid_inputs(ctx, C, P, h)
    flux = rows(ctx.real('flux', (C.topology.n_elements[n - 1],), -2, 2)) if kind == 'regular' and n > 1 else None
    compare(ctx, describe_grid(ctx, C, name, kind, pts, forms, identity(n), True, flux), describe_grid(ctx, D, name, kind, pts, forms, g, True, flux), g)


# ------------------------------------------------------------------ spheres
TURN = {
    'cycle': [[0, 0, 1], [1, 0, 0], [0, 1, 0]],
    'z': [[.6, -.8, 0], [.8, .6, 0], [0, 0, 1]],
    'x': [[1, 0, 0], [0, .28, -.96], [0, .96, .28]],
    'plane': [[.6, -.8], [.8, .6]],
    'back': [[-1, 0, 0], [0, -1, 0], [0, 0, 1]],
}


def sphere(ctx, E, P, r):
    from pycomplex.complex.simplicial import spherical as M
    if len(E[0]) == 3 and len(P[0]) == 3:
        from pycomplex.topology.simplicial import TopologyTriangular
        return M.ComplexSpherical2(vertices=given(P), topology=TopologyTriangular.from_simplices(np.array(E)).fix_orientation(), radius=r)
    return M.ComplexSpherical(vertices=given(P), simplices=np.array(E), radius=r)


def sphere_inputs(ctx, C, E, P):
    from props.C22 import unit
    pts, F, G, H = inputs(ctx, None, C, E, P)
    return [unit(p) for p in pts], F, G, H


def describe_sphere(ctx, C, name, case, R=None):
    pts, F, G, H = case
    K = keys(C, name)
    n = C.topology.n_dim
    B = boundary_keys(C, K)
    PM, DM = C.metric if n < 3 and C.is_well_centered else (None, None)
    out = {'well centered': (0, {0: int(bool(C.is_well_centered))})}
    for d in range(n + 1):
        out['position %d' % d] = ('point', by(K[d], rows(C.primal_position[d])))
        if PM:
            out['primal metric %d' % d] = (0, by(K[d], rows(PM[d])))
            out['dual metric %d' % d] = (0, by(K[d], rows(DM[n - d])))
    x = given([moved(ctx, 'point', p, (1, R, [0] * len(p))) for p in pts])
    i, b = C.pick_primal(x)
    T = [list(map(int, r)) for r in ints(C.topology.elements[-1])]
    i = [int(j) for j in rows(i)]
    out['picked'] = (0, {(q, K[n][j]): 1 for q, j in enumerate(i)})
    out['coordinates'] = (0, {(q, name[v]): c for q, (j, r) in enumerate(zip(i, rows(b))) for v, c in zip(T[j], r)})
    out['nearest'] = (0, {(q, name[int(j)]): 1 for q, j in enumerate(rows(C.pick_dual(x)))})
    out['samples'] = (0, dict(enumerate(rows(C.sample_primal_0(arr(ctx, [F[k] for k in K[0]]), x)))))
    if C.is_well_centered and n < 3:
        dual = K[n] + [('boundary', k) for k in (B[n - 1] if B else [])]
        h = arr(ctx, [G[k] for k in dual])
        out['dual samples'] = (0, dict(enumerate(rows(C.sample_dual_0(h, x)))))
        out['dual samples, plain'] = (0, dict(enumerate(rows(C.sample_dual_0(h, x, weighted=False)))))
    if n == 2:
        D = C.subdivide_loop()
        out['loop vertices'] = (('vector', 0), {0: [sum(p[d] for p in rows(D.vertices)) for d in range(3)]})
        out['loop radius'] = (0, {0: D.radius})
    return out


SPHERES = ['circle4', 'arc', 'tetrahedron', 'octahedron', 'cap', 'pair']


@REG.family('sphere-numbering/{0}', [(n,) for n in SPHERES])
def sphere_numbering(ctx, mesh):
    from props import C22
    r = ctx.real('radius', (), .25, 4)
    E, P = [list(e) for e in C22.MESH[mesh][0]], [C22.unit(v) for v in C22.MESH[mesh][1]]
    G = [g for g in renumberings(E, len(P)) if len(E) < 8 or perm_sign(g[0]) > 0 or g[0][0] > 0]
    g = G[int(rows(ctx.int('renumbering', (1,), 0, len(G) - 1))[0])]
    F, Q, V, name = renumber(E, P, [0] * len(P), g)
    C, D = sphere(ctx, E, P, r), sphere(ctx, F, Q, r)
    case = sphere_inputs(ctx, C, E, P)
    compare(ctx, describe_sphere(ctx, C, list(range(len(P))), case), describe_sphere(ctx, D, name, case), identity(len(P[0])))


@REG.family('sphere-turn/{0}/{1}', [(n, t) for n in SPHERES for t in TURN if (t == 'plane') == (n in ('circle4', 'arc'))])
def sphere_turn(ctx, mesh, turn):
    from props import C22
    r = ctx.real('radius', (), .25, 4)
    E, P = [list(e) for e in C22.MESH[mesh][0]], [C22.unit(v) for v in C22.MESH[mesh][1]]
    R = TURN[turn]
    g = (1, R, [0] * len(P[0]))
    C, D = sphere(ctx, E, P, r), sphere(ctx, E, [moved(ctx, 'point', p, g) for p in P], r)
    case = sphere_inputs(ctx, C, E, P)
    name = list(range(len(P)))
    compare(ctx, describe_sphere(ctx, C, name, case), describe_sphere(ctx, D, name, case, R), g)


# ------------------------------------------------------------------ stencils
def entries(f):
    r = f.view_raw() if hasattr(f, 'view_raw') else np.asarray(f)
    return {i: r[i] for i in np.ndindex(*r.shape)}


def pulled(ctx, f, k, n, axes, shift, signed=True):
    """a form on the turned and shifted grid: axes[i] is the new place of axis i"""
    t = entries(f)
    S = [list(itertools.combinations(range(n), d)) for d in range(n + 1)][k]
    shape = f.shape[1:]
    new = [None] * n
    for i in range(n):
        new[axes[i]] = shape[i]
    out = np.empty((len(S),) + tuple(new), dtype=object)
    for (c, *x), v in t.items():
        I = [axes[i] for i in S[c]]
        y = [None] * n
        for i in range(n):
            y[axes[i]] = (x[i] + shift[i]) % shape[i]
        # averages have no direction
        sg = perm_sign([sorted(I).index(a) for a in I]) if signed else 1
        out[(S.index(tuple(sorted(I))),) + tuple(y)] = v * sg
    return arr(ctx, list(out.ravel())).reshape(out.shape)


def stencil_operators(C, even):
    n = C.n_dim
    T = C.topology
    out = [('derivative %d' % k, T.primal[k], k, k + 1, 0) for k in range(n)] + [('dual derivative %d' % k, T.dual[k], k + 1, k, 0) for k in range(n)]
    out += [('average %d' % k, T.averaging_operators_0[k], 0, k, 0) for k in range(n + 1)]
    out += [('hodge %d' % k, C.hodge[k], k, k, 0) for k in range(n + 1)]
    if even:
        out += [('smoother %d %s' % (k, s), C.smoothers(s)[k], k, k, 0) for k in range(n + 1) for s in (True, False)]
        out += [('coarsen %d' % k, C.coarsen[k], k, k, 1) for k in range(n + 1)] + [('refine %d' % k, C.refine[k], k, k, -1) for k in range(n + 1)]
    return out


@REG.family('torus/{0}', [((4,),), ((3,),), ((2, 3),), ((4, 2),), ((2, 2, 2),), ((2, 1, 3),)])
@REG.family('torus/{0}', [((4, 4),), ((2, 4, 2),), ((4, 3, 2),), ((2, 1, 2, 3),)], tier='thorough', timeout=900)
def torus(ctx, shape):
    """shifts along the periodic axes, and exchange of the axes"""
    from pycomplex.stencil.complex import StencilComplex
    n = len(shape)
    even = all(s % 2 == 0 for s in shape)
    h = ctx.real('h', (), .125, 8)
    C = StencilComplex.from_shape(shape, scale=h)
    moves = [(tuple(range(n)), tuple(int(i == j) for j in range(n))) for i in range(n) if shape[i] > 1]
    moves += [(p, (0,) * n) for p in itertools.permutations(range(n)) if list(p) != list(range(n))]
    axes, shift = moves[int(rows(ctx.int('move', (1,), 0, len(moves) - 1))[0])] if len(moves) > 1 else moves[0]
    new = [None] * n
    for i in range(n):
        new[axes[i]] = shape[i]
    D = StencilComplex.from_shape(tuple(new), scale=h)
    for (label, A, i, o, level), (_, B, _, _, _) in zip(stencil_operators(C, even), stencil_operators(D, even)):
        # coarse grids move by whole coarse cells
        s = [2 * v for v in shift] if level else shift
        half = shift
        f = ctx.real('f ' + label, A.shape[1], -1, 1)
        a = A * f
        b = B * pulled(ctx, f, i, n, axes, half if level < 0 else s)
        ctx.close(label, b, pulled(ctx, a, o, n, axes, half if level > 0 else s, not label.startswith('average')))
