"""Derivatives, metrics and positions fit together like those of the continuous calculus"""
import itertools
import math
import numpy as np
from vsym.prop import Registry
from props.lib import *
from props.shapes import *
from props.C04 import ints
from props.C09 import arr, nested, det, dots
from props.C10 import MESH, exact, frac, sub, flat, place, build, domain, top, grid, regular_type, prod
from props.C13 import positions
from props.C13 import indices as given

REG = Registry('C26', bounds='complexes of 1-20 simplices or cubes in 1-3 dimensions, curves and surfaces in 2 and 3 dimensions; one symbolic coordinate at a time, symbolic weights of all vertices, symbolic spacings; all linear functions and linear vector fields; '
               'both orientations', assumptions=['real arithmetic in place of floating point; results compared within 1e-5',
                                                'faces of tetrahedra are acute and (weighted) centers of edges lie on their edge: the metric is only defined to be signed at the top level'])


def table(ctx, m):
    m = m.toarray() if hasattr(m, 'toarray') else m
    return [[int(x) for x in r] for r in np.asarray(plain(m)).tolist()]


def times(M, v):
    """integer matrix times list of numbers or vectors"""
    out = []
    for r in M:
        t = 0
        for c, x in zip(r, v):
            if c:
                t = add(t, [y * c for y in x] if isinstance(x, list) else x * c)
        out.append(t)
    return out


def add(a, b):
    if isinstance(b, list):
        return [x + y for x, y in zip(a, b)] if isinstance(a, list) else list(b)
    return a + b if not isinstance(a, list) else a


def transposed(M):
    return [list(r) for r in zip(*M)]


def vector_area(ps, cube):
    """oriented area of a facet: the vector that, dotted with a velocity, is the flux through it"""
    n = len(ps[0])
    if n == 1:
        return [1]
    if n == 2:
        e = sub(ps[1], ps[0])
        return [e[1], -e[0]]
    if cube:
        a, b = sub(ps[3], ps[0]), sub(ps[1], ps[2])
    else:
        a, b = sub(ps[1], ps[0]), sub(ps[2], ps[0])
    return [(a[1] * b[2] - a[2] * b[1]) * .5, (a[2] * b[0] - a[0] * b[2]) * .5, (a[0] * b[1] - a[1] * b[0]) * .5]


def centroid(ctx, ps):
    return [sum(p[d] for p in ps) * frac(ctx, 1, len(ps)) for d in range(len(ps[0]))]


def compare(ctx, label, a, b, g=None):
    if g:
        # along any direction
        a, b = [[dots(x, g) if isinstance(x, list) else x for x in v] for v in (a, b)]
    fl = lambda v: [y for x in v for y in (x if isinstance(x, list) else [x])]
    a, b = fl(a), fl(b)
    ctx.check(label + ': as many', len(a) == len(b))
    if a:
        ctx.close(label, arr(ctx, a), arr(ctx, b), tol=1e-5)


def interior(T, k):
    """which k-elements are not part of the boundary"""
    n = T.n_elements[k]
    out = [True] * n
    if T.boundary is not None:
        for i in flat(T.boundary.parent_idx[k]):
            out[i] = False
    return out


def facts(ctx, C, P, cube, flatness, weighted=False, sign=1, metric=True, g=None):
    same = lambda label, a, b: compare(ctx, label, a, b, g)
    """all identities between derivatives, metrics and positions"""
    T = C.topology
    n, m = T.n_dim, len(P[0])
    N = [[[int(v) for v in np.ravel(r)] for r in ints(c)] for c in T.corners]
    at = lambda s: [P[v] for v in s]
    D = [transposed(table(ctx, M)) for M in T.matrices]        # derivatives: D[k] maps k-forms to k+1-forms
    inner = interior(T, 0)

    # integrals of linear vector fields over edges, and of their curl over faces
    edge = [sub(P[e[-1]], P[e[0]]) for e in N[1]]
    same('derivative of positions', times(D[0], P), edge)
    if n > 1:
        mid = [centroid(ctx, at(e)) for e in N[1]]
        for i, j in itertools.product(range(m), repeat=2):
            w = []
            for f in N[2]:
                q = at([f[0], f[2], f[3], f[1]] if cube else f)
                w.append(sum(q[a - 1][i] * q[a][j] - q[a - 1][j] * q[a][i] for a in range(len(q))) * (.5 * CURL[cube]))
            same('derivative of a linear 1-form (%d, %d)' % (i, j), times(D[1], [a[i] * b[j] for a, b in zip(mid, edge)]), w)
    if flatness and n == m:
        A = [vector_area(at(f), cube) for f in N[n - 1]]
        c = [centroid(ctx, at(f)) for f in N[n - 1]]
        if n > 1:
            same('constant velocities have no divergence', times(D[n - 1], A), [[0] * n for _ in N[n]])
    if not metric:
        return
    PM, DM = C.metric
    V = rows(PM[n])
    total = sum(V)
    # volume of pairs of primal and dual elements
    for k in range(n + 1):
        same('primal and dual %d-elements span the volume' % k, [sum(p * d for p, d in zip(rows(PM[k]), rows(DM[n - k])))], [total * math.comb(n, k)])
    hodge = rows(C.hodge_DP[1])
    up = transposed(D[0])
    lap = times(up, [[x * h for x in e] for e, h in zip(times(D[0], P), hodge)])
    if flatness:
        same('linear functions are harmonic', [l for l, b in zip(lap, inner) if b], [[0] * m for b in inner if b])
    if n == 2 and not cube and not weighted:
        # gradient of the area
        G = [[0] * m for _ in P]
        for v, t in zip(V, N[2]):
            for a in range(3):
                u, e = sub(P[t[a]], P[t[a - 1]]), sub(P[t[a - 2]], P[t[a - 1]])
                ee, eu = dots(e, e), dots(e, u)
                G[t[a]] = [g + (ee * x - eu * y) / (4 * v) for g, x, y in zip(G[t[a]], u, e)]
        same('laplacian of the positions is the gradient of the area', lap, G)
    if flatness and (n < 3 or cube) and not weighted:
        for i in range(m):
            for j in range(i + 1):
                same('energy of linear functions', [sum(h * e[i] * e[j] for h, e in zip(hodge, edge))], [total if i == j else 0])
    if not flatness or n != m:
        return
    # fluxes of linear velocity fields
    for i, j in itertools.product(range(n), repeat=2):
        same('divergence of linear velocities (%d, %d)' % (i, j), times(D[n - 1], [x[i] * a[j] for x, a in zip(c, A)]), [v * CONVENTION[n, cube] * sign if i == j else 0 for v in V])
    B = C.boundary
    if n > 1 and B.topology.is_oriented:
        # divergence theorem
        Q = rows(B.vertices)
        for i, j in itertools.product(range(n), repeat=2):
            t = 0
            for f in ints(B.topology.corners[n - 1]):
                q = [Q[int(v)] for v in np.ravel(f)]
                t = t + centroid(ctx, q)[i] * vector_area(q, cube)[j]
            same('flux through the boundary (%d, %d)' % (i, j), [t], [total * sign * OUT[cube] if i == j else 0])
    # dual edges
    dual = rows(T.dual.matrices[0].T * nested(ctx, rows(C.dual_position[0])))[:len(A)]
    h = rows(C.hodge_DP[n - 1])
    same('derivative of positions of dual vertices', dual, [[x * z * DUAL[n, cube] * sign for x in a] for a, z in zip(A, h)])
    if n > 1:
        back = rows(C.hodge_PD[n - 1])
        same('linear functions are harmonic on the dual', times(D[n - 1], [[x * z for x in a] for a, z in zip(dual, back)]), [[0] * n for _ in V])


# signs that are a matter of convention: of the derivative of 1-forms, of n-1-forms, of dual edges, and of boundaries
OUT = {False: 1, True: -1}
CURL = {False: -1, True: 1}
CONVENTION = {(1, False): 1, (2, False): -1, (3, False): -1, (1, True): 1, (2, True): 1, (3, True): 1}
DUAL = {(1, False): -1, (2, False): 1, (3, False): 1, (1, True): -1, (2, True): -1, (3, True): -1}
FLAT = ['segment', 'path', 'triangle', 'two', 'two_rev', 'fan4', 'obtuse', 'two_obtuse', 'fan_obtuse', 'tet', 'tet_out', 'two_tets']
BENT = ['curve2', 'tri3', 'fold', 'tetsurface']




def orientation(ctx, E, P):
    q = [P[v] for v in E[0]]
    if len(q) != len(q[0]) + 1:
        return 1
    return 1 if det([sub(p, q[0]) for p in q[1:]]) > 0 else -1


@REG.family('simplicial/{0}/{1}', [(m, i) for m in FLAT for i in range(len(MESH[m][2])) if i < 2], timeout=120)
@REG.family('simplicial/{0}/{1}', [(m, i) for m in FLAT for i in range(len(MESH[m][2])) if i >= 2], tier='thorough', timeout=900)
@REG.family('forms/{0}/{1}', [(m, i, False) for m in BENT for i in range(len(MESH[m][2])) if i < 2])
def simplicial(ctx, mesh, i, metric=True):
    """any position of a vertex"""
    ctx.fork_signs()
    E, P = place(ctx, mesh, MESH[mesh][2][i][:1])
    if metric:
        domain(ctx, top(E), P, [0] * len(P))
    C = build(ctx, E, P)
    facts(ctx, C, P, False, mesh in FLAT, sign=orientation(ctx, ints(C.topology.corners[-1]), MESH[mesh][1]), metric=metric)


def star():
    """twenty acute tetrahedra around a vertex"""
    g = (1 + math.sqrt(5)) / 2
    P = [[0., 0., 0.]] + [q for a in (-1., 1.) for b in (-g, g) for q in ([0., a, b], [a, b, 0.], [b, 0., a])]
    near = lambda a, b: abs(sum((x - y) ** 2 for x, y in zip(P[a], P[b])) - 4) < 1e-6
    E = []
    for t in itertools.combinations(range(1, 13), 3):
        if near(t[0], t[1]) and near(t[1], t[2]) and near(t[0], t[2]):
            a, b, c = [np.array(P[v]) for v in t]
            E.append([0] + list(t if np.dot(np.cross(a, b), c) > 0 else (t[0], t[2], t[1])))
    assert len(E) == 20
    # not all alike
    P = [[x + ((3 * i + 5 * j) % 7 - 3) / 64. for j, x in enumerate(q)] for i, q in enumerate(P)]
    return E, P


MORE = {
    'star': star(),
    'long': ([[0, 1], [2, 1], [2, 3], [4, 3]], [[-1.], [-.25], [.5], [.75], [2.]]),
    'loop': ([[0, 1], [1, 2], [2, 3], [3, 0]], [[0., 0., 0.], [1., 0., .5], [1., 1., 0.], [-.25, .75, .25]]),
    'hexagon': ([[0, 1, 2], [2, 0, 3], [0, 3, 4], [5, 0, 4], [0, 5, 6], [6, 1, 0]], [[.0625, -.0625], [1., 0.], [.5, .875], [-.5, .875], [-1., 0.], [-.5, -.875], [.5, -.9375]]),
    'octahedron': ([[0, 1, 2], [0, 2, 3], [0, 3, 4], [0, 4, 1], [5, 2, 1], [5, 3, 2], [5, 4, 3], [5, 1, 4]], [[0., 0., 1.], [1., .0625, 0.], [0., 1.125, 0.], [-1., 0., .125], [0., -1., 0.], [0., .125, -1.25]]),
}
ALL = dict({m: (E, P) for m, (E, P, _) in MESH.items()}, **MORE)
FLATS = FLAT + ['star', 'long', 'hexagon']


def make(ctx, mesh, W=None):
    from pycomplex.complex.simplicial.euclidian import ComplexSimplicialEuclidian
    E, P = ALL[mesh]
    C = ComplexSimplicialEuclidian(vertices=given(P), simplices=np.array(E), weights=W)
    if not C.topology.is_oriented:
        C = C.copy(topology=C.topology.fix_orientation())
    return C


@REG.family('linear/{0}/weights:{1}', [(m, w) for m in list(ALL) for w in (False, True)])
def linear(ctx, mesh, weighted):
    """larger, curved and weighted complexes: any linear function"""
    E, P = ALL[mesh]
    P = [[float(x) for x in p] for p in P]
    W = [((5 * i + 2) % 7 - 3) / 128. for i in range(len(P))]
    g = rows(ctx.real('gradient', (len(P[0]),), -4, 4))
    C = make(ctx, mesh, given(W) if weighted else None)
    facts(ctx, C, P, False, mesh in FLATS, weighted=weighted, sign=orientation(ctx, ints(C.topology.corners[-1]), P), g=g)


# ------------------------------------------------------------------ grids
SHAPES = [((1,), (0,)), ((3,), (0,)), ((1, 1), (0,)), ((2, 1), (0,)), ((2, 2), (1,)), ((3, 3), ()), ((1, 1, 1), (0,)), ((2, 1, 1), (1,)), ((2, 2, 2), ())]


@REG.family('grid/{0}/{1}', SHAPES)
@REG.family('grid/{0}/{1}', [((2, 2), (0, 1)), ((3, 2), (0,)), ((1, 2, 2), (0,)), ((2, 2, 2), (1,)), ((1, 1, 1), (0, 1, 2))], tier='thorough', timeout=900)
def regular(ctx, shape, free):
    """any spacing of the layers"""
    ctx.fork_signs()
    C, L, X = grid(ctx, shape, free)
    P = [[X[d][i] for d, i in enumerate(v)] for v in L]
    C = regular_type(len(shape))(vertices=nested(ctx, P), topology=C.topology)
    facts(ctx, C, P, True, True)


@REG.family('cubes/{0}', [((2,),), ((2, 1),), ((2, 2),), ((1, 1, 1),), ((2, 1, 1),)])
def cubes(ctx, shape):
    """any position of all vertices: derivatives of linear fields"""
    from pycomplex.complex.cubical import ComplexCubical
    ctx.fork_signs()
    C, L, X = grid(ctx, shape, ())
    P = rows(ctx.real('v', (len(L), len(shape)), -1, 1))
    C = ComplexCubical(vertices=nested(ctx, P), topology=C.topology)
    facts(ctx, C, P, True, False, metric=False)


# ------------------------------------------------------------------ velocities
@REG.family('velocity/{0}/{1}', [(m, w) for m in ('triangle', 'two', 'two_rev', 'hexagon', 'tet', 'two_tets', 'star') for w in (False, True)] + [(s, False) for s in ((2, 1), (2, 2), (2, 1, 1))])
def velocity(ctx, mesh, weighted):
    """velocities from the dual derivative of a linear function: its gradient"""
    if isinstance(mesh, str):
        P = ALL[mesh][1]
        W = [((5 * i + 2) % 7 - 3) / 128. for i in range(len(P))]
        C = make(ctx, mesh, given(W) if weighted else None)
        sign = 1
    else:
        C, L, X = grid(ctx, mesh, ())
        P = [[float(X[d][i]) for d, i in enumerate(v)] for v in L]
        C = regular_type(len(mesh))(vertices=given(P), topology=C.topology)
        sign = 1
    n = len(P[0])
    g = ctx.real('gradient', (n,), -4, 4)
    f = [dots(p, rows(g)) for p in rows(C.dual_position[0])]
    D = C.topology.dual
    flux = D.matrices[0].T * arr(ctx, f)
    v = rows(C.dual_flux_to_dual_velocity(flux))
    for e in range(C.topology.n_elements[n]):
        ctx.close('velocity is the gradient', arr(ctx, v[e]), g, tol=1e-5)
