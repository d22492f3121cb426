"""Product complexes and regular grids"""
import itertools
import numpy as np
from vsym.prop import Registry
from props.lib import *
from props.shapes import *
from props.C02 import symmetry
from props.C04 import ints
from props.C09 import arr

REG = Registry('C07', bounds='products of two and three cubical factors of dimension 1-2 (product dimension 2-4) with up to 9 cubes each, open, closed, branching and non-orientable; '
               'symbolic orientation of the cubes of the factors, symbolic vertex numbering of path/cycle factors (up to 4 vertices), symbolic real vertex positions and chains; '
               'regular grids of every shape with up to 4 cubes per axis (1-3 axes, symbolic shape), single cubes up to dimension 5')


def mirror_some(ctx, tag, b, how):
    n = b.ndim - 1
    return np.array([e if h == '.' else symmetry(ctx, e.ravel(), n, '%s%d' % (tag, i), rotations=h == 'r') for i, (e, h) in enumerate(zip(b, how.ljust(len(b), '.')))])


def cross(a, b, n0):
    """flat corners of the product of two flat cubes"""
    return [x + n0 * y for x in a for y in b]


def check_product(ctx, A, B, P, tag='product'):
    n0 = A.n_elements[0]
    na, nb = A.n_dim, B.n_dim
    ctx.check(tag + ': dimension', P.n_dim == na + nb)
    EA, EB, EP = [ints(c) for c in A.corners], [ints(c) for c in B.corners], [ints(c) for c in P.corners]
    cells = []
    ok = True
    for k in range(na + nb + 1):
        want = {}
        for i in range(na + 1):
            j = k - i
            if 0 <= j <= nb:
                for x, a in enumerate(EA[i]):
                    for y, b in enumerate(EB[j]):
                        c = cross(a, b, n0)
                        want[tuple(sorted(c))] = (i, x, y, c)
        ok = ok and len(EP[k]) == len(want) and {tuple(sorted(e)) for e in EP[k]} == set(want)
        ctx.check(tag + ': %d-cubes are the products of the cubes of the factors' % k, ok)
        l = []
        for e in EP[k]:
            i, x, y, c = want[tuple(sorted(e))]
            l.append((i, x, y, cube_sign(e, c, k)))
        ctx.check(tag + ': %d-cubes have the corners of a cube' % k, all(s is not None for _, _, _, s in l))
        cells.append(l)
    # the n-cubes: in order, oriented as the product
    top = [cross(a, b, n0) for a in EA[-1] for b in EB[-1]]
    ctx.check(tag + ': order and orientation of the n-cubes', len(top) == len(EP[-1]) and all(cube_sign(s, e, na + nb) == 1 for s, e in zip(top, EP[-1])))
    # Leibniz rule; each level of incidence matrices may follow either of both global sign conventions
    MA, MB, MP = [[imat(m) for m in T.matrices] for T in (A, B, P)]

    def conv(M, E, k):
        f = {tuple(sorted(c)): i for i, c in enumerate(E[k - 1])}
        e = E[k][0]
        s = set()
        for c, sg in cube_facets(e):
            r = f[tuple(sorted(c))]
            s.add(M[k - 1][r, 0] * sg * cube_sign(c, E[k - 1][r], k - 1))
        return s.pop() if len(s) == 1 else None
    for k in range(1, na + nb + 1):
        want = np.zeros_like(MP[k - 1])
        row = {(i, x, y): r for r, (i, x, y, s) in enumerate(cells[k - 1])}
        for c, (i, x, y, s) in enumerate(cells[k]):
            if i:
                ca = conv(MA, EA, i)
                for f in np.flatnonzero(MA[i - 1][:, x]):
                    r = row[i - 1, int(f), y]
                    want[r, c] += ca * MA[i - 1][f, x] * s * cells[k - 1][r][3]
            j = k - i
            if j:
                cb = conv(MB, EB, j)
                for f in np.flatnonzero(MB[j - 1][:, y]):
                    r = row[i, x, int(f)]
                    want[r, c] += (-1) ** i * cb * MB[j - 1][f, y] * s * cells[k - 1][r][3]
        got = MP[k - 1]
        ctx.check(tag + ': product rule of the boundary of %d-cubes' % k, bool((got == want).all() or (got == -want).all()))
    for k in range(1, na + nb):
        ctx.check(tag + ': boundary of the boundary', not (MP[k - 1] @ MP[k]).any())
    ctx.check(tag + ': Euler characteristic', sum((-1) ** k * n for k, n in enumerate(P.n_elements)) == sum((-1) ** k * n for k, n in enumerate(A.n_elements)) * sum((-1) ** k * n for k, n in enumerate(B.n_elements)))
    a, b = [ints(T.corners[-1]) for T in (A, B)]
    if all(len(l) <= 2 for t in (a, b) for _, l in facet_table(t, True).values()) and orientable_oracle(a, True) and orientable_oracle(b, True):
        ctx.check(tag + ': oriented iff both factors are', bool(P.is_oriented) == (bool(A.is_oriented) and bool(B.is_oriented)))
        ctx.check(tag + ': closed iff both factors are', not P.is_oriented or bool(P.is_closed) == all(len(l) == 2 for t in (a, b) for _, l in facet_table(t, True).values()))


def build(b, V=None):
    from pycomplex.complex.cubical import ComplexCubical
    if V is None:
        V = np.zeros((int(b.max()) + 1, b.ndim - 1))
    return ComplexCubical(vertices=V, cubes=b)


def check_positions(ctx, A, B, P):
    n0, n1 = A.topology.n_elements[0], B.topology.n_elements[0]
    VA, VB = A.vertices, B.vertices
    i = np.tile(np.arange(n0), n1)
    j = np.repeat(np.arange(n1), n0)
    ctx.close('vertices of a product', P.vertices, np.concatenate([VA[i], VB[j]], axis=1))
    EA, EB, EP = [[ints(c) for c in C.topology.corners] for C in (A, B, P)]
    for k, p in enumerate(P.primal_position):
        w = []
        for e in EP[k]:
            a, b = sorted({v % n0 for v in e}), sorted({v // n0 for v in e})
            w.append(list(sum(rows(VA)[v][d] for v in a) * (1 / len(a)) if False else sum(VA[v, d] for v in a) / len(a) for d in range(VA.shape[1]))
                     + list(sum(VB[v, d] for v in b) / len(b) for d in range(VB.shape[1])))
        for r, x in enumerate(w):
            for d, y in enumerate(x):
                ctx.close('position of the %d-cubes' % k, p[r, d], y)


PAIRS = [('edge', 'r', 'edge', 'r'), ('path3', 'rrr', 'edge', 'r'), ('path3', 'r.r', 'path3', '.rr'), ('cycle3', 'rrr', 'path3', 'r.r'), ('cycle3', 'rrr', 'cycle3', '.rr'), ('cycle_and_loose', 'r..r', 'edge', 'r'),
         ('square', 'r', 'edge', 'r'), ('edge', 'r', 'square', 'r'), ('two_squares', 'rm', 'edge', 'r'), ('path3', 'rrr', 'corner3', '.mm'), ('cube_surface', 'm', 'edge', 'r'), ('moebius3', 'm', 'edge', 'r'),
         ('annulus3', '.m', 'cycle3', 'r.r'), ('bowtie', 'mm', 'edge', 'r'), ('book3', 'm.m', 'edge', 'r'), ('square', 'm', 'square', 'm'), ('torus3x3', 'm', 'cycle3', 'r'), ('cycle3', 'r', 'klein3x3', 'm'),
         ('cube', 'm', 'edge', 'r'), ('edge', 'r', 'cube', 'm'), ('two_squares', 'm', 'two_squares', 'm')]


@REG.family('product/{0}{1}*{2}{3}', PAIRS, timeout=150)
def product(ctx, a, ha, b, hb):
    A = build(mirror_some(ctx, 'a', cubes(a), ha))
    B = build(mirror_some(ctx, 'b', cubes(b), hb))
    P = A.product(B)
    check_product(ctx, A.topology, B.topology, P.topology)


@REG.family('positions/{}*{}', [('edge', 'edge'), ('path3', 'cycle3'), ('two_squares', 'path3'), ('edge', 'corner3'), ('square', 'square'), ('cube', 'edge')])
def positions(ctx, a, b):
    ca, cb = cubes(a), cubes(b)
    A = build(ca, ctx.real('va', (int(ca.max()) + 1, int(ca.ndim))))
    B = build(cb, ctx.real('vb', (int(cb.max()) + 1, int(cb.ndim) - 1)))
    P = A.product(B)
    check_positions(ctx, A, B, P)
    x = ctx.real('chain', (P.topology.n_elements[-1],))
    M = P.topology.matrices
    ctx.close('boundary of the boundary', M[-2] * (M[-1] * x), np.zeros(P.topology.n_elements[-3]))


@REG.family('labels/{}*{}', [('path3', 'edge'), ('edge', 'cycle3'), ('edge', 'square'), ('star3', 'edge')], timeout=150)
@REG.family('labels/{}*{}', [('path3', 'cycle3'), ('square', 'path3')], tier='thorough', timeout=1500)
def labels(ctx, a, b):
    C = dict(CUBES, star3=[[0, 1], [0, 2], [3, 0]])

    def get(n, tag):
        c = np.array(C[n])
        k = {2: 1, 4: 2, 8: 3}[c.shape[1]]
        L = np.array([int(x) for x in rows(ctx.perm(tag, int(c.max()) + 1))])
        return L[c].reshape((-1,) + (2,) * k)
    A, B = build(get(a, 'a')), build(get(b, 'b'))
    check_product(ctx, A.topology, B.topology, A.product(B).topology)


@REG.family('triple/{}*{}*{}', [('edge', 'path3', 'cycle3'), ('cycle3', 'edge', 'cycle3'), ('edge', 'square', 'edge')], timeout=150)
def triple(ctx, a, b, c):
    """associative, and each step is a product"""
    C = [build(mirror_some(ctx, t, cubes(n), 'r'), ctx.real('v' + t, (int(cubes(n).max()) + 1, cubes(n).ndim - 1))) for t, n in zip('abc', (a, b, c))]
    L = C[0].product(C[1]).product(C[2])
    R = C[0].product(C[1].product(C[2]))
    AB = C[0].product(C[1])
    check_product(ctx, AB.topology, C[2].topology, L.topology)
    ctx.close('vertices do not depend on the grouping', L.vertices, R.vertices)
    for k in range(L.topology.n_dim + 1):
        ctx.check('%d-cubes do not depend on the grouping' % k, {tuple(sorted(e)) for e in ints(L.topology.corners[k])} == {tuple(sorted(e)) for e in ints(R.topology.corners[k])})
    A, B = ints(L.topology.corners[-1]), ints(R.topology.corners[-1])
    ctx.check('n-cubes do not depend on the grouping', all(cube_sign(x, y, L.topology.n_dim) == 1 for x, y in zip(A, B)))


@REG.family('grid/{}', [1, 2, 3], timeout=150)
def grid(ctx, n):
    """grids of any shape are the product of their axes"""
    from pycomplex import synthetic
    m = {1: 6, 2: 4, 3: 3}[n]
    shape = tuple(int(x) for x in rows(ctx.int('shape', (n,), 1, m)))
    centering = bool(ctx.bool('centering'))
    G = synthetic.n_cube_grid(shape, centering=centering)
    T = G.topology
    for k in range(n + 1):
        want = sum(int(np.prod([s if i in ax else s + 1 for i, s in enumerate(shape)])) for ax in itertools.combinations(range(n), k))
        ctx.check('number of %d-cubes' % k, T.n_elements[k] == want)
    V = plain(G.vertices)
    want = np.array(list(itertools.product(*[np.arange(s + 1) for s in shape])), dtype=float)
    if centering:
        want = want - np.array(shape) / 2
    ctx.close('vertex positions', V, want)
    off = V.min(axis=0)
    ctx.close('centres of the cubes', np.asarray(G.primal_position[-1]) - off, np.array(list(itertools.product(*[np.arange(s) + .5 for s in shape]))))
    for i, e in enumerate(ints(T.corners[-1])):
        c = V[e]
        o = c.min(axis=0)
        ctx.check('corners follow the axes', bool((c - o == np.array(list(itertools.product((0, 1), repeat=n)))).all()) or cube_sign(
            [e[int(k)] for k in np.lexsort((c - o).T[::-1])], e, n) == 1)
    ctx.check('oriented', bool(T.is_oriented))
    ctx.check('has a boundary', not T.is_closed)
    x = ctx.real('f', (T.n_elements[0],))
    p = np.asarray(G.primal_position[1])
    E = np.asarray(T.corners[1]).astype(int)
    ctx.close('difference along the edges', T.matrices[0].T * x, x[E[:, 1]] - x[E[:, 0]])
    ctx.close('edges have unit length', np.abs(V[E[:, 1]] - V[E[:, 0]]).sum(axis=1), np.ones(len(E)))


@REG.ob('single cube')
def single(ctx):
    from pycomplex import synthetic
    n = int(ctx.int('dim', (), 1, 5))
    C = synthetic.n_cube(n)
    import math
    ctx.check('number of k-cubes', C.topology.n_elements == [2 ** (n - k) * math.comb(n, k) for k in range(n + 1)])
    V = plain(C.vertices).astype(float)
    ctx.check('corners', sorted(map(tuple, V.tolist())) == sorted(itertools.product((0., 1.), repeat=n)))
    M = [imat(m) for m in C.topology.matrices]
    ctx.check('chain complex', not any((M[i] @ M[i + 1]).any() for i in range(n - 1)))
    S = synthetic.n_simplex(n)
    V = plain(S.vertices).astype(float)
    ctx.check('number of k-simplices', S.topology.n_elements == [math.comb(n + 1, k + 1) for k in range(n + 1)])
    d = [np.linalg.norm(V[i] - V[j]) for i in range(n + 1) for j in range(i)]
    ctx.close('equilateral', d, [d[0]] * len(d))
    ctx.close('on the unit sphere', np.linalg.norm(V, axis=1), np.ones(n + 1))


@REG.ob('cross polytope', timeout=150)
def dual_cube(ctx):
    from pycomplex import synthetic
    import math
    n = int(ctx.int('dim', (), 2, 4))
    C = synthetic.n_cube_dual(n)
    T = C.topology
    ctx.check('number of k-simplices', T.n_elements == [2 ** (k + 1) * math.comb(n, k + 1) for k in range(n)])
    ctx.check('closed and oriented', bool(T.is_closed) and bool(T.is_oriented))
    V = plain(C.vertices).astype(float)
    ctx.check('vertices', sorted(map(tuple, np.round(V, 9).tolist())) == sorted(tuple(s if i == a else 0. for i in range(n)) for a in range(n) for s in (-1., 1.)))
    M = [imat(m) for m in T.matrices]
    ctx.check('chain complex', not any((M[i] @ M[i + 1]).any() for i in range(n - 2)))


@REG.ob('canonical simplices and plain grids', timeout=60)
def canonical(ctx):
    from pycomplex import synthetic
    import math
    n = int(ctx.int('dim', (), 1, 4))
    S = synthetic.n_simplex(n, equilateral=False)
    ctx.check('number of k-simplices', S.topology.n_elements == [math.comb(n + 1, k + 1) for k in range(n + 1)])
    ctx.check('corners of the canonical simplex', sorted(map(tuple, plain(S.vertices).astype(float).tolist())) == sorted(tuple(float(i == j) for j in range(n)) for i in range(-1, n)))
    C = synthetic.n_cube(n, centering=True)
    ctx.check('centered cube', sorted(map(tuple, plain(C.vertices).astype(float).tolist())) == sorted(itertools.product((-.5, .5), repeat=n)))
    D = synthetic.n_cube_grid((2,) + (1,) * (n - 1), mirror=False)
    G = synthetic.n_cube_grid((2,) + (1,) * (n - 1))
    for k in range(n + 1):
        ctx.check('same %d-cubes without reorientation' % k, {tuple(sorted(e)) for e in ints(D.topology.corners[k])} == {tuple(sorted(e)) for e in ints(G.topology.corners[k])})


@REG.family('cylinder/{}', [1, 2], timeout=60)
def cylinder(ctx, k):
    """regular polygons, and prisms over them of any length and radius"""
    from pycomplex import synthetic
    C = synthetic.circle(k)
    m = 4 * 2 ** k
    V = plain(C.vertices).astype(float)
    E = ints(C.topology.corners[1])
    ctx.check('circle: number of cells', C.topology.n_elements == [m, m] and V.shape == (m, 2))
    ctx.check('circle: closed and oriented', bool(C.topology.is_closed) and bool(C.topology.is_oriented))
    a = np.sort(np.arctan2(V[:, 1], V[:, 0]))
    ctx.close('circle: on the unit circle', (V ** 2).sum(axis=1), np.ones(m))
    ctx.close('circle: evenly spaced', np.diff(a), np.full(m - 1, 2 * np.pi / m))
    ctx.close('circle: edges join neighbors', [float(((V[a] - V[b]) ** 2).sum()) for a, b in E], np.full(m, 4 * np.sin(np.pi / m) ** 2))
    l, r = ctx.real('length', (), .125, 8), ctx.real('radius', (), .125, 8)
    P = synthetic.cylinder(l, r, k)
    n = 2 ** k
    T = P.topology
    ctx.check('cylinder: number of cells', T.n_elements == [(n + 1) * m, (n + 1) * m + n * m, n * m])
    ctx.check('cylinder: oriented, with a boundary', bool(T.is_oriented) and not T.is_closed)
    X = rows(P.vertices)
    ctx.check('cylinder: in space', all(len(x) == 3 for x in X))
    ctx.close('cylinder: radius', arr(ctx, [x[1] * x[1] + x[2] * x[2] for x in X]), arr(ctx, [r * r] * len(X)), tol=1e-5)
    for j in range(n + 1):
        ctx.close('cylinder: rings', arr(ctx, [x[0] for x in X[j::n + 1]]), arr(ctx, [l * (j / n - .5)] * m))
    s = [q[0] for q in E]
    for e in ints(T.corners[2]):
        g = {(v % (n + 1), v // (n + 1)) for v in e}
        i = {a for a, _ in g}
        ctx.check('cylinder: faces join neighboring rings', len(g) == 4 and len(i) == 2 and max(i) - min(i) == 1 and {b for _, b in g} in [set(q) for q in E])


@REG.family('round/{}', ['icosahedron', 'icosphere', 'hexacosichoron'], timeout=90)
def round_(ctx, name):
    """regular polytopes"""
    from pycomplex import synthetic
    x = None
    if name == 'icosphere':
        k = int(ctx.int('refinement', (), 0, 2))
        C = synthetic.icosphere(k)
        n = [10 * 4 ** k + 2, 30 * 4 ** k, 20 * 4 ** k]
    else:
        k = 0
        C = getattr(synthetic, name)()
        n = [12, 30, 20] if name == 'icosahedron' else [120, 720, 1200, 600]
    T = C.topology
    ctx.check('number of cells', T.n_elements == n)
    ctx.check('closed and oriented', bool(T.is_closed) and bool(T.is_oriented))
    V = plain(C.vertices).astype(float)
    ctx.close('on the unit sphere', (V ** 2).sum(axis=1), np.ones(len(V)))
    E = np.array(ints(T.elements[1]))
    if k == 0:
        d = ((V[E[:, 0]] - V[E[:, 1]]) ** 2).sum(axis=1)
        ctx.close('edges of equal length', d, np.full(len(E), (2 - 2 / np.sqrt(5)) if len(n) == 3 else 2 - (1 + np.sqrt(5)) / 2))
    # faces span the sphere exactly once: all seen from the outside on the same side
    D = [float(np.linalg.det(V[e])) for e in ints(T.elements[-1])]
    ctx.check('faces on one side', all(v > 1e-6 for v in D) or all(v < -1e-6 for v in D))
    f = ctx.real('f', (n[0],))
    ctx.close('boundary of the boundary', T.matrices[1].T * (T.matrices[0].T * f), np.zeros(n[2]))
