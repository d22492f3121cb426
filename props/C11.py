"""Transformed, copied, clipped, extruded and converted complexes"""
import itertools
import numpy as np
from vsym.prop import Registry
from props.lib import *
from props.shapes import *
from props.C04 import ints
from props.C09 import arr, nested, det, dots
from props.C10 import exact, sub

REG = Registry('C11', bounds='simplicial, cubical and regular complexes of up to 6 elements and 1-4 dimensions with all vertex coordinates symbolic reals in [-2, 2]; symbolic linear and affine maps, weights and selections; '
               'triangle meshes of 1-4 triangles in 2d and 3d clipped by every plane (symbolic support and positions, or symbolic direction); extrusion by a symbolic displacement',
               assumptions=['real arithmetic in place of floating point; results compared within 1e-6',
                            'clipped meshes hold at least one triangle on the kept side; vertices are not within 0.01 of the plane unless exactly on it'])


def simplicial(ctx, name, dim, weights=False, lo=-2, hi=2):
    from pycomplex.complex.simplicial.euclidian import ComplexSimplicialEuclidian
    E = simplices(name)
    n = int(E.max()) + 1
    p = ctx.real('p', (n, dim), lo, hi)
    w = ctx.real('w', (n,), 0, 1) if weights else None
    return E, p, w, ComplexSimplicialEuclidian(vertices=p, simplices=E, weights=w)


def cubical(ctx, name, dim, cls=None):
    from pycomplex.complex import cubical as M
    E = cubes(name)
    n = int(E.max()) + 1
    p = ctx.real('p', (n, dim), -2, 2)
    return E, p, None, getattr(M, cls or 'ComplexCubical')(vertices=p, cubes=E)


def any_complex(ctx, kind, name, dim, w=False):
    return simplicial(ctx, name, dim, w) if kind == 's' else cubical(ctx, name, dim)


CASES = [('s', 'path3', 1, True), ('s', 'two_triangles', 2, True), ('s', 'two_triangles', 3, False), ('s', 'tet', 3, True),
         ('c', 'cycle3', 2, False), ('c', 'two_squares', 2, False), ('c', 'two_squares', 3, False), ('c', 'cube', 3, False)]


def unchanged(ctx, C, T, p, w):
    ctx.eq('original is left as it was', C.vertices, p)
    ctx.check('original keeps its topology', C.topology is T)
    if w is not None:
        ctx.eq('original keeps its weights', C.weights, w)


def derived(ctx, D, C, p, w, what):
    ctx.check(what + ': type', type(D) is type(C))
    ctx.check(what + ': topology', D.topology is C.topology)
    ctx.check(what + ': shape', tuple(D.vertices.shape) == tuple(np.shape(p)))
    ctx.eq(what + ': positions', D.vertices, p)
    ctx.check(what + ': refers to the original', D.parent is C)
    if hasattr(C, 'weights'):
        if w is None:
            ctx.check(what + ': no weights', D.weights is None)
        else:
            ctx.eq(what + ': weights', D.weights, w)


@REG.family('move/{0}-{1}-{2}', CASES)
def move(ctx, kind, name, dim, weighted):
    E, p, w, C = any_complex(ctx, kind, name, dim, weighted)
    T = C.topology
    P = rows(p)
    t = ctx.real('t', (dim,), -3, 3)
    m = ctx.real('m', (dim, dim), -3, 3)
    s = ctx.real('s', (), -3, 3)
    tt, mm = rows(t), rows(m)
    derived(ctx, C.translate(t), C, nested(ctx, [[a + b for a, b in zip(r, tt)] for r in P]), w, 'translate')
    derived(ctx, C.scale(s), C, nested(ctx, [[a * s for a in r] for r in P]), w, 'scale')
    derived(ctx, C.scale(t), C, nested(ctx, [[a * b for a, b in zip(r, tt)] for r in P]), w, 'scale per axis')
    derived(ctx, C.transform(m), C, nested(ctx, [[sum(a * mm[i][j] for i, a in enumerate(r)) for j in range(dim)] for r in P]), w, 'transform')
    derived(ctx, C.copy(), C, p, w, 'copy')
    q = ctx.real('q', tuple(p.shape))
    derived(ctx, C.copy(vertices=q), C, q, w, 'copy with vertices')
    D = C.translate(t).transform(m)
    ctx.check('a derived complex refers to the one it is derived from', D.parent is not C and D.parent.parent is C)
    unchanged(ctx, C, T, p, w)


@REG.family('affine/{0}-{1}-{2}', [('s', 'path3', 1, True), ('s', 'two_triangles', 2, True), ('s', 'triangle', 3, False), ('c', 'path3', 2, False), ('c', 'square', 3, False), ('c', 'path3', 4, False)])
def affine(ctx, kind, name, dim, weighted):
    E, p, w, C = any_complex(ctx, kind, name, dim, weighted)
    P = rows(p)
    T = C.topology
    m = ctx.real('m', (dim + 1, dim + 1), -2, 2)
    M = rows(m)
    hom = [[sum(a * M[i][j] for i, a in enumerate(r + [1])) for j in range(dim + 1)] for r in P]
    for h in hom:
        ctx.assume(h[-1] >= .1)
    D = C.affine_transform(m)
    ctx.check('shape', tuple(D.vertices.shape) == tuple(p.shape))
    ctx.eq('homogeneous coordinates', nested(ctx, [[x * h[-1] for x in r] for r, h in zip(rows(D.vertices), hom)]), nested(ctx, [h[:-1] for h in hom]))
    ctx.check('topology', D.topology is T and type(D) is type(C))
    # without perspective this is a linear map and a translation
    L = nested(ctx, [r[:-1] + [int(i == dim)] for i, r in enumerate(M)])
    D = C.affine_transform(L)
    ctx.eq('linear map and translation', D.vertices, C.transform(nested(ctx, [r[:-1] for r in M[:-1]])).translate(nested(ctx, [M[-1][:-1]])[0]).vertices)
    unchanged(ctx, C, T, p, w)


@REG.family('box/{0}-{1}-{2}', [('s', 'path3', 1, False), ('s', 'triangle', 2, False), ('c', 'edge', 3, False), ('c', 'square', 2, False)])
def box(ctx, kind, name, dim, weighted):
    E, p, w, C = any_complex(ctx, kind, name, dim, weighted)
    B = C.box
    ctx.check('shape', tuple(B.shape) == (2, dim))
    B, P = rows(B), rows(p)
    for j in range(dim):
        c = [r[j] for r in P]
        for x in c:
            ctx.leq('lower bound', B[0][j], x)
            ctx.leq('upper bound', x, B[1][j])
        lo, hi = 1, 1
        for x in c:
            lo, hi = lo * (B[0][j] - x), hi * (B[1][j] - x)
        ctx.eq('lower bound is attained', lo, 0)
        ctx.eq('upper bound is attained', hi, 0)
    ctx.check('dimension of the embedding', C.n_dim == dim)


# -- parts

def E_list(C):
    return [list(map(int, e)) for e in np.asarray(plain(C.topology.corners[-1]))]


def cells(T, V, k=-1):
    """corner positions of all k-elements"""
    v = rows(V)
    return [[v[i] for i in flat(e)] for e in ints(T.corners[k])]


@REG.family('subset/{0}-{1}-{2}', [('s', 'path3', 2, True), ('s', 'strip3', 2, True), ('s', 'pair_and_loose', 3, False), ('s', 'two_tets', 3, True), ('c', 'path3', 2, False), ('c', 'two_squares', 3, False),
                                   ('c', 'squares_and_loose', 2, False), ('c', 'two_cubes', 3, False)])
def subset(ctx, kind, name, dim, weighted):
    E, p, w, C = any_complex(ctx, kind, name, dim, weighted)
    T = C.topology
    n = len(E)
    b = ctx.bool('b', (n,))
    pick = [bool(x) for x in rows(b)]
    if not any(pick):
        return
    D = C.select_subset(np.array(pick))
    ctx.check('type', type(D) is type(C))
    all_ = cells(T, C.vertices)
    got = cells(D.topology, D.vertices)
    ctx.check('number of elements', len(got) == sum(pick))
    ctx.eq('corners of the elements, in order', nested(ctx, got), nested(ctx, [c for c, k in zip(all_, pick) if k]))
    used = sorted({int(i) for e, k in zip(E, pick) if k for i in np.ravel(e)})
    ctx.check('vertices in use are kept', len(D.vertices) == len(used))
    if w is not None:
        W = rows(w)
        ctx.eq('weights', D.weights, arr(ctx, [W[i] for i in used]))
    elif hasattr(C, 'weights'):
        ctx.check('no weights', D.weights is None)
    ctx.check('integer chains select nonzero', len(C.select_subset(np.array(pick, dtype=int)).topology.elements[-1]) == sum(pick))
    ctx.expect_raise('chain of the wrong length', ValueError, lambda: C.select_subset(np.ones(n + 1, dtype=int)))
    unchanged(ctx, C, T, p, w)


@REG.family('boundary/{0}-{1}-{2}', [('s', 'strip3', 2, True), ('s', 'two_triangles', 3, False), ('s', 'two_tets', 3, True), ('c', 'two_squares', 3, False), ('c', 'annulus3', 2, False), ('c', 'two_cubes', 3, False)])
def boundary(ctx, kind, name, dim, weighted):
    E, p, w, C = any_complex(ctx, kind, name, dim, weighted)
    C = C.fix_orientation()
    ctx.check('oriented', C.topology.is_oriented)
    ctx.eq('positions of the reoriented complex', C.vertices, p)
    if w is not None:
        ctx.eq('weights of the reoriented complex', C.weights, w)
    B = C.boundary
    t = facet_table(E_list(C), kind == 'c')
    bnd = {k for k, (f, l) in t.items() if len(l) == 1}
    ctx.check('number of boundary facets', len(B.topology.elements[-1]) == len(bnd))
    used = sorted({i for f in bnd for i in f})
    ctx.check('number of vertices', len(B.vertices) == len(used))
    P = rows(p)
    ctx.eq('vertices', B.vertices, nested(ctx, [P[i] for i in used]))
    ctx.check('facets', {tuple(sorted(used[i] for i in flat(e))) for e in ints(B.topology.corners[-1])} == bnd)
    if w is not None:
        W = rows(w)
        ctx.eq('weights', B.weights, arr(ctx, [W[i] for i in used]))


@REG.ob('boundary/closed')
def closed(ctx):
    E, p, w, C = simplicial(ctx, 'tet_surface', 3)
    C = C.fix_orientation()
    ctx.check('no boundary', C.boundary is None)
    E, p, w, C = cubical(ctx, 'cycle3', 3)
    C = C.fix_orientation()
    ctx.check('no boundary', C.boundary is None)


# -- conversions

CAST = [(1, 1, '1Euclidian1'), (2, 1, '1Euclidian2'), (2, 2, '2Euclidian2'), (3, 2, '2Euclidian3'), (3, 3, '3Euclidian3'), (4, 4, '4Euclidian4')]


@REG.family('cast/{0}{1}', [(1, 1), (1, 2), (2, 2), (2, 3), (3, 3), (4, 4), (1, 3), (2, 4)])
def cast(ctx, n, dim):
    from pycomplex.complex import cubical as M
    from pycomplex.complex import regular as R
    C = cubical(ctx, {1: 'path3', 2: 'two_squares', 3: 'cube', 4: 'tesseract'}[n], dim)[3]
    for d, m, cls in CAST:
        f = getattr(C, 'as_%d%d' % (m, d))
        if (d, m) == (dim, n):
            D = f()
            ctx.check('type', type(D) is getattr(M, 'ComplexCubical' + cls))
            ctx.check('same vertices and topology', D.topology is C.topology)
            ctx.eq('same vertices', D.vertices, C.vertices)
            if d == m:
                r = D.as_regular()
                ctx.check('type', type(r) is getattr(R, 'ComplexRegular%d' % n))
                ctx.check('same topology', r.topology is C.topology)
                ctx.eq('same vertices', r.vertices, C.vertices)
        else:
            ctx.expect_raise('invalid cast to %d-cubes in %dd' % (m, d), TypeError, f)


@REG.family('cast/simplicial{0}', [2, 3, 4])
def cast_simplicial(ctx, dim):
    from pycomplex.complex.simplicial import euclidian as M
    E, p, w, C = simplicial(ctx, 'strip3', dim, True)
    D = C.as_2()
    ctx.check('type', type(D) is M.ComplexTriangularEuclidian)
    ctx.eq('vertices', D.vertices, p)
    ctx.eq('weights', D.weights, w)
    ctx.check('elements', [ints(e) for e in D.topology.elements] == [ints(e) for e in C.topology.elements])
    for m, cls in [(2, M.ComplexTriangularEuclidian2), (3, M.ComplexTriangularEuclidian3)]:
        f = getattr(D, 'as_%d' % m)
        if m == dim:
            F = f()
            ctx.check('type', type(F) is cls)
            ctx.eq('vertices', F.vertices, p)
            ctx.eq('weights', F.weights, w)
            ctx.check('topology', F.topology is D.topology)
        else:
            ctx.expect_raise('invalid cast', AssertionError, f)
    ctx.eq('homogeneous coordinates', D.homogenize(p), nested(ctx, [r + [1] for r in rows(p)]))


@REG.family('curve/{0}', [1, 2, 3])
def curve(ctx, dim):
    from pycomplex.complex.cubical import ComplexCubical1
    E, p, w, C = simplicial(ctx, 'path3', dim)
    D = C.as_cube()
    ctx.check('type', type(D) is ComplexCubical1)
    ctx.eq('vertices', D.vertices, p)
    ctx.check('edges', ints(D.topology.elements[1]) == E.tolist())
    F = D.to_simplicial()
    ctx.eq('vertices', F.vertices, p)
    ctx.check('edges', ints(F.topology.elements[1]) == E.tolist() and F.topology.n_dim == 1)


# -- subdivision

def centers(ctx, C, p):
    """positions of all elements: mean of the corners"""
    P = rows(p)
    return [[[sum(P[i][j] for i in flat(e)) * exact(ctx, 1. / len(flat(e))) for j in range(len(P[0]))] for e in ints(c)] for c in C.topology.corners]


@REG.family('subdivide/cubical-{0}-{1}', [('path3', 2), ('two_squares', 2), ('two_squares', 3), ('cube', 3)])
def subdivide_cubical(ctx, name, dim):
    E, p, w, C = cubical(ctx, name, dim)
    PP = [nested(ctx, x) for x in centers(ctx, C, p)]
    for a, b in zip(C.primal_position, PP):
        ctx.close('positions of the elements', a, b)
    F = C.subdivide_cubical()
    ctx.close('every cube gives a vertex', F.vertices, np.concatenate(PP, axis=0))
    ctx.check('type and parent', type(F) is type(C) and F.parent is C)
    F = C.subdivide_fundamental()
    ctx.close('every element gives a vertex of the fundamental subdivision', F.vertices, np.concatenate(PP, axis=0))
    ctx.check('simplices', F.topology.n_dim == C.topology.n_dim and F.topology.elements[-1].shape[1] == C.topology.n_dim + 1)
    if C.topology.n_dim == 2:
        from pycomplex.complex.cubical import ComplexCubical2
        D = ComplexCubical2(vertices=p, topology=C.topology)
        G = D.subdivide_simplicial()
        ctx.close('every quad gives a vertex', G.vertices, np.concatenate(PP[::2], axis=0))
        if dim == 2:
            V = quads_area(ctx, E, p)
            # orientation is inherited up to a convention
            for what, G in [('quads', G), ('fundamental', C.subdivide_fundamental())]:
                area = sum(tri_area(c) for c in cells(G.topology, G.vertices))
                ctx.eq('area is kept: ' + what, area * area, V * V)
    q = ctx.real('q', (C.topology.n_elements[0], dim))
    ctx.close('subdivision operator', C.subdivide_operator() * q, np.concatenate([nested(ctx, x) for x in centers(ctx, C, q)], axis=0))


def tri_area(c):
    a, b = sub(c[1], c[0]), sub(c[2], c[0])
    return (a[0] * b[1] - a[1] * b[0]) * .5


def quads_area(ctx, E, p):
    P = rows(p)
    s = 0
    for e in E.reshape(-1, 4).tolist():
        a, b, c, d = [P[i] for i in e]
        s = s + tri_area([a, c, d]) + tri_area([a, d, b])
    return s


@REG.family('subdivide/simplicial-{0}-{1}', [('path3', 2), ('triangle', 2), ('triangle', 3), ('tet', 3)])
def subdivide_simplicial(ctx, name, dim):
    """vertices of the refined complex lie at the positions the complex assigns to its elements, whatever these are"""
    E, p, w, C = simplicial(ctx, name, dim)
    T = C.topology
    PP = [p] + [ctx.real('c%d' % k, (T.n_elements[k], dim)) for k in range(1, T.n_dim + 1)]
    C.__dict__['primal_position'] = PP
    F = C.subdivide_fundamental()
    ctx.eq('every element gives a vertex', F.vertices, np.concatenate(PP, axis=0))
    ctx.check('type', type(F) is type(C))
    if T.n_dim > 1:
        F = C.subdivide_cubical()
        ctx.eq('every element gives a vertex of the cubical subdivision', F.vertices, np.concatenate(PP, axis=0))
    F = C.subdivide_simplicial()
    ctx.eq('every n-element gives a vertex', F.vertices, np.concatenate([p, PP[-1]], axis=0))
    if T.n_dim == 2:
        D = C.as_2()
        D.__dict__['primal_position'] = PP
        F = D.subdivide_loop()
        ctx.eq('every edge gives a vertex', F.vertices, np.concatenate(PP[:2], axis=0))
        F = D.subdivide_cubical()
        ctx.eq('every element gives a vertex of the quad mesh', F.vertices, np.concatenate(PP, axis=0))
        ctx.eq('positions of children are those of the parents', nested(ctx, cells(D.subdivide_fundamental().topology, np.concatenate(PP, axis=0), 0)),
               nested(ctx, [[x] for q in PP for x in rows(q)]))


# -- extrusion

OPEN = ['triangle', 'two_triangles', 'strip3', 'annulus6', 'fan3']


@REG.family('extrude/{0}', OPEN)
def extrude(ctx, name):
    from pycomplex.complex.simplicial.euclidian import ComplexTriangularEuclidian3, ComplexSimplicialEuclidian
    E = simplices(name)
    n = int(E.max()) + 1
    p = ctx.real('p', (n, 3), -2, 2)
    C = ComplexSimplicialEuclidian(vertices=p, simplices=E).as_2().as_3().fix_orientation()
    q = ctx.real('q', (n, 3), -2, 2)
    S = C.extrude(C.copy(vertices=q))
    ctx.check('closed and oriented solid', S.topology.is_closed and S.topology.is_oriented)
    ctx.check('type', type(S) is type(C))
    m = len(E)
    bnd = [k for k, (f, l) in facet_table(E_list(C), False).items() if len(l) == 1]
    ctx.check('number of triangles', len(S.topology.elements[-1]) == 2 * m + 2 * len(bnd))
    ctx.eq('vertices of both', S.vertices, np.concatenate([p, q], axis=0))
    tris = {tuple(sorted(t)): t for t in ints(S.topology.elements[-1])}
    for t in ints(C.topology.elements[-1]):
        a = tris.get(tuple(sorted(t)))
        b = tris.get(tuple(sorted(i + n for i in t)))
        ctx.check('triangles of the complex are kept in orientation', a is not None and simplex_sign(a, list(t)) == 1)
        ctx.check('triangles of the copy are mirrored', b is not None and simplex_sign(b, [i + n for i in t]) == -1)
    side = [sorted(t) for t in tris.values() if min(t) < n <= max(t)]
    for e in bnd:
        quad = set(e) | {i + n for i in e}
        ctx.check('two triangles stitch every boundary edge', sum(set(t) <= quad for t in side) == 2)
    # displaced copy: volume is the flux of the displacement
    t = rows(ctx.real('t', (3,), -2, 2))
    P = rows(p)
    S = C.extrude(C.translate(arr(ctx, t)))
    v = 0
    for c in cells(S.topology, S.vertices):
        v = v + det(c) * exact(ctx, 1. / 2)
    f = 0
    for e in ints(C.topology.elements[-1]):
        a, b, c = [P[i] for i in e]
        f = f + det([sub(b, a), sub(c, a), t]) * exact(ctx, 3. / 2)
    ctx.close('volume of the extrusion by a displacement, against the orientation of the surface', v, -f)


@REG.ob('extrude/refused')
def extrude_refused(ctx):
    from pycomplex.complex.simplicial.euclidian import ComplexTriangularEuclidian3
    p = ctx.real('p', (4, 3), -2, 2)
    C = ComplexTriangularEuclidian3(vertices=p, triangles=simplices('two_triangles')).fix_orientation()
    D = ComplexTriangularEuclidian3(vertices=p, triangles=simplices('two_triangles'))
    ctx.expect_raise('complexes of different topology', AssertionError, lambda: C.extrude(D))
    C = ComplexTriangularEuclidian3(vertices=p, triangles=simplices('tet_surface'))
    ctx.expect_raise('closed surface', AssertionError, lambda: C.extrude(C.translate([0, 0, 1])))
    C = ComplexTriangularEuclidian3(vertices=p, triangles=np.array([[0, 1, 2], [1, 2, 3]]))
    ctx.expect_raise('unoriented surface', AssertionError, lambda: C.extrude(C.translate([0, 0, 1])))


# -- clipping

def cut(poly, h, keep):
    """part of a convex polygon where keep * h <= 0"""
    out = []
    n = len(poly)
    for i in range(n):
        a, b = poly[i], poly[(i + 1) % n]
        ha, hb = h[i] * keep, h[(i + 1) % n] * keep
        pa, pb = bool(ha > 0), bool(hb > 0)
        if not pa:
            out.append(a)
        if pa != pb:
            t = ha / (ha - hb)
            out.append([x + (y - x) * t for x, y in zip(a, b)])
    return out


def moments(ctx, polys):
    """integrals over oriented polygons of 1 (vector area) and of x"""
    d = None
    A = V = 0
    half = exact(ctx, .5)
    M = 0
    for q in polys:
        for i in range(1, len(q) - 1):
            a, b, c = q[0], q[i], q[i + 1]
            u, v = sub(b, a), sub(c, a)
            if len(a) == 2:
                n = [(u[0] * v[1] - u[1] * v[0]) * half]
                m = [n[0] * (x + y + z) for x, y, z in zip(a, b, c)]
            else:
                n = [(u[1] * v[2] - u[2] * v[1]) * half, (u[2] * v[0] - u[0] * v[2]) * half, (u[0] * v[1] - u[1] * v[0]) * half]
                m = [dots(n, [x + y + z for x, y, z in zip(a, b, c)])]
            if d is None:
                d = n, m
            else:
                d = [x + y for x, y in zip(d[0], n)], [x + y for x, y in zip(d[1], m)]
    return d


CLIP = {
    'triangle2': ([[0, 1, 2]], [[0, 0], [1., .125], [.375, 1.]]),
    'two2': ([[0, 1, 2], [1, 3, 2]], [[0, 0], [1., .125], [.375, 1.], [1.25, 1.125]]),
    'rot2': ([[2, 0, 1], [3, 2, 1]], [[0, 0], [1., .125], [.375, 1.], [1.25, 1.125]]),
    'fan2': ([[0, 1, 2], [0, 2, 3], [0, 3, 4], [0, 4, 1]], [[.125, .0625], [1., 0], [.125, 1.], [-1., .25], [0, -1.]]),
    'triangle3': ([[1, 2, 0]], [[0, 0, .25], [1., .125, 0], [.375, 1., .5]]),
    'fold3': ([[0, 1, 2], [1, 3, 2]], [[0, 0, 0], [1., .125, 0], [.375, 1., .25], [1.25, 1.125, .5]]),
    'tet3': ([[0, 2, 1], [0, 1, 3], [0, 3, 2], [1, 2, 3]], [[0, 0, 0], [1., 0, .125], [.5, 1., .25], [.5, .25, 1.]]),
}
# which of support, direction and positions are symbolic
LATE = ['fan2', 'rot2']
WAYS = [(m, 's') for m in CLIP] + [(m, 'd') for m in CLIP if m not in LATE] + [('triangle2', 'v'), ('two2', 'v'), ('triangle3', 'v'), ('tet3', 'v')]


@REG.family('clip/{0}-{1}', WAYS, timeout=300)
@REG.family('clip/{0}-{1}', [(m, 'd') for m in LATE] + [(m, 'sv') for m in CLIP], tier='thorough', timeout=1500)
def clip(ctx, mesh, how):
    from pycomplex.complex.simplicial.euclidian import ComplexTriangularEuclidian
    E, P = CLIP[mesh]
    P = exact(ctx, P)
    dim = len(P[0])
    sup = exact(ctx, [.375, .5, .25][:dim])
    dirn = exact(ctx, [1., .25, -.5][:dim])
    if 's' in how:
        h0 = ctx.real('s', (), -2, 2)
        sup = [h0] + sup[1:]
    if 'd' in how:
        dirn = rows(ctx.real('d', (2,), -1, 1)) + dirn[2:]
    if 'v' in how:
        v = rows(ctx.real('v', (dim,), -.5, .5))
        P[0] = [a + b for a, b in zip(P[0], v)]
    H = [dots(sub(x, sup), dirn) for x in P]
    for h in H:
        ctx.assume((h > 0.01) | (h < -0.01) | (h == 0))
    side = [bool(h > 0) for h in H]
    C = ComplexTriangularEuclidian(vertices=nested(ctx, P), triangles=np.array(E))
    s, d = arr(ctx, sup), arr(ctx, dirn)
    polys = [[P[i] for i in e] for e in E]
    low = [cut(q, [H[i] for i in e], 1) for q, e in zip(polys, E)]
    F = C.clip(s, d, clip=False)
    ctx.check('type', type(F) is type(C))
    got = cells(F.topology, F.vertices)
    vert = rows(F.vertices)
    hs = [dots(sub(x, sup), dirn) for x in vert]
    crossing = {tuple(sorted(e)) for t in E for e in itertools.combinations(t, 2) if side[e[0]] != side[e[1]]}
    ctx.check('one new vertex for every edge that is cut', len(vert) == len(P) + len(crossing))
    ctx.eq('original vertices are kept', nested(ctx, vert[:len(P)]), nested(ctx, P))
    for h in hs[len(P):]:
        ctx.close('new vertices lie in the plane', h, 0)
    sides = []
    for e in ints(F.topology.elements[-1]):
        own = {side[i] for i in e if i < len(P)}
        ctx.check('no triangle of the split mesh crosses the plane', len(own) == 1)
        sides.append(own.pop())
    n_cut = sum(len({side[i] for i in e}) == 2 for e in E)
    ctx.check('number of triangles of the split mesh', len(got) == len(E) + 2 * n_cut)
    for a, b in zip(moments(ctx, got), moments(ctx, polys)):
        ctx.close('area and moments are kept by splitting', nested(ctx, a), nested(ctx, b))
    if dim == 2:
        for q in got:
            ctx.check('triangles keep their orientation', moments(ctx, [q])[0][0] >= -1e-9)
    if all(side):
        return
    K = C.clip(s, d)
    ctx.check('type', type(K) is type(C))
    got = cells(K.topology, K.vertices)
    ctx.check('number of triangles of the clipped mesh', len(got) == sum(not x for x in sides))
    for x in rows(K.vertices):
        ctx.leq('nothing is left beyond the plane', dots(sub(x, sup), dirn), 0, tol=1e-9)
    for a, b in zip(moments(ctx, got), moments(ctx, [q for q in low if len(q) > 2])):
        ctx.close('area and moments of the clipped mesh', nested(ctx, a), nested(ctx, b))
    # orientation of the mesh and closedness away from the plane
    if all(sum(set(f) <= set(e) for e in E) == 2 for e in E for f in itertools.combinations(e, 2)):
        ctx.check('splitting keeps a closed mesh closed', F.topology.is_closed and F.topology.is_oriented)
        B = K.boundary
        if B is not None:
            for x in rows(B.vertices):
                ctx.close('boundary of the clipped mesh lies in the plane', dots(sub(x, sup), dirn), 0)
        else:
            ctx.check('closed meshes are only cut open by the plane', not any(side))
