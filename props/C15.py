"""Areas, volumes, normals and centers of triangle surfaces and curves"""
import itertools
import numpy as np
from vsym.prop import Registry
from props.lib import *
from props.shapes import *
from props.C04 import ints
from props.C09 import arr, nested, det, dots, root
from props.C10 import exact, sub

REG = Registry('C15', bounds='triangle meshes in 3d (1-8 triangles, open and closed, of one or several pieces) and curves in the plane (3-5 edges) with all vertex coordinates symbolic reals in [-2, 2] '
               '(areas and lengths: 1-3 symbolic coordinates around generic positions), symbolic translations, scales and orientations',
               assumptions=['real arithmetic in place of floating point; results compared within 1e-6'])

TWO_TETS = [(0, 2, 1), (0, 1, 3), (1, 2, 3), (0, 3, 2), (4, 6, 5), (4, 5, 7), (5, 6, 7), (4, 7, 6)]
MESH = dict(SIMPLICES, two_solids=TWO_TETS)
CLOSED = ['tet_surface', 'octahedron', 'two_solids']
OPEN = ['triangle', 'two_triangles', 'strip3', 'annulus6', 'pair_and_loose']
GENERIC = [[0, .25, -.5], [1., .125, 0], [.375, 1., .25], [.25, .5, 1.], [-.75, .125, .5], [.5, -.875, .125], [1.25, .75, -.25], [-.5, -.5, -.625]]


def surface(ctx, name, p=None, flip=False):
    from pycomplex.complex.simplicial.euclidian import ComplexSimplicialEuclidian
    E = np.array([list(t) for t in MESH[name]])
    if flip:
        E = E[:, ::-1]
    n = int(E.max()) + 1
    if p is None:
        p = ctx.real('p', (n, 3), -2, 2)
    return [list(map(int, e)) for e in E], p, ComplexSimplicialEuclidian(vertices=p, simplices=E).as_2().as_3()


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def normals(E, P):
    return [cross(sub(P[b], P[a]), sub(P[c], P[a])) for a, b, c in E]


def total(l):
    s = l[0]
    for x in l[1:]:
        s = [a + b for a, b in zip(s, x)]
    return s


@REG.family('normals/{}', OPEN + CLOSED)
def norm(ctx, name):
    E, p, C = surface(ctx, name)
    P = rows(p)
    N = normals(E, P)
    ctx.eq('triangle normals are twice the vector area', C.triangle_normals(), nested(ctx, N))
    ctx.close('triangle centroids', C.triangle_centroids() * 3, nested(ctx, [total([P[i] for i in e]) for e in E]))
    v = C.vertex_normals()
    ctx.check('one normal per vertex', tuple(v.shape) == tuple(p.shape))
    ctx.eq('vertex normals add up those of the triangles around', v, nested(ctx, [total([n for n, e in zip(N, E) if i in e]) for i in range(len(P))]))
    if name in CLOSED:
        ctx.eq('normals of a closed surface add up to zero', C.triangle_normals().sum(axis=0), nested(ctx, [0, 0, 0]))
    D = surface(ctx, name, p, True)[2]
    ctx.eq('mirrored triangles have the opposite normal', D.triangle_normals(), nested(ctx, [[-x for x in n] for n in N]))


@REG.family('volume/{}', CLOSED + ['triangle', 'strip3'])
def volume(ctx, name):
    E, p, C = surface(ctx, name)
    P = rows(p)
    V = C.volume()
    tets = [det([P[i] for i in e]) for e in E]
    ctx.close('signed volume of the cones to the origin', V * 6, sum(tets))
    s = ctx.real('s', (), -2, 2)
    ctx.close('volume scales with the cube', C.scale(s).volume(), V * s * s * s)
    ctx.close('mirrored surface has the opposite volume', surface(ctx, name, p, True)[2].volume(), -V)
    if name not in CLOSED:
        return
    t = ctx.real('t', (3,), -2, 2)
    ctx.close('volume does not depend on the location', C.translate(t).volume(), V)
    n = rows(C.vertex_normals())
    for i in range(len(P)):
        if i > 1 and i < len(P) - 1:
            continue
        Q = [list(x) for x in P]
        Q[i] = [a + b for a, b in zip(Q[i], rows(t))]
        ctx.close('vertex normals are the gradient of the volume (times six)', (C.copy(vertices=nested(ctx, Q)).volume() - V) * 6, dots(n[i], rows(t)))


@REG.family('center/{}', CLOSED)
def center(ctx, name):
    # all coordinates of one tetrahedron, others fixed
    P0 = exact(ctx, GENERIC)
    E = MESH[name]
    n = max(map(max, E)) + 1
    k = 4 if name == 'tet_surface' else 1
    v = rows(ctx.real('v', (k, 3), -1, 1))
    P = v + P0[k:n]
    E, p, C = surface(ctx, name, nested(ctx, P))
    tets = [det([P[i] for i in e]) for e in E]
    V = sum(tets[1:], tets[0])
    ctx.assume((V > .05) | (V < -.05))
    c = C.center_of_mass()
    ctx.check('shape', tuple(c.shape) == (3,))
    M = total([[x * d for x in total([P[i] for i in e])] for e, d in zip(E, tets)])
    ctx.close('volume weighted mean of the cones to the origin', nested(ctx, [x * V * 4 for x in rows(c)]), nested(ctx, M))
    t = rows(ctx.real('t', (3,), -2, 2))
    d = C.translate(arr(ctx, t)).center_of_mass()
    ctx.close('center moves along', nested(ctx, [x * V for x in rows(d)]), nested(ctx, [(x + y) * V for x, y in zip(rows(c), t)]))
    if name == 'tet_surface':
        ctx.close('center of a tetrahedron', nested(ctx, [x * 4 * V for x in rows(c)]), nested(ctx, [x * V for x in total(P)]))


AREA = [(m, (0, 0)) for m in OPEN + CLOSED] + [('two_triangles', (2, 2)), ('tet_surface', (3, 1)), ('strip3', (1, 1)), ('octahedron', (4, 2))]


@REG.family('area/{0}-{1}', AREA)
def area(ctx, name, at):
    E = MESH[name]
    P = exact(ctx, GENERIC[:max(map(max, E)) + 1])
    P[at[0]][at[1]] = P[at[0]][at[1]] + ctx.real('x', (), -.5, .5)
    E, p, C = surface(ctx, name, nested(ctx, P))
    A = [root(dots(n, n)) for n in normals(E, P)]
    ctx.close('area', C.area() * 2, sum(A[1:], A[0]))
    ctx.close('triangle areas', C.compute_triangle_areas * 2, arr(ctx, A))
    W = [sum(a for a, e in zip(A, E) if i in e) for i in range(len(P))]
    ctx.close('a third of the area around every vertex', C.vertex_areas() * 6, arr(ctx, W))
    ctx.close('a third of the area around every vertex', C.compute_vertex_areas * 6, arr(ctx, W))
    ctx.close('vertex areas add up to the area', C.vertex_areas().sum(), C.area())
    edges = [e for e in ints(C.topology.elements[1])]
    ctx.close('edge lengths', C.edge_lengths(), arr(ctx, [root(dots(sub(P[a], P[b]), sub(P[a], P[b]))) for a, b in edges]))



# -- closed curves in the plane

@REG.family('curve/{}', ['cycle3', 'cycle5', 'two_cycles'])
def curve(ctx, name):
    from pycomplex.complex.cubical import ComplexCubical
    E = simplices(name)
    n = int(E.max()) + 1
    m = [bool(x) for x in rows(ctx.bool('m', (1,)))]
    p = ctx.real('p', (n, 2), -2, 2)
    P = rows(p)
    if m[0]:
        E = E[:, ::-1]
    C = ComplexCubical(vertices=p, cubes=E).as_12()
    V = C.volume()
    ctx.close('signed area', V * 2, sum(P[a][0] * P[b][1] - P[a][1] * P[b][0] for a, b in E.tolist()))
    t = ctx.real('t', (2,), -2, 2)
    ctx.close('area does not depend on the location', C.translate(t).volume(), V)
    s = ctx.real('s', (), -2, 2)
    ctx.close('area scales with the square', C.scale(s).volume(), V * s * s)


@REG.ob('curve/open')
def curve_open(ctx):
    from pycomplex.complex.cubical import ComplexCubical
    C = ComplexCubical(vertices=ctx.real('p', (4, 2), -2, 2), cubes=simplices('path3')).as_12()
    ctx.expect_raise('open curves enclose no area', ValueError, C.volume)
