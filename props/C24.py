"""Complexes do not change, and results do not depend on what was asked before"""
import itertools
import numpy as np
from vsym.prop import Registry
from props.lib import *
from props.shapes import *
from props.C04 import ints
from props.C09 import arr, nested
from props.C13 import indices as given

REG = Registry('C24', bounds='each of 10-30 queries per kind of complex, asked before all the others, after them, and again (thorough: every sequence of two): curves, triangle meshes, tetrahedra, grids, spheres, their topologies, and stencil complexes; small meshes, '
               'a vertex coordinate symbolic for curves and grids (thorough: and triangles), the radius of spheres and all sampled forms symbolic',
               assumptions=['real arithmetic in place of floating point; results compared within 1e-6'])


# ------------------------------------------------------------------ results
def leaves(x, depth=0):
    """arrays and constants a result is made of"""
    if x is None or isinstance(x, (bool, int, float, str, np.bool_, np.integer, np.floating)):
        return [('value', x)]
    if isinstance(x, np.ndarray):
        e = list((x.view_raw() if hasattr(x, 'view_raw') else x).reshape(-1)) if x.dtype == object or hasattr(x, 'view_raw') else []
        if any(isinstance(z, np.ndarray) for z in e):
            return [('length', x.shape)] + [y for z in e for y in leaves(z, depth + 1)]
        return [('array', x)]
    if isinstance(x, dict):
        return [y for k in sorted(x) for y in [('key', k)] + leaves(x[k], depth + 1)]
    if hasattr(x, 'tocsr') or hasattr(x, 'toarray'):
        return [('array', x.toarray())]
    if isinstance(x, (list, tuple)):
        return [('length', len(x))] + [y for z in x for y in leaves(z, depth + 1)]
    n = type(x).__mro__
    names = [c.__name__ for c in n]
    if 'BaseComplex' in names:
        return [('type', names[0]), ('array', x.vertices)] + leaves(getattr(x, 'weights', None)) + leaves(getattr(x, 'radius', None)) + leaves(x.topology)
    if 'BaseTopology' in names:
        if hasattr(x, '_boundary'):
            return [('type', names[0])] + leaves([x.elements, x._orientation, getattr(x, 'parent_idx', None), getattr(x, 'transfer_matrices', None)])
        return [('type', names[0])] + leaves(x.matrices_2)
    return [('value', x)]       # scalars of the engine


def keep(x):
    return [(k, v.copy() if k == 'array' else v) for k, v in leaves(x)]


def constant(x):
    return isinstance(x, (bool, int, float, np.bool_, np.integer, np.floating))


def compare(ctx, label, a, b):
    """same structure, and the same numbers everywhere"""
    form = lambda q: [(k, tuple(v.shape) if k == 'array' else v if k in ('length', 'type', 'key') or v is None or isinstance(v, str) else 0) for k, v in q]
    if form(a) != form(b):
        ctx.check(label + ': structure', False)
        return
    left, right = [], []
    for (k, v), (_, w) in zip(a, b):
        vs, ws = (flatten(v), flatten(w)) if k == 'array' else ([v], [w]) if k == 'value' and v is not None and not isinstance(v, str) else ([], [])
        for x, y in zip(vs, ws):
            if x is y or constant(x) and constant(y) and (x == y or x != x and y != y):
                continue
            left.append(x)
            right.append(y)
    if left:
        ctx.close(label, arr(ctx, left), arr(ctx, right))


def flatten(x):
    return list((x.view_raw() if hasattr(x, 'view_raw') else x).reshape(-1).tolist())


def histories(ctx, make, queries, length=0):
    """one query before and after all the others; or, given a length, any sequence of that many"""
    if length:
        return sequences(ctx, make, queries, length)
    C = make()
    if 'BaseComplex' in [c.__name__ for c in type(C).__mro__] and C.boundary is not None:
        # what the boundary knows belongs to the complex as well
        have = [m for m, _ in queries]
        queries = queries + [attr('boundary', *a) for a in (('metric',), ('dual_metric',), ('primal_position',), ('dual_position',)) if a[0] in have or a[0] == 'dual_metric' and 'metric' in have]
    i = int(ctx.int('query', (), 0, len(queries) - 1))
    n, q = queries[i]
    state = keep(C)
    seen = []
    for m, p in queries:
        r = p(C)
        seen.append((m, r, keep(r)))
    again = keep(q(C))
    for m, r, k in seen:
        compare(ctx, 'result of %s stays after %s' % (m, n), leaves(r), k)
    compare(ctx, '%s asked again' % n, again, seen[i][2])
    compare(ctx, 'complex is left alone', keep(C), state)
    D = make()
    compare(ctx, '%s asked first' % n, keep(q(D)), again)
    for (m, p), (_, _, k) in zip(queries, seen):
        compare(ctx, '%s after %s' % (m, n), keep(p(D)), k)
    ctx.check('all queries', len(seen) == len(queries))


def sequences(ctx, make, queries, length):
    """any sequence of queries"""
    seq = [int(i) for i in rows(ctx.int('query', (length,), 0, len(queries) - 1))]
    names = [queries[i][0] for i in seq]
    C = make()
    state = keep(C)
    seen = []
    for i in seq:
        r = queries[i][1](C)
        seen.append((r, keep(r)))
    for n, (r, k) in zip(names, seen):
        compare(ctx, 'result of %s stays' % n, leaves(r), k)
    n = names[-1]
    D = make()
    compare(ctx, '%s after other queries' % n, keep(queries[seq[-1]][1](D)), seen[-1][1])
    compare(ctx, '%s asked again' % names[0], keep(queries[seq[0]][1](C)), seen[0][1])
    compare(ctx, 'complex is left alone', keep(C), state)
    ctx.check('whole sequence', len(seen) == length)


def attr(*names):
    def f(C):
        for n in names:
            C = getattr(C, n)
        return C
    return ('.'.join(names), f)


def untouched(ctx, label, f, *args):
    """call with arguments that have to stay as they are"""
    old = [keep(a) for a in args]
    r = f(*args)
    for a, o in zip(args, old):
        compare(ctx, 'argument of %s stays' % label, leaves(a), o)
    return r


# ------------------------------------------------------------------ topologies
def topology_queries(ctx, kind, n, closed, n_dim):
    q = [attr('boundary'), attr('matrices'), attr('is_oriented'), attr('is_closed'), attr('degree'), attr('dual', 'matrices'), attr('dual', 'matrices_2'),
         attr('selector_interior'), attr('selector_boundary'), attr('incidence'), attr('corners'),
         ('fix_orientation', lambda T: T.fix_orientation()), ('fundamental_domains', lambda T: T.fundamental_domains()),
         ('dual selectors', lambda T: [T.dual.selector_interior, T.dual.selector_boundary]),
         ('split_connected_components', lambda T: T.split_connected_components()), ('relative_parity', lambda T: T.relative_parity())]
    if n_dim:
        q += [attr('averaging_operators_0'), attr('averaging_operators_N'), ('dual averages', lambda T: [T.dual.averaging_operators_0, T.dual.averaging_operators_N]), attr('is_manifold')]
        q += [('matrix', lambda T: [T.matrix(n_dim, 0), T.matrix(n_dim - 1)])]
    q += [('select_subset', lambda T: untouched(ctx, 'select_subset', T.select_subset, given([1] + [0] * (n - 1))))]
    if kind == 'simplicial':
        q += [('subdivide_fundamental', lambda T: T.subdivide_fundamental()), ('subdivide_cubical', lambda T: T.subdivide_cubical()), ('subdivide_simplicial', lambda T: T.subdivide_simplicial())]
        if n_dim < 2:
            q = [x for x in q if x[0] != 'subdivide_cubical']
    if kind == 'triangles':
        q += [('subdivide_loop', lambda T: T.subdivide_loop()), ('subdivide_loop_direct', lambda T: T.subdivide_loop_direct()), ('subdivide_fundamental', lambda T: T.subdivide_fundamental())]
    if kind == 'cubical':
        q += [('subdivide_cubical', lambda T: T.subdivide_cubical()), ('subdivide_fundamental', lambda T: T.subdivide_fundamental())]
    return q


TOPO = [('simplicial', 'path3'), ('simplicial', 'two_triangles'), ('simplicial', 'two_tets'), ('simplicial', 'tet_surface'), ('triangles', 'strip3'), ('triangles', 'octahedron'),
        ('cubical', (3,)), ('cubical', (2, 1)), ('cubical', (1, 1, 2))]


def make_topology(kind, name):
    if kind == 'cubical':
        return topology(grid_cubes(name), True)
    if kind == 'triangles':
        from pycomplex.topology.simplicial import TopologyTriangular
        return TopologyTriangular.from_simplices(np.array(SIMPLICES[name])).fix_orientation()
    return topology(np.array(SIMPLICES[name]), False).fix_orientation()


@REG.family('topology/{0}/{1}', [t + (0,) for t in TOPO])
@REG.family('topology/{0}/{1}/pairs', [(k, n, 2) for k, n in TOPO], tier='thorough', timeout=1500)
def topologies(ctx, kind, name, length):
    T = make_topology(kind, name)
    q = topology_queries(ctx, kind, int(T.n_elements[-1]), T.is_closed, T.n_dim)
    histories(ctx, lambda: make_topology(kind, name), q, length)


# ------------------------------------------------------------------ complexes
COMMON = [attr('primal_position'), attr('dual_position'), attr('boundary'), attr('metric'), attr('hodge_PD'), attr('hodge_DP'), attr('box'), attr('topology', 'boundary'), attr('topology', 'dual', 'matrices')]


def moves(ctx, n):
    f = lambda l: given(l)
    return [('scale', lambda C: C.scale(2.)), ('translate', lambda C: untouched(ctx, 'translate', C.translate, f([.5] * n))), ('copy', lambda C: C.copy()),
            ('transform', lambda C: untouched(ctx, 'transform', C.transform, f((np.eye(n) + .25 * np.eye(n, k=1)).tolist()))),
            ('select_subset', lambda C: untouched(ctx, 'select_subset', C.select_subset, f([1] + [0] * (int(C.topology.n_elements[-1]) - 1)))),
            ('fix_orientation', lambda C: C.fix_orientation())]


BASE = {
    'curve': ('simplicial', [[0, 1], [1, 2], [2, 3]], [[-1.], [0.], [.5], [2.]]),
    'triangles': ('triangular', [[0, 1, 2], [1, 3, 2]], [[0., 0.], [1., .125], [.375, 1.], [1.25, 1.125]]),
    'surface': ('triangular', [[0, 1, 2], [1, 3, 2]], [[0., 0., 0.], [1., .125, 0.], [.375, 1., .25], [1.25, 1.125, .5]]),
    'tets': ('simplicial', [[0, 1, 2, 3], [0, 2, 1, 4]], [[0., 0., 0.], [1., 0., 0.], [.5, .875, 0.], [.5, .25, .875], [.5, .375, -.875]]),
    'closed': ('triangular', [[1, 2, 3], [0, 3, 2], [0, 1, 3], [0, 2, 1]], [[1., 1., 1.], [1., -1., -1.], [-1., 1., -1.], [-1., -1., 1.]]),
}


def simplicial(ctx, name, weights=False, x=None):
    from pycomplex.complex.simplicial import euclidian as M
    kind, E, P = BASE[name]
    P = [list(p) for p in P]
    if x is not None:
        P[1][0] = P[1][0] + x
    cls = M.ComplexSimplicialEuclidian if kind == 'simplicial' else M.ComplexTriangularEuclidian
    w = given([.0078125 * (i % 3) for i in range(len(P))]) if weights else None
    V = nested(ctx, P) if x is not None else given(P)

    def make():
        C = cls(V.copy(), np.array(E), weights=w.copy() if weights else None)
        if kind == 'triangular' and len(P[0]) == 3:
            C = C.as_3()
        if kind == 'triangular' and len(P[0]) == 2:
            C = C.as_2()
        return C
    return make, len(P[0]), len(E[0]) - 1, len(E), len(P)


@REG.family('simplicial/{0}/weights:{1}', [(n, w) for n in BASE for w in (False, True) if not (w and n in ('closed',))])
@REG.family('simplicial/{0}/weights:{1}/any', [('triangles', False, 0, True), ('triangles', True, 0, True), ('surface', False, 0, True)], tier='thorough', timeout=1500)
@REG.family('simplicial/{0}/weights:{1}/pairs', [(n, False, 2) for n in ('curve', 'triangles')], tier='thorough', timeout=1500)
def simplicial_queries(ctx, name, weights, length=0, symbolic=False):
    x = rows(ctx.real('x', (1,), -.0625, .0625))[0] if name == 'curve' or symbolic else None
    make, n, d, ne, nv = simplicial(ctx, name, weights, x)
    q = COMMON + moves(ctx, n) + [attr('dual_metric_closed'), attr('is_well_centered'), attr('is_pairwise_delaunay'), attr('positive_dual_metric')]
    q += [('subdivide_fundamental', lambda C: C.subdivide_fundamental()), attr('primal_barycentric')]
    if BASE[name][0] == 'triangular':
        q += [('subdivide_loop', lambda C: C.subdivide_loop()), attr('compute_triangle_angles'), attr('compute_vertex_areas'),
              ('smooth', lambda C: C.smooth()), ('subdivide_cubical', lambda C: C.subdivide_cubical())]
        if n == 3:
            q += [('triangle_normals', lambda C: C.triangle_normals()), ('vertex_normals', lambda C: C.vertex_normals()), ('volume', lambda C: C.volume()), ('vertex_areas', lambda C: C.vertex_areas()),
                  ]
    if name == 'closed':
        q += [('as_spherical', lambda C: C.as_spherical())]
    if BASE[name][0] == 'triangular' and not weights:
        q += [attr('compute_edge_ratio')]
    histories(ctx, make, q, length)


@REG.family('pick/{0}/weights:{1}', [(n, w) for n in ('curve', 'triangles', 'tets') for w in (False, True)])
@REG.family('pick/{0}/weights:{1}/pairs', [(n, w, 2) for n in ('curve', 'triangles') for w in (False, True)], tier='thorough', timeout=1500)
def picking(ctx, name, weights, length=0):
    make, n, d, ne, nv = simplicial(ctx, name, weights)
    f = ctx.real('f', (nv,))
    C = make()
    nd = ne + len(C.topology.boundary.parent_idx[-1])
    g = ctx.real('g', (nd,))
    P = [[-.25], [1.5]] if n == 1 else [[.5, .5], [.875, .75]] if n == 2 else [[.5, .375, .25], [.5, .375, -.25]]
    pts = given(P)
    one = given([0, ne - 1])
    q = [('pick_primal', lambda C: untouched(ctx, 'pick_primal', C.pick_primal, pts)), ('pick_dual', lambda C: untouched(ctx, 'pick_dual', C.pick_dual, pts)),
         ('pick_primal by guess', lambda C: untouched(ctx, 'pick_primal', lambda p, g: C.pick_primal(p, simplex_idx=g), pts, one)),
         ('pick_primal unweighted', lambda C: C.pick_primal(pts, weighted=False)),
         ('sample_dual_0', lambda C: untouched(ctx, 'sample_dual_0', C.sample_dual_0, g, pts)), ('sample_dual_0 unweighted', lambda C: untouched(ctx, 'sample_dual_0', lambda d, p: C.sample_dual_0(d, p, weighted=False), g, pts)),
         ('pick_fundamental', lambda C: untouched(ctx, 'pick_fundamental', C.pick_fundamental, pts)), attr('weighted_average_operators'), attr('metric'), attr('dual_metric_closed'), attr('primal_position'),
         attr('topology', 'dual', 'averaging_operators_0'), ('scale', lambda C: C.scale(2.)),
         ('dual velocity', lambda C: untouched(ctx, 'dual_flux_to_dual_velocity', C.dual_flux_to_dual_velocity, flux))]
    flux = ctx.real('flux', (int(C.topology.dual.n_elements[1]),)) if hasattr(C.topology.dual, 'n_elements') else None
    if d == 1:
        q += [('sample_primal_0', lambda C: untouched(ctx, 'sample_primal_0', C.sample_primal_0, f, pts))]
    q = [x for x in q if x[0] != 'dual velocity' or flux is not None]
    if d == 3:
        # domains of these are not well-centered
        q = [x for x in q if 'dual' not in x[0] and 'fundamental' not in x[0] or x[0] == 'pick_dual']
    histories(ctx, make, q, length)


def grid(ctx, shape, kind, x):
    from pycomplex.complex import regular as R, cubical as Q
    n = len(shape)
    cubes = grid_cubes(shape)
    pos = [list(map(float, p)) for p in itertools.product(*[range(s + 1) for s in shape])]
    if kind == 'regular':
        pos = [[p[0] * (1 + x)] + p[1:] for p in pos]
    elif kind == 'bent':
        pos = [p + [.25 * p[0] * p[0]] for p in pos]
        pos[0][-1] = pos[0][-1] + x
    else:
        pos[0][0] = pos[0][0] + x
    V = nested(ctx, pos)
    cls = {'regular': lambda: getattr(R, 'ComplexRegular%d' % n), 'plain': lambda: Q.ComplexCubical, 'bent': lambda: Q.ComplexCubical if n != 2 else Q.ComplexCubical2Euclidian3}[kind]()
    from pycomplex.topology.cubical import TopologyCubical
    return lambda: cls(vertices=V.copy(), topology=TopologyCubical.from_cubes(cubes))


@REG.family('grid/{0}/{1}', [('regular', (2,)), ('regular', (2, 1)), ('plain', (2,)), ('plain', (2, 1)), ('plain', (1, 1, 1)), ('bent', (2, 1))])
@REG.family('grid/{0}/{1}', [('regular', (1, 1, 2)), ('plain', (1, 1, 2)), ('bent', (1, 2)), ('bent', (2, 2))], tier='thorough', timeout=900)
@REG.family('grid/{0}/{1}/pairs', [('regular', (2,), 2), ('regular', (2, 1), 2), ('plain', (2, 1), 2)], tier='thorough', timeout=1500)
def grids(ctx, kind, shape, length=0):
    x = rows(ctx.real('x', (1,), -.0625, .0625))[0]
    make = grid(ctx, shape, kind, x)
    n = len(shape)
    C = make()
    q = [r for r in COMMON if kind == 'regular' or r[0] not in ('metric', 'hodge_PD', 'hodge_DP')] + moves(ctx, n + (kind == 'bent'))
    cr = {0: given([1] + [0] * (int(C.topology.n_elements[0]) - 1))}
    q += [('subdivide_cubical', lambda C: C.subdivide_cubical()), ('subdivide smoothly', lambda C: C.subdivide_cubical(smooth=True)), ('smooth', lambda C: C.smooth()), ('subdivide_operator', lambda C: C.subdivide_operator()),
          ('smooth with creases', lambda C: untouched(ctx, 'smooth', lambda c: C.smooth({0: c}), cr[0]))]
    if kind == 'regular':
        q += [attr('dual_metric_closed'), attr('is_well_centered'), attr('weighted_average_operators')]
    if n == 2:
        q += [('subdivide_simplicial', lambda C: C.as_22().subdivide_simplicial() if kind != 'bent' else C.subdivide_simplicial())]
    histories(ctx, make, q, length)


@REG.family('pick-grid/{0}', [((2,),), ((2, 1),), ((1, 1, 2),)])
def grid_picking(ctx, shape):
    n = len(shape)
    from pycomplex.complex import regular as R
    from pycomplex.topology.cubical import TopologyCubical
    V = given([list(map(float, p)) for p in itertools.product(*[range(s + 1) for s in shape])])
    make = lambda: getattr(R, 'ComplexRegular%d' % n)(vertices=V.copy(), topology=TopologyCubical.from_cubes(grid_cubes(shape)))
    C = make()
    f, g = ctx.real('f', (int(C.topology.n_elements[0]),)), ctx.real('g', (int(C.topology.dual.n_elements[0]),))
    flux = ctx.real('flux', (int(C.topology.dual.n_elements[1]),))
    pts = given([[.25] * n, [.75] + [.625] * (n - 1)])
    one = given([0, 1])
    q = [('pick_primal', lambda C: untouched(ctx, 'pick_primal', C.pick_primal, pts)), ('pick_primal by guess', lambda C: untouched(ctx, 'pick_primal', lambda p, g: C.pick_primal(p, cube=g), pts, one)),
         ('pick_dual', lambda C: untouched(ctx, 'pick_dual', C.pick_dual, pts)), ('pick_fundamental', lambda C: untouched(ctx, 'pick_fundamental', C.pick_fundamental, pts)),
         ('sample_primal_0', lambda C: untouched(ctx, 'sample_primal_0', C.sample_primal_0, f, pts)), ('sample_dual_0', lambda C: untouched(ctx, 'sample_dual_0', C.sample_dual_0, g, pts)),
         ('average_dual', lambda C: untouched(ctx, 'average_dual', C.average_dual, g)), attr('metric'), attr('primal_position'), ('scale', lambda C: C.scale(2.)), ('boundary', lambda C: C.boundary),
         ('dual velocity', lambda C: untouched(ctx, 'dual_flux_to_dual_velocity', C.dual_flux_to_dual_velocity, flux))]
    histories(ctx, make, q)


@REG.family('sphere/{0}', [('circle4',), ('regular',), ('cap',)])
def spheres(ctx, name):
    from props import C22
    r = ctx.real('radius', (), .25, 4)
    E, P = C22.MESH[name]
    n, ne, nv = len(P[0]), len(E), len(P)
    make = lambda: C22.build(ctx, name, radius=r)[2]
    C = make()
    nd = ne + (0 if C.topology.boundary is None else len(C.topology.boundary.parent_idx[-1]))
    f, g = ctx.real('f', (nv,)), ctx.real('g', (nd,))
    pts = given([C22.unit([.5, .75]), C22.unit([-.5, .25])] if n == 2 else [C22.unit([.25, .125, .875]), C22.unit([-.125, .25, .75])])
    q = COMMON + [attr('is_well_centered'), ('copy', lambda C: C.copy()), ('as_euclidian', lambda C: C.as_euclidian()),
                  ('pick_primal', lambda C: untouched(ctx, 'pick_primal', C.pick_primal, pts)), ('pick_dual', lambda C: untouched(ctx, 'pick_dual', C.pick_dual, pts)),
                  ('pick_fundamental', lambda C: untouched(ctx, 'pick_fundamental', C.pick_fundamental, pts)),
                  ('sample_primal_0', lambda C: untouched(ctx, 'sample_primal_0', C.sample_primal_0, f, pts)),
                  ('sample_dual_0', lambda C: untouched(ctx, 'sample_dual_0', C.sample_dual_0, g, pts))]
    q = [x for x in q if not (n == 2 and x[0] == 'as_euclidian')]
    if n == 3:
        q += [('subdivide_loop', lambda C: C.subdivide_loop())]
    histories(ctx, make, q)


# ------------------------------------------------------------------ stencils
@REG.family('stencil/{0}', [((3,),), ((2, 3),), ((2, 2, 2),)])
def stencils(ctx, shape):
    """operators of a periodic grid: any two, on any forms"""
    from pycomplex.stencil.complex import StencilComplex
    n = len(shape)
    make = lambda: StencilComplex.from_shape(shape)
    C = make()
    ops = [('derivative %d' % k, lambda C, k=k: C.topology.primal[k], k) for k in range(n)] + [('dual %d' % k, lambda C, k=k: C.topology.dual[k], k) for k in range(n)]
    ops += [('average %d' % k, lambda C, k=k: C.topology.averaging_operators_0[k], 0) for k in range(n + 1)]
    ops += [('hodge %d' % k, lambda C, k=k: C.hodge[k], k) for k in range(n + 1)]
    i, j = [int(v) for v in rows(ctx.int('operator', (2,), 0, len(ops) - 1))]
    forms, seen = [], []
    for s, k in enumerate((i, j)):
        name, get, _ = ops[k]
        op = get(C)
        x = ctx.real('x%d' % s, op.shape[1])
        y = untouched(ctx, name, op, x)
        seen.append((name, y, keep(y), x, get))
    for name, y, old, x, get in seen:
        compare(ctx, 'result of %s stays' % name, leaves(y), old)
        compare(ctx, '%s of a fresh complex' % name, keep(get(make())(x)), old)
