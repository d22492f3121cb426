"""Subsets, boundaries, components, selectors"""
import itertools
import numpy as np
from vsym.prop import Registry
from props.lib import *
from props.shapes import *

REG = Registry('C04', bounds='every non-empty subset of the elements (symbolic selection chain) of complexes with up to 9 elements (12 thorough), dimension 1-4, '
               'simplicial and cubical, open, closed and non-manifold; symbolic real forms on the selections; larger grids with single elements removed (symbolic hole)')

SIMP = dict(SIMPLICES, grid2=kuhn(grid_cubes((2, 2))).tolist(), kuhn3=kuhn(grid_cubes((1, 1, 1))).tolist(), grid41=kuhn(grid_cubes((4, 1))).tolist(),
            surface_strip=SIMPLICES['tet_surface'] + [(4, 5, 6), (6, 5, 7), (6, 7, 8)],
            path6=[(i, i + 1) for i in range(6)])


def facets_of(vs, cubical):
    """all faces, level by level, as sorted tuples; index 0 = vertices"""
    lvl = {tuple(sorted(v)): v for v in vs}
    out = [set(lvl)]
    while len(next(iter(lvl))) > 1:
        nxt = {}
        for v in lvl.values():
            for f, _ in (cube_facets(v) if cubical else simplex_facets(v)):
                nxt[tuple(sorted(f))] = f
        lvl = nxt
        out.append(set(lvl))
    return out[::-1]


def ints(a):
    return [[int(x) for x in flat(e)] if isinstance(e, list) else [int(e)] for e in rows(a)]


def check_embedding(ctx, label, parent, child):
    """child.parent_idx refers to the same elements of the parent"""
    idx = [[int(i) for i in rows(p)] for p in child.parent_idx]
    ctx.check(label + ': one reference per element', [len(i) for i in idx] == [len(ints(e)) for e in child.elements])
    vm = idx[0]
    ok, inj = True, True
    for k, (e, i) in enumerate(zip(child.elements, idx)):
        P = ints(parent.elements[k])
        inj = inj and len(set(i)) == len(i)
        for c, j in zip(ints(e), i):
            ok = ok and sorted(vm[v] for v in c) == sorted(P[j])
    ctx.check(label + ': references are distinct', inj)
    ctx.check(label + ': references have the same vertices', ok)
    return idx


def code_indices(l):
    from pycomplex.topology.util import np as code
    return code.array(l)


def study(ctx, E, cubical, regions=True):
    n = len(E)
    sel = ctx.bool('select', (n,))
    ctx.assume(~(~sel).all() if False else sel.any())
    keep = [i for i, s in enumerate(rows(sel)) if bool(s)]
    T = topology(E, cubical)
    chain = np.zeros(n, dtype=np.int8)
    chain[keep] = 1
    made = T.chain(-1, fill=code_indices(keep))
    ctx.check('chain of the given elements', [int(i) for i in rows(made)] == chain.tolist())
    chain[keep[::2]] = -1               # the sign of a chain does not matter for what it selects
    S = T.select_subset(chain)
    dim = T.n_dim
    idx = check_embedding(ctx, 'subset', T, S)
    ctx.check('selected elements, in order', idx[dim] == keep)
    PE, SE = ints(T.elements[-1]), ints(S.elements[-1])
    ctx.check('selected elements keep their orientation', [[idx[0][v] for v in e] for e in SE] == [PE[i] for i in keep])
    faces = facets_of([PE[i] for i in keep], cubical)
    ctx.check('subset has all faces and nothing else', S.n_elements == [len(f) for f in faces])
    ctx.check('subset knows its parent', S.parent is T)
    ctx.check('subset type', type(S) is type(T))

    table = facet_table(SE, cubical)
    oriented = oriented_oracle(SE, cubical)
    orientable = orientable_oracle(SE, cubical)
    simple = all(len(l) <= 2 for _, l in table.values())
    # components
    comp = components_oracle(SE, cubical)
    nc, lab = S.label_connections()
    lab = [int(x) for x in rows(lab)]
    ctx.check('number of components', int(nc) == len(set(comp)))
    ctx.check('component labels', len(lab) == len(comp) and all((lab[i] == lab[j]) == (comp[i] == comp[j]) for i in range(len(comp)) for j in range(i)))
    ctx.check('connectedness', bool(S.is_connected) == (len(set(comp)) == 1))
    parts = S.split_connected_components()
    got = []
    for p in parts:
        pi = check_embedding(ctx, 'component', S, p)
        got.append(sorted(pi[dim]))
        ctx.check('component is connected', bool(p.is_connected))
    want = [[i for i in range(len(comp)) if comp[i] == c] for c in sorted(set(comp))]
    ctx.check('components partition the elements', sorted(got) == sorted(want))
    ctx.check('components are sorted by size', [len(g) for g in got] == sorted([len(g) for g in got], reverse=True))
    # manifoldness
    if regions and dim > 0:
        r = [int(x) for x in rows(S.regions_per_vertex)]
        wantr = []
        for v in range(S.n_elements[0]):
            inc = [i for i, e in enumerate(SE) if v in e]
            lab2 = {i: i for i in inc}
            for f, (_, l) in table.items():
                if v in f:
                    l = [i for i, _ in l if i in lab2]
                    for a, b in zip(l, l[1:]):
                        o, w = lab2[b], lab2[a]
                        lab2 = {i: (w if x == o else x) for i, x in lab2.items()}
            wantr.append(len(set(lab2.values())))
        if dim > 1:
            ctx.check('regions around each vertex', r == wantr)
            ctx.check('manifold iff one region around each vertex', bool(S.is_manifold) == all(x == 1 for x in wantr))
    # boundary
    if not oriented:
        try:
            S.boundary
            ok = False
        except ValueError:
            ok = True
        ctx.check('boundary of a non-oriented complex is refused', ok)
        return
    free = {f for f, (rep, l) in table.items() if sum(s for _, s in l) != 0}
    B = S.boundary
    ctx.check('closed iff no free facet', (B is None) == (not free) and bool(S.is_closed) == (not free))
    bfaces = [set() for _ in range(dim + 1)]
    if B is not None:
        bidx = check_embedding(ctx, 'boundary', S, B)
        bt = [[bidx[0][v] for v in e] for e in ints(B.elements[-1])]
        ctx.check('boundary consists of the free facets', {tuple(sorted(e)) for e in bt} == free and len(bt) == len(free))
        ctx.check('boundary dimension', B.n_dim == dim - 1)
        bfaces = facets_of(bt, cubical) + [set()]
        ctx.check('boundary has all faces of the free facets and nothing else', B.n_elements == [len(f) for f in bfaces[:-1]])
        ctx.check('boundary knows its parent', B.parent is S)
        if simple and dim > 1:
            sg = set()
            for e in bt:
                rep, l = table[tuple(sorted(e))]
                q = cube_sign(e, rep, dim - 1) if cubical else simplex_sign(e, rep)
                sg.add(q * l[0][1])
            ctx.check('boundary carries the induced orientation', len(sg) == 1)
            ctx.check('boundary is oriented', bool(B.is_oriented))
        if dim > 1:
            M = imat(B.matrices[-1])
            ctx.check('boundary of the boundary vanishes', not (M.sum(axis=1)).any() or not simple)
            if simple:
                ctx.check('boundary is closed', bool(B.is_closed))
    # selectors
    for k in range(dim + 1):
        x = ctx.real('form%d' % k, (S.n_elements[k],))
        si, sb = S.selector_interior[k], S.selector_boundary[k]
        keys = [tuple(sorted(c)) for c in ints(S.elements[k])]
        bi = [i for i, c in enumerate(keys) if c in bfaces[k]]
        ii = [i for i, c in enumerate(keys) if c not in bfaces[k]]
        ctx.close('interior part of a %d-form' % k, si * x, x[ii])
        ctx.close('boundary part of a %d-form' % k, sb * x, x[bi])
        ctx.close('interior and boundary parts make up the %d-form' % k, si.T * (si * x) + sb.T * (sb * x), x)


@REG.family('simplicial/{}', ['path6', 'cycle5', 'star3', 'grid2', 'octahedron', 'moebius5', 'annulus6', 'book3', 'book4', 'bowtie', 'touching', 's3', 'tet_ring', 'kuhn3', 'surface_strip', 'two_pentatopes'], timeout=150)
def simplicial(ctx, name):
    study(ctx, np.array(SIMP[name]), False)


@REG.family('cubical/{}', ['path3', 'cycle3', 'grid3x2', 'cube_surface', 'annulus3', 'moebius3', 'book3', 'book4', 'corner3', 'bowtie', 'three_cubes', 'ring3d', 'grid2x2x1'], timeout=150)
def cubical(ctx, name):
    study(ctx, cubes(name), True)


@REG.family('cubical/{}', ['torus3x3', 'klein3x3'], timeout=600, tier='thorough')
def cubical_t(ctx, name):
    study(ctx, cubes(name), True)


@REG.family('simplicial/{}', ['torus7', 'rp2', 'grid41'], timeout=2400, tier='thorough')
def simplicial_t(ctx, name):
    study(ctx, np.array(SIMP[name]), False, regions=name != 'torus7')


@REG.family('hole/{}', ['2:4x4', '3:3x3x3', '2t:4x4', '1:8', '2k:3x3', '3k:2x2x2'], timeout=150)
def hole(ctx, spec):
    """a grid with two arbitrary elements removed"""
    kind, shape = spec.split(':')
    shape = tuple(int(s) for s in shape.split('x'))
    E = grid_cubes(shape, [kind.endswith('t')] * len(shape))
    cubical = not kind.endswith('k')
    if not cubical:
        E = kuhn(E)
    n = len(E)
    a = int(ctx.int('a', (), 0, n - 1))
    b = min(n - 1, a + int(ctx.int('b', (), 0, 3)))
    keep = [i for i in range(n) if i not in (a, b)]
    T = topology(E, cubical)
    chain = np.ones(n, dtype=np.int8)
    chain[[a, b]] = 0
    S = T.select_subset(chain)
    dim = T.n_dim
    idx = check_embedding(ctx, 'subset', T, S)
    ctx.check('selected elements, in order', idx[dim] == keep)
    SE = ints(S.elements[-1])
    table = facet_table(SE, cubical)
    free = {f for f, (rep, l) in table.items() if len(l) == 1}
    B = S.boundary
    bidx = check_embedding(ctx, 'boundary', S, B)
    bt = [[bidx[0][v] for v in e] for e in ints(B.elements[-1])]
    ctx.check('boundary consists of the free facets', {tuple(sorted(e)) for e in bt} == free and len(bt) == len(free))
    comp = components_oracle(SE, cubical)
    ctx.check('number of components', int(S.label_connections()[0]) == len(set(comp)))
    if dim > 1:
        ctx.check('boundary is closed', bool(B.is_closed))
    for k in range(dim + 1):
        x = ctx.real('form%d' % k, (S.n_elements[k],))
        si, sb = S.selector_interior[k], S.selector_boundary[k]
        ctx.close('interior and boundary parts make up the %d-form' % k, si.T * (si * x) + sb.T * (sb * x), x)
        if k < dim:
            ctx.close('boundary part of a %d-form' % k, sb * x, x[sorted(bidx[k])])


@REG.family('bad-selection/{}', ['grid3x2', 'cube_surface'])
def bad_selection(ctx, name):
    T = topology(cubes(name), True)
    m = int(ctx.int('length', (), 1, 9))
    try:
        T.select_subset(np.ones(m, dtype=np.int8))
        ok = True
    except ValueError:
        ok = False
    ctx.check('selection must have one entry per element', ok == (m == T.n_elements[-1]))


@REG.ob('two squares glued along both ends')
def two_ends(ctx):
    """the two quads of the shortest Moebius strip share two edges, with opposing signs in any orientation"""
    b = cubes('moebius2')
    f = rows(ctx.bool('mirror', (2, 2)))
    E = np.array([np.flip(e, [a for a in (0, 1) if bool(f[i][a])]) for i, e in enumerate(b)])
    T = topology(E, True)
    n, lab = T.label_connections()
    ctx.check('connected', int(n) == 1 and len(set(int(x) for x in rows(lab))) == 1 and bool(T.is_connected))
    ctx.check('one region around each vertex', [int(x) for x in rows(T.regions_per_vertex)] == [1] * 4 and bool(T.is_manifold))
