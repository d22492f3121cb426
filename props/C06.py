"""Subdivision of topologies"""
import itertools
import math
import numpy as np
from vsym.prop import Registry
from props.lib import *
from props.shapes import *
from props.C04 import SIMP, ints, facets_of
from props.C02 import symmetry

REG = Registry('C06', bounds='every subdivision of simplicial and cubical complexes with up to 14 elements, dimension 1-4, over all choices of local orientation (symbolic mirrors, up to 6 per complex), '
               'all vertex numberings (up to 5 symbolic labels), all axis orders of cubes; symbolic real chains; second level of subdivision for 2d')


def mirrored_by(ctx, base, cubical, limit):
    f = ctx.bool('mirror', (len(base),))
    for i in range(limit, len(base)):
        ctx.assume(f[i] == f[i % limit])
    return np.array([mirrored(e, cubical) if bool(b) else e for e, b in zip(base, rows(f))])


def relabel(ctx, base, limit=5):
    n = int(base.max()) + 1
    L = ctx.perm('label', n)
    for i in range(limit, n):
        ctx.assume(L[i] == i)
    return np.array([[int(x) for x in rows(L)]])[0][base]


class Old:
    """vertex numbering of the subdivided complex: one vertex per old element, by dimension"""

    def __init__(self, T):
        self.T = T
        self.off = np.cumsum([0] + list(T.n_elements)).tolist()
        self.vs = [frozenset(e) for k in range(T.n_dim + 1) for e in ints(T.elements[k])]
        self.dim = [k for k in range(T.n_dim + 1) for _ in range(T.n_elements[k])]


def check_valid(ctx, tag, F, cubical):
    N = F.n_dim
    for k in range(N - 1):
        x = ctx.real('%s.chain%d' % (tag, k), (F.n_elements[k + 2],))
        ctx.close(tag + ': boundary of the boundary vanishes', F.matrices[k] * (F.matrices[k + 1] * x), np.zeros(F.n_elements[k]))
    for k in range(1, N + 1):
        E, L = ints(F.corners[k]), ints(F.corners[k - 1])
        ok = True
        for e, b in zip(E, np.asarray(F.incidence[k, k - 1]).reshape(len(E), -1)):
            want = {tuple(sorted(f)) for f, _ in (cube_facets(e) if cubical else simplex_facets(e))}
            ok = ok and {tuple(sorted(L[int(i)])) for i in b} == want
        ctx.check(tag + ': incidence matches the vertices of %d-elements' % k, ok)
        ctx.check(tag + ': %d-elements are distinct' % k, len({tuple(sorted(e)) for e in E}) == len(E))


def orientation_kept(ctx, tag, T, ccub, F, fcub):
    a, b = ints(T.corners[-1]), ints(F.corners[-1])
    ctx.check(tag + ': oriented exactly when the original is', oriented_oracle(a, ccub) == oriented_oracle(b, fcub))


def check_fundamental(ctx, T, cubical):
    o = Old(T)
    N = T.n_dim
    n_flags = len(T.elements[-1]) * (2 ** N * math.factorial(N) if cubical else math.factorial(N + 1))
    for mode in ([None] if cubical else [True, False]):
        F = T.subdivide_fundamental() if mode is None else T.subdivide_fundamental(oriented=mode)
        tag = 'fundamental' if mode is not False else 'fundamental unoriented'
        E = ints(F.elements[-1])
        ctx.check(tag + ': number of domains', len(E) == n_flags and F.n_dim == N)
        ctx.check(tag + ': one vertex per original element', F.n_elements[0] == sum(T.n_elements))
        ok = True
        for e in E:
            ds = sorted(e, key=lambda v: o.dim[v])
            ok = ok and [o.dim[v] for v in ds] == list(range(N + 1))
            ok = ok and all(o.vs[a] < o.vs[b] for a, b in zip(ds, ds[1:]))
        ctx.check(tag + ': every domain is a chain of nested elements', ok)
        ctx.check(tag + ': every chain of nested elements occurs once', len({tuple(sorted(e)) for e in E}) == n_flags)
        check_valid(ctx, tag, F, False)
        ctx.check(tag + ': refers to the original', F.parent is T)
        if mode is not False:
            orientation_kept(ctx, tag, T, cubical, F, False)
        else:
            # the corner order is vertex-edge-...-element everywhere, so that neighbours are mirror images
            ctx.check(tag + ': corners are ordered by dimension', all([o.dim[v] for v in e] == list(range(N + 1)) for e in E))


def check_cubical(ctx, T, cubical):
    """one cube for every corner of every element; its corners are the elements in between"""
    o = Old(T)
    N = T.n_dim
    F = T.subdivide_cubical()
    tops = ints(T.corners[-1])
    E = ints(F.corners[-1])
    n = sum(len(t) for t in tops)
    ctx.check('cubical: number of cubes', len(E) == n and F.n_dim == N)
    ctx.check('cubical: one vertex per original element', F.n_elements[0] == sum(T.n_elements))
    want = set()
    for c, t in enumerate(tops):
        for v in t:
            between = [i for i, s in enumerate(o.vs) if v in s and s <= frozenset(t) and (o.dim[i] != N or i == o.off[N] + c)]
            want.add(tuple(sorted(between)))
    ctx.check('cubical: cubes span from a corner to the element', {tuple(sorted(e)) for e in E} == want)
    # opposite corners / adjacency: corners of a cube that differ in one axis are incident elements
    good = True
    for e in E:
        q = match(e, e)
        for i in range(2 ** N):
            for a in range(N):
                j = i ^ (1 << a)
                x, y = e[i], e[j]
                good = good and abs(o.dim[x] - o.dim[y]) == 1 and (o.vs[x] < o.vs[y] or o.vs[y] < o.vs[x])
    ctx.check('cubical: neighbouring corners are incident elements', good)
    check_valid(ctx, 'cubical', F, True)
    orientation_kept(ctx, 'cubical', T, cubical, F, True)
    return F


def chain_map(ctx, tag, T, F, X, signed):
    """transfer of a chain commutes with taking the boundary"""
    N = T.n_dim
    ctx.check(tag + ': shapes', [x.shape for x in X] == [(F.n_elements[k], T.n_elements[k]) for k in range(N + 1)])
    for k in range(1, N + 1):
        x = ctx.real('%s.x%d' % (tag, k), (T.n_elements[k],))
        ctx.close(tag + ': transfer of %d-chains commutes with the boundary' % k, F.matrices[k - 1] * (X[k] * x), X[k - 1] * (T.matrices[k - 1] * x))


def check_ancestry(ctx, tag, T, F, X, anc, weight):
    """X[k] has a one for every fine k-element lying inside a coarse k-element, and nothing else"""
    for k in range(T.n_dim + 1):
        A = imat(X[k])
        W = np.zeros_like(A)
        for i, a in enumerate(anc[k]):
            if a is not None:
                W[i, a] = 1
        ctx.check(tag + ': children of %d-elements' % k, bool((A == W).all()))
        ctx.check(tag + ': number of children of %d-elements' % k, bool((A.sum(axis=0) == weight(k)).all()))


def cubical_transfers(ctx, T, F, signed=True):
    o = Old(T)
    order, parent = T.subdivide_cubical_relations(F)
    ok = True
    for k, (a, b) in enumerate(zip(order, parent)):
        E = ints(F.corners[k])
        A, B = np.asarray(a).reshape(len(E), -1), np.asarray(b).reshape(len(E), -1)
        ok = ok and all(int(A[i, j]) == o.dim[v] and int(B[i, j]) == v - o.off[o.dim[v]] for i, e in enumerate(E) for j, v in enumerate(e))
    ctx.check('relations: dimension and index of the originating element of every corner', ok)
    anc = []
    for k in range(T.n_dim + 1):
        l = []
        for e in ints(F.corners[k]):
            dims = [o.dim[v] for v in e]
            l.append(e[dims.index(k)] - o.off[k] if 0 in dims and k in dims else None)
        anc.append(l)
    check_ancestry(ctx, 'cubical transfer', T, F, F.transfer_matrices, anc, lambda k: 2 ** k)
    ctx.check('subdivided: refers to the original', F.parent is T)
    if signed:
        chain_map(ctx, 'cubical transfer', T, F, F.transfer_matrices, True)


def check_simplicial(ctx, T):
    F = T.subdivide_simplicial()
    tops = ints(T.elements[-1])
    N = T.n_dim
    E = ints(F.elements[-1])
    want = [tuple(sorted(f)) + (T.n_elements[0] + i,) for i, t in enumerate(tops) for f, _ in simplex_facets(t)]
    ctx.check('simplicial: number of simplices', len(E) == len(want) and F.n_dim == N)
    ctx.check('simplicial: one simplex per facet and centre', sorted(tuple(sorted(e)) for e in E) == sorted(want))
    ctx.check('simplicial: one new vertex per element', F.n_elements[0] == T.n_elements[0] + len(tops))
    check_valid(ctx, 'simplicial', F, False)
    orientation_kept(ctx, 'simplicial', T, False, F, False)


def loop_anc(T, F):
    n0 = T.n_elements[0]
    edges = ints(T.elements[1])
    tris = ints(T.elements[2])
    edge_of = {frozenset(e): i for i, e in enumerate(edges)}
    a0 = [i if i < n0 else None for i in range(F.n_elements[0])]
    a1 = []
    for e in ints(F.elements[1]):
        lo, hi = min(e), max(e)
        a1.append(hi - n0 if lo < n0 else None)
    a2 = []
    for e in ints(F.elements[2]):
        sup = set()
        for v in e:
            sup |= {v} if v < n0 else set(edges[v - n0])
        a2.append([i for i, t in enumerate(tris) if set(t) == sup][0])
    return [a0, a1, a2]


def check_loop(ctx, T, direct=False, signs=True):
    tag = 'loop direct' if direct else 'loop'
    F = T.subdivide_loop_direct() if direct else T.subdivide_loop()
    n0, n1, n2 = T.n_elements
    tris, edges = ints(T.elements[2]), ints(T.elements[1])
    eid = {frozenset(e): n0 + i for i, e in enumerate(edges)}
    want = set()
    for a, b, c in tris:
        ab, bc, ca = eid[frozenset((a, b))], eid[frozenset((b, c))], eid[frozenset((c, a))]
        want |= {tuple(sorted(x)) for x in [(ab, bc, ca), (a, ab, ca), (b, ab, bc), (c, bc, ca)]}
    E = ints(F.elements[2])
    ctx.check(tag + ': counts', F.n_elements == [n0 + n1, 2 * n1 + 3 * n2, 4 * n2])
    ctx.check(tag + ': four triangles per triangle', {tuple(sorted(e)) for e in E} == want and len(E) == len(want))
    check_valid(ctx, tag, F, False)
    orientation_kept(ctx, tag, T, False, F, False)
    ctx.check(tag + ': refers to the original', F.parent is T)
    # same orientation as the parent triangle: corner triangle (a, ab, ca) is a cyclic shift of the orientation a -> b -> c
    anc = loop_anc(T, F)
    good = True
    for e, t in zip(E, anc[2]):
        a, b, c = tris[t]
        m = {a: 0, b: 2, c: 4, eid[frozenset((a, b))]: 1, eid[frozenset((b, c))]: 3, eid[frozenset((c, a))]: 5}
        x = [m[v] for v in e]
        good = good and ((x[1] - x[0]) % 6 + (x[2] - x[1]) % 6 + (x[0] - x[2]) % 6 == 6)
    ctx.check(tag + ': children have the orientation of their parent', good)
    check_ancestry(ctx, tag + ' transfer', T, F, F.transfer_matrices, anc, lambda k: [1, 2, 4][k])
    if signs:
        chain_map(ctx, tag + ' transfer', T, F, F.transfer_matrices, True)
    return F


def dual_transfers(ctx, tag, T, F):
    """dual forms: interior part transfers like the primal, boundary part like the boundary"""
    D, C = F.dual, T.dual
    X = D.transfer_matrices
    N = T.n_dim
    ctx.check(tag + ': dual transfer shapes', [x.shape for x in X] == [(D.n_elements[j], C.n_elements[j]) for j in range(N + 1)])
    for k in range(N + 1):
        A = imat(X[N - k])
        nf, nc = F.n_elements[k], T.n_elements[k]
        W = np.zeros_like(A)
        W[:nf, :nc] = imat(F.transfer_matrices[k])
        if k:
            bf = [int(i) for i in rows(F.boundary.parent_idx[k - 1])]
            bc = [int(i) for i in rows(T.boundary.parent_idx[k - 1])]
            P = imat(F.transfer_matrices[k - 1])
            for i, f in enumerate(bf):
                for j, c in enumerate(bc):
                    W[nf + i, nc + j] = P[f, c]
        ctx.check(tag + ': dual transfer of %d-elements' % k, bool((A == W).all()))


# ---------------------------------------------------------------------------------------------------------------
S_SMALL = ['path3', 'cycle3', 'triangle', 'two_triangles', 'tet_surface', 'fan3', 'moebius5', 'bowtie', 'book3', 'tet', 'two_tets', 's3', 'pentatope']
C_SMALL = ['path3', 'cycle3', 'square', 'two_squares', 'corner3', 'bowtie', 'book3', 'cube_surface', 'annulus3', 'moebius3', 'grid2x2', 'cube', 'two_cubes', 'ring3d', 'tesseract']


@REG.family('fundamental/simplicial/{}', S_SMALL, timeout=150)
def fund_s(ctx, name):
    check_fundamental(ctx, topology(mirrored_by(ctx, simplices(name), False, 3 if name in ('s3', 'two_tets') else 4), False), False)


@REG.family('fundamental/cubical/{}', C_SMALL, timeout=150)
def fund_c(ctx, name):
    b = cubes(name)
    check_fundamental(ctx, topology(mirrored_by(ctx, b, True, 2 if b.ndim > 3 else 4), True), True)


@REG.family('cubical/simplicial/{}', ['triangle', 'two_triangles', 'tet_surface', 'fan3', 'moebius5', 'bowtie', 'book3', 'annulus6', 'tet', 'two_tets', 's3', 'tet_ring'], timeout=150)
def cub_s(ctx, name):
    b = simplices(name)
    T = topology(mirrored_by(ctx, b, False, 4), False)
    check_cubical(ctx, T, False)


@REG.family('cubical/simplicial-labels/{}', ['triangle', 'two_triangles', 'tet'], timeout=150)
@REG.family('cubical/simplicial-labels/{}', ['two_tets', 's3', 'tet_surface'], tier='thorough', timeout=1500)
def cub_sl(ctx, name):
    check_cubical(ctx, topology(relabel(ctx, simplices(name)), False), False)


@REG.family('cubical/cubical/{}', C_SMALL, timeout=150)
def cub_c(ctx, name):
    b = cubes(name)
    if name == 'tesseract':
        T = topology(b, True)
    else:
        T = topology(mirrored_by(ctx, b, True, 2 if b.ndim > 3 else 4), True)
    F = check_cubical(ctx, T, True)
    cubical_transfers(ctx, T, F)
    tops = ints(T.corners[-1])
    if oriented_oracle(tops, True) and all(len(l) <= 2 for _, l in facet_table(tops, True).values()) and not T.is_closed and T.n_dim > 1:
        dual_transfers(ctx, 'cubical', T, F)


@REG.family('cubical/cubical-symmetry/{}/{}', [('square', 'r'), ('two_squares', 'rr'), ('corner3', 'mmr'), ('cube', 'r'), ('two_cubes', 'm.')], timeout=150)
def cub_sym(ctx, name, how):
    b = cubes(name)
    E = np.array([e if h == '.' else symmetry(ctx, e.ravel(), e.ndim, 'cube%d' % i, rotations=h == 'r') for i, (e, h) in enumerate(zip(b, how))])
    T = topology(E, True)
    F = check_cubical(ctx, T, True)
    cubical_transfers(ctx, T, F)


@REG.family('simplicial/{}', S_SMALL, timeout=150)
def simp(ctx, name):
    check_simplicial(ctx, topology(mirrored_by(ctx, simplices(name), False, 4), False))


TRI = ['triangle', 'two_triangles', 'tet_surface', 'fan3', 'moebius5', 'bowtie', 'book3', 'annulus6', 'octahedron', 'pair_and_loose']


def tri(E):
    return topology(E, False).as_2()


@REG.family('loop/{}', TRI, timeout=150)
def loop(ctx, name):
    T = tri(mirrored_by(ctx, simplices(name), False, 4))
    F = check_loop(ctx, T)
    tops = ints(T.elements[-1])
    if oriented_oracle(tops, False) and all(len(l) <= 2 for _, l in facet_table(tops, False).values()) and not T.is_closed:
        dual_transfers(ctx, 'loop', T, F)


@REG.family('loop-direct/{}', TRI, timeout=150)
def loop_direct(ctx, name):
    T = tri(mirrored_by(ctx, simplices(name), False, 4))
    F = check_loop(ctx, T, direct=True)
    tops = ints(T.elements[-1])
    if oriented_oracle(tops, False) and all(len(l) <= 2 for _, l in facet_table(tops, False).values()) and not T.is_closed:
        dual_transfers(ctx, 'loop direct', T, F)


@REG.family('loop-labels/{}', ['triangle', 'two_triangles', 'tet_surface', 'fan3'], timeout=150)
@REG.family('loop-labels/{}', ['moebius5', 'book3', 'bowtie'], tier='thorough', timeout=1500)
def loop_labels(ctx, name):
    E = relabel(ctx, simplices(name))
    check_loop(ctx, tri(E))
    check_loop(ctx, tri(E), direct=True)


@REG.family('loop-twice/{}', ['two_triangles', 'tet_surface', 'moebius5', 'annulus6'], timeout=150)
def loop_twice(ctx, name):
    T = tri(mirrored_by(ctx, simplices(name), False, 2))
    check_loop(ctx, check_loop(ctx, T))
    check_loop(ctx, check_loop(ctx, T, direct=True), direct=True)
    check_loop(ctx, T.subdivide_loop_direct(), signs=False)


@REG.family('quads-to-triangles/{}', [c for c in C_SMALL if cubes(c).ndim == 3] + ['grid3x2', 'torus3x3'], timeout=150)
def quads(ctx, name):
    T = topology(mirrored_by(ctx, cubes(name), True, 4), True).as_2()
    F = T.subdivide_simplicial()
    tops = ints(T.corners[-1])
    n0 = T.n_elements[0]
    want = sorted(tuple(sorted(f)) + (n0 + i,) for i, t in enumerate(tops) for f, _ in cube_facets(t))
    E = ints(F.elements[2])
    ctx.check('one triangle per side and centre', sorted(tuple(sorted(e)) for e in E) == want)
    check_valid(ctx, 'triangles', F, False)
    orientation_kept(ctx, 'triangles', T, True, F, False)
    ctx.check('refers to the original', F.parent is T)
    X = F.transfer_operators
    x = ctx.real('x', (n0,))
    y = X[0] * x
    ctx.close('vertex values are kept, centres get the average', y, np.concatenate([x, np.array([sum(x[v] for v in t) / 4 for t in tops])]) if not ctx.symbolic
              else _cat(x, [sum(x[v] for v in t) / 4 for t in tops]))
    z = ctx.real('z', (T.n_elements[2],))
    par = [max(e) - n0 for e in E]
    ctx.close('triangles inherit the value of their quad', X[2] * z, z[np.array(par)])


def _cat(x, l):
    return np.concatenate([x, np.array(l, dtype=object).view(type(x))])


@REG.family('twice/{}', ['two_squares', 'corner3'], timeout=150)
def twice(ctx, name):
    T = topology(mirrored_by(ctx, cubes(name), True, 3), True)
    F = check_cubical(ctx, T, True)
    G = check_cubical(ctx, F, True)
    cubical_transfers(ctx, F, G)
