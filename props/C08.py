"""Averaging operators, degrees and incidence relations"""
import itertools
import numpy as np
from vsym.prop import Registry
from props.lib import *
from props.shapes import *
from props.C04 import ints, SIMP

REG = Registry('C08', bounds='complexes of dimension 1-4 with up to ~30 elements: simplicial and cubical, open, closed, branching, non-orientable, in all choices of up to 5 symbolic local orientations; '
               'symbolic vertex numberings of up to 4 labels; duals of oriented manifolds; symbolic real forms (the averages are shown for all values); '
               'vertices of degree up to 300 (symbolic number of incident elements, 120..135 and 250..260 in quick)')

S = ['path3', 'cycle3', 'star3', 'triangle', 'two_triangles', 'fan3', 'book3', 'bowtie', 'octahedron', 'moebius5', 'annulus6', 'torus7', 'rp2', 'two_tets', 's3', 'tets_on_edge', 'kuhn3', 'grid2', 'pentatope']
C = ['path3', 'cycle3', 'square', 'two_squares', 'corner3', 'bowtie', 'book3', 'cube_surface', 'moebius3', 'torus3x3', 'grid3x2', 'two_cubes', 'three_cubes', 'ring3d', 'tesseract']


def mirror(ctx, E, cubical, n):
    n = min(n, len(E))
    f = rows(ctx.bool('mirror', (n,)))
    return np.array([mirrored(e, cubical) if i < n and bool(f[i]) else np.array(e) for i, e in enumerate(E)])


def mean(x, idx):
    return sum(x[i] for i in idx) / len(idx)


def stack(ctx, l):
    if not ctx.symbolic:
        return np.array(l)
    from vsym.arr import wrap
    a = np.empty(len(l), object)
    a[:] = l
    return wrap(a)


def tops_of(E, k):
    """indices of the n-elements containing each k-element"""
    N = len(E) - 1
    big = [frozenset(e) for e in E[N]]
    return [[i for i, b in enumerate(big) if frozenset(e) <= b] for e in E[k]]


def check_primal(ctx, T):
    E = [ints(e) for e in T.corners]
    N = T.n_dim
    f = ctx.real('f', (T.n_elements[0],))
    g = ctx.real('g', (T.n_elements[N],))
    A0, AN = T.averaging_operators_0, T.averaging_operators_N
    acc0, accN = T.accumulated_operators_0(), T.accumulated_operators_N()
    ctx.check('one operator per dimension', len(A0) == len(AN) == len(acc0) == len(accN) == len(T.degree) == N + 1)
    cubical = len(E[N][0]) == 2 ** N and N != 1
    for k in range(N + 1):
        ctx.close('average over the vertices of %d-elements' % k, A0[k] * f, stack(ctx, [mean(f, e) for e in E[k]]))
        tops = tops_of(E, k) if k < N else [[i] for i in range(len(E[N]))]
        ctx.close('average over the n-elements of %d-elements' % k, AN[k] * g, stack(ctx, [mean(g, t) for t in tops]))
        ctx.check('degree of %d-elements' % k, [int(d) for d in rows(T.degree[k])] == [len(t) for t in tops])
        W0 = np.zeros((T.n_elements[0], T.n_elements[k]), bool)
        for i, e in enumerate(E[k]):
            W0[e, i] = True
        ctx.check('vertices of %d-elements' % k, bool(((imat(acc0[k]) > 0) == W0).all()))
        WN = np.zeros((T.n_elements[N], T.n_elements[k]), bool)
        for i, t in enumerate(tops):
            WN[t, i] = True
        ctx.check('n-elements of %d-elements' % k, bool(((imat(accN[k]) > 0) == WN).all()))
        if k:
            M = T.matrix(k, 0)
            ctx.check('incidence of vertices and %d-elements' % k, bool((imat(M) == W0.astype(int)).all()))
            I = T.matrix(k, k)
            ctx.check('identity relation of %d-elements' % k, bool((imat(I) == np.eye(T.n_elements[k], dtype=int)).all()))
        ctx.check('range of %d-elements' % k, [int(i) for i in rows(T.range(k))] == list(range(T.n_elements[k])))
    # constants are reproduced, and total mass is preserved by the transposed operator
    for k in range(N + 1):
        ctx.close('averages of a constant', A0[k] * np.ones(T.n_elements[0]), np.ones(T.n_elements[k]))


def check_dual(ctx, T):
    E = [ints(e) for e in T.corners]
    N = T.n_dim
    D = T.dual
    nN = T.n_elements[N]
    B = T.boundary
    if B is not None:
        pidx = [[int(i) for i in rows(p)] for p in B.parent_idx]
        facets = [frozenset(E[N - 1][i]) for i in pidx[N - 1]]
    else:
        pidx, facets = [[] for _ in range(N)], []
    d = ctx.real('d', (D.n_elements[0],))
    v = ctx.real('v', (D.n_elements[N],))
    ctx.check('dual vertices', D.n_elements[0] == nN + len(facets))
    A0, AN = D.averaging_operators_0, D.averaging_operators_N
    for j in range(N + 1):
        k = N - j
        cells = tops_of(E, k) if k < N else [[i] for i in range(nN)]
        cells = [t + [nN + q for q, f in enumerate(facets) if frozenset(e) <= f] for t, e in zip(cells, E[k])]
        verts = [list(e) for e in E[k]]
        if k and B is not None:
            cells += [[nN + q for q, f in enumerate(facets) if frozenset(E[k - 1][i]) <= f] for i in pidx[k - 1]]
            verts += [list(E[k - 1][i]) for i in pidx[k - 1]]
        ctx.close('average over the dual vertices of dual %d-elements' % j, A0[j] * d, stack(ctx, [mean(d, c) for c in cells]))
        ctx.close('average over the dual n-elements of dual %d-elements' % j, AN[j] * v, stack(ctx, [mean(v, c) for c in verts]))
        ctx.check('degree of dual %d-elements' % j, [int(x) for x in rows(D.degree[j])] == [len(c) for c in verts])


@REG.family('simplicial/{}', S, timeout=150)
def simplicial(ctx, name):
    check_primal(ctx, topology(mirror(ctx, np.array(SIMP[name]), False, 4), False))


@REG.family('cubical/{}', C, timeout=150)
def cubical(ctx, name):
    b = cubes(name)
    check_primal(ctx, topology(mirror(ctx, b, True, 4 if b.ndim < 5 else 1), True))


@REG.family('labels/{}', ['path3', 'triangle', 'two_triangles', 'tet'], timeout=150)
def labels(ctx, name):
    E = np.array(SIMPLICES[name])
    L = ctx.perm('label', int(E.max()) + 1)
    check_primal(ctx, topology(L[E], False))


@REG.family('labels-cubical/{}', ['path3', 'square'], timeout=150)
def labels_c(ctx, name):
    E = cubes(name)
    L = ctx.perm('label', int(E.max()) + 1)
    check_primal(ctx, topology(L[E], True))


def manifold(ctx, E, cubical, n):
    """a symbolic sub-complex of the first n elements (the rest is kept), oriented, of manifold ones"""
    T = topology(E, cubical).fix_orientation()
    keep = rows(ctx.bool('keep', (n,)))
    c = np.ones(len(E), dtype=np.int8)
    for i, b in enumerate(keep):
        c[i] = bool(b)
    ctx.assume(bool(c.any()))
    T = T.select_subset(c)
    if not T.is_manifold or (T.boundary is not None and T.n_dim > 1 and not T.boundary.is_manifold):
        return None
    return T


@REG.family('dual-simplicial/{}/{}', [('path3', 3), ('cycle3', 3), ('grid2', 6), ('octahedron', 6), ('annulus6', 6), ('torus7', 3), ('two_tets', 2), ('s3', 5), ('kuhn3', 6), ('tet_ring', 4)], timeout=150)
def dual_s(ctx, name, n):
    T = manifold(ctx, np.array(SIMP[name]), False, n)
    if T is None:
        return ctx.check('not a manifold', True)
    check_dual(ctx, T)


@REG.family('dual-cubical/{}/{}', [('path3', 3), ('cycle3', 3), ('grid3x2', 6), ('cube_surface', 6), ('annulus3', 3), ('torus3x3', 4), ('three_cubes', 3), ('ring3d', 3), ('grid2x2x1', 4)], timeout=150)
def dual_c(ctx, name, n):
    T = manifold(ctx, cubes(name), True, n)
    if T is None:
        return ctx.check('not a manifold', True)
    check_dual(ctx, T)


@REG.family('high-degree/{}/{}-{}', [('fan', 120, 135), ('fan', 250, 258), ('star', 125, 130), ('star', 254, 258)], timeout=150)
@REG.family('high-degree/{}/{}-{}', [('fan', 3, 300), ('star', 3, 600)], tier='thorough', timeout=1500)
def high(ctx, kind, lo, hi):
    """many elements around one vertex"""
    n = int(ctx.int('n', (), lo, hi))
    if kind == 'fan':
        T = topology(np.array([(0, 1 + i, 1 + (i + 1) % n) for i in range(n)]), False)
    else:
        T = topology(np.array([(0, 1 + i) for i in range(n)]), True)
    ctx.check('degree of the centre', int(rows(T.degree[0])[0]) == n)
    g = ctx.real('g', (n,))
    ctx.close('average around the centre', (T.averaging_operators_N[0] * g)[0], mean(g, range(n)))
    B = T.boundary
    ctx.check('boundary', B is not None and B.n_elements[0] == (n if kind == 'fan' else n + 1))


@REG.family('grid/{}', ['5x4', '3x3x3', '2x2x2x2'], timeout=150)
def grid(ctx, shape):
    """larger grids"""
    shape = tuple(int(s) for s in shape.split('x'))
    check_primal(ctx, topology(grid_cubes(shape), True))
