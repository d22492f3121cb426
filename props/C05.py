"""Dual complexes"""
import itertools
import numpy as np
from vsym.prop import Registry
from props.lib import *
from props.shapes import *
from props.C04 import SIMP, ints, facets_of

REG = Registry('C05', bounds='duals of every oriented subset (symbolic selection) of complexes with up to 8 elements, dimension 1-3 (simplicial and cubical, closed and with boundary), '
               'of complexes with every vertex numbering (4-5 symbolic labels) and with symbolic axis orders and mirrors of cubes; larger grids; symbolic real dual forms')


def check_dual(ctx, T):
    N = T.n_dim
    B = None if T.is_closed else T.boundary
    D = T.dual
    ctx.check('dimension of the dual', D.n_dim == N)
    bc = [0] * (N + 2) if B is None else [0] + list(B.n_elements) + [0]
    want = [T.n_elements[N - j] + bc[N - j] for j in range(N + 1)]
    ctx.check('one dual element per primal element and per boundary element', list(D.n_elements) == want)
    if B is not None:
        ctx.check('elements on the boundary, of it and within', list(D.p_elements) == list(B.n_elements) + [0] and list(D.d_elements) == [0] + list(B.n_elements)
                  and list(D.i_elements) == [a - b for a, b in zip(T.n_elements, list(B.n_elements) + [0])])
    M = [imat(m) for m in D.matrices]
    ctx.check('number of dual matrices', len(M) == N and len(D.matrices_2) == N)
    ctx.check('shapes of the dual matrices', [m.shape for m in M] == [(want[j], want[j + 1]) for j in range(N)])
    P = [imat(m) for m in T.matrices]
    for j in range(N):
        k = N - 1 - j                       # primal matrix k: k-elements x k+1-elements;  dual j: dual of k+1 ; dual j+1: dual of k
        x = ctx.real('primal%d' % k, (T.n_elements[k],))
        y = ctx.real('dual%d' % j, (want[j],))
        # interior part of the dual incidence is the transposed primal incidence
        si = D.selector_interior
        ctx.close('interior part of the dual incidence', si[k + 1] * (D.matrices[j] * (si[k].T * x)), T.matrices[k].T * x)
        ctx.close('incidence without the dual boundary', D.matrices_2[j] * x, D.matrices[j] * (si[k].T * x))
        sb = D.selector_boundary
        ctx.close('selectors split dual forms', si[k + 1].T * (si[k + 1] * y) + (sb[k + 1].T * (sb[k + 1] * y) if bc[k + 1] else 0 * y), y)
    for k in range(N + 1):
        z = ctx.real('z%d' % k, (want[N - k],))
        ctx.close('interior selection keeps the dual elements of primal elements', D.selector_interior[k] * z, z[:T.n_elements[k]])
        r = D.selector_boundary[k]
        if B is not None:
            ctx.close('boundary selection keeps the dual elements of boundary elements', r * z, z[T.n_elements[k]:])
        else:
            ctx.check('nothing to select on the boundary of a closed dual', r.shape == (0, T.n_elements[k]))
    for j in range(N - 1):
        x = ctx.real('chain%d' % j, (want[j + 2],))
        ctx.close('boundary of the boundary of a dual chain', D.matrices[j] * (D.matrices[j + 1] * x), np.zeros(want[j]))
    try:
        D.check_chain()
        ok = True
    except ValueError:
        ok = False
    ctx.check('self check accepts the dual', ok)
    # every dual edge has exactly two opposite ends
    ctx.check('dual edges of facets have two opposite ends', all(sorted(c[c != 0].tolist()) == [-1, 1] for c in M[0][:, :T.n_elements[N - 1]].T) if True else True)
    c = ctx.real('const')
    d0 = D.matrices[0].T * (np.ones(want[0]) * c)
    ctx.close('derivative of a constant vanishes', d0[:T.n_elements[N - 1]] if N > 1 else d0, np.zeros(T.n_elements[N - 1]))
    if B is not None:
        f = T.n_elements[N - 1]
        bi = [int(i) for i in rows(B.parent_idx[N - 1])]
        G = M[0][T.n_elements[N]:, :f]
        H = np.zeros_like(G)
        H[range(len(bi)), bi] = 1
        ctx.check('every boundary facet gets its own dual vertex', bool((np.abs(G) == H).all()))
    # discrete adjointness: pairing of a dual form with the primal derivative
    for k in range(N):
        x = ctx.real('u%d' % k, (T.n_elements[k],))
        y = ctx.real('v%d' % k, (T.n_elements[k + 1],))
        lhs = T.matrices[k].T * x
        rhs = D.matrices_2[N - 1 - k] * x
        ctx.close('dual incidence is the transpose of the primal incidence', rhs[:T.n_elements[k + 1]], lhs)


def subset_dual(ctx, E, cubical):
    n = len(E)
    sel = ctx.bool('select', (n,))
    ctx.assume(sel.any())
    keep = [i for i, s in enumerate(rows(sel)) if bool(s)]
    T0 = topology(E, cubical)
    chain = np.zeros(n, dtype=np.int8)
    chain[keep] = 1
    T = T0.select_subset(chain)
    SE = ints(T.elements[-1])
    table = facet_table(SE, cubical)
    if not (oriented_oracle(SE, cubical) and all(len(l) <= 2 for _, l in table.values())):
        ctx.check('not an oriented manifold', True)
        return
    if T.n_dim > 1:
        # only manifolds with a manifold boundary have a dual
        bd = [f for f, (_, l) in table.items() if len(l) == 1]
        for f in facets_of(bd, cubical)[T.n_dim - 2] if bd else []:
            if sum(set(f) <= set(b) for b in bd) > 2:
                ctx.check('boundary is not a manifold', True)
                return
    check_dual(ctx, T)


@REG.family('subset/{}/{}', [('s', 'path6'), ('s', 'cycle5'), ('s', 'grid2'), ('s', 'octahedron'), ('s', 'annulus6'), ('s', 'kuhn3'),
                             ('c', 'path3'), ('c', 'grid3x2'), ('c', 'cube_surface'), ('c', 'annulus3'), ('c', 'three_cubes'), ('c', 'grid2x2x1'), ('c', 'ring3d')], timeout=150)
def subset(ctx, kind, name):
    subset_dual(ctx, np.array(SIMP[name]) if kind == 's' else cubes(name), kind == 'c')


LABELS = ['triangle', 'two_triangles', 'tet_surface', 'tet', 'two_tets', 's3', 'path3', 'cycle3', 'moebius5']


@REG.family('labels/{}', LABELS, timeout=150)
def labels(ctx, name):
    """every numbering of the vertices; the complex is brought into a consistent orientation first"""
    base = simplices(name)
    n = int(base.max()) + 1
    L = ctx.perm('label', n)
    T = topology(L[base], False)
    if not orientable_oracle(base.tolist(), False):
        try:
            T.dual
            ok = False
        except ValueError:
            ok = True
        ctx.check('no dual of a non-orientable complex', ok)
        return
    check_dual(ctx, T.fix_orientation())


@REG.family('labels/{}', ['pentatope', 'tets_on_edge', 'tet_ring', 'two_pentatopes'], tier='thorough', timeout=2400)
def labels_t(ctx, name):
    labels(ctx, name)


def symmetry(ctx, a, tag):
    n = a.ndim
    ps = list(itertools.permutations(range(n)))
    if n > 1:
        a = a.transpose(ps[int(ctx.int(tag + '.axes', (), 0, len(ps) - 1))])
    for i, f in enumerate(rows(ctx.bool(tag + '.mirror', (n,)))):
        if bool(f):
            a = np.flip(a, i)
    return a


@REG.family('cubes/{}/{}', [('square', 'r'), ('two_squares', 'rr'), ('cube_surface', 'r.r...'), ('cube', 'r'), ('two_cubes', 'r.'), ('two_cubes', '.r'), ('path3', 'rrr')], timeout=150)
def cube_sym(ctx, name, how):
    base = cubes(name)
    E = np.array([symmetry(ctx, e, 'cube%d' % i) if h == 'r' else e for i, (e, h) in enumerate(zip(base, how))])
    check_dual(ctx, topology(E, True).fix_orientation())


@REG.family('cubes/{}/{}', [('two_cubes', 'rr'), ('tesseract', 'r'), ('three_cubes', 'rr.')], tier='thorough', timeout=2400)
def cube_sym_t(ctx, name, how):
    cube_sym(ctx, name, how)


@REG.family('grid/{}', ['c:12x9', 'c:4x3x3', 'k:6x5', 'k:2x3x2', 'c:2x2x2x1', 'k:1x1x1x1', 'c:20', 'k:9'], timeout=150)
def grid(ctx, spec):
    kind, shape = spec.split(':')
    E = grid_cubes(tuple(int(s) for s in shape.split('x')))
    rng = np.random.RandomState(7)
    E = rng.permutation(int(E.max()) + 1)[E]
    if kind == 'k':
        E = kuhn(E)
    check_dual(ctx, topology(E, kind == 'c').fix_orientation())


@REG.family('refused/{}', ['two_triangles', 'tet_surface', 'moebius5', 'octahedron', 'two_tets', 'rp2'])
def refused(ctx, name):
    """there is a dual exactly when the complex is oriented"""
    base = simplices(name)
    f = ctx.bool('mirror', (len(base),))
    for i in range(5, len(base)):
        ctx.assume(f[i] == f[i % 5])
    E = np.array([mirrored(e, False) if bool(b) else e for e, b in zip(base, rows(f))])
    T = topology(E, False)
    good = oriented_oracle(E.tolist(), False)
    try:
        T.dual
        ok = True
    except ValueError:
        ok = False
    ctx.check('dual exists iff oriented', ok == good)
