"""Orientation: detection and repair"""
import itertools
import numpy as np
from vsym.prop import Registry
from props.lib import *
from props.shapes import *

REG = Registry('C03', bounds='all 2^k choices of local orientation (symbolic mirror flags, k <= 10 quick / 14 thorough) of 28 simplicial and 18 cubical complexes of '
               'dimension 1-4: open, closed, disconnected, with loose elements, with facets shared by three or four elements, non-orientable (Moebius, Klein, projective plane)')


def flips(ctx, base, cubical, limit):
    n = len(base)
    f = ctx.bool('mirror', (n,))
    for i in range(limit, n):
        ctx.assume(f[i] == f[i % limit])
    return np.array([mirrored(e, cubical) if bool(b) else e for e, b in zip(base, rows(f))])


def orientation(ctx, base, cubical, limit):
    E = flips(ctx, base, cubical, limit)
    T = topology(E, cubical)
    L = [x.ravel().tolist() for x in E]
    good = oriented_oracle(L, cubical)
    orientable = orientable_oracle(L, cubical)
    try:
        got = bool(T.is_oriented)
    except ValueError:
        got = False
        ctx.check('only non-orientable complexes are refused', not orientable)
    ctx.check('reported as oriented exactly when neighbours agree', got == good)
    try:
        p = T.relative_parity()
    except ValueError:
        ctx.check('parities exist for orientable complexes', not orientable)
    else:
        ctx.check('parities only exist for orientable complexes', orientable)
        p = [bool(x) for x in rows(p)]
        ctx.check('one parity per element', len(p) == len(E))
        Q = [mirrored(e, cubical) if b else e for e, b in zip(E, p)]
        ctx.check('mirroring by parity gives agreement', oriented_oracle([x.ravel().tolist() for x in Q], cubical))
    try:
        F = T.fix_orientation()
    except ValueError:
        ctx.check('orientation of orientable complexes can be fixed', not orientable)
        return
    ctx.check('only orientable complexes can be oriented', orientable)
    G = [[int(x) for x in flat(e)] for e in rows(F.elements[-1])]
    ctx.check('same number of elements', len(G) == len(E))
    n = T.n_dim
    sg = [(cube_sign if cubical else simplex_sign)(l, g, n) for l, g in zip(L, G)]
    ctx.check('elements are kept or mirrored', None not in sg)
    ctx.check('neighbours agree after fixing', oriented_oracle(G, cubical))
    ctx.check('fixed complex reports itself oriented', bool(F.is_oriented))
    ctx.check('type and dimension are kept', type(F) is type(T) and F.n_dim == n)
    ctx.check('same number of elements of each dimension', F.n_elements == T.n_elements)
    if good:
        # an already oriented component is kept or mirrored as a whole
        comp = components_oracle(L, cubical) if all(len(l) <= 2 for _, l in facet_table(L, cubical).values()) else list(range(len(L)))
        ctx.check('oriented components change as a whole', all(sg[i] == sg[j] for i in range(len(L)) for j in range(i) if comp[i] == comp[j]))
    # top incidence of the repaired complex: opposite signs across every interior facet
    M = imat(F.matrices[-1])
    cnt = np.abs(M).sum(axis=1)
    ctx.check('incidence signs cancel across interior facets', bool((M.sum(axis=1)[cnt == 2] == 0).all()))


@REG.family('simplicial/{}', [s for s in SIMPLICES if len(SIMPLICES[s]) <= 10], timeout=150)
def simplicial(ctx, name):
    orientation(ctx, simplices(name), False, 6)


@REG.family('cubical/{}', [c for c in CUBES if len(CUBES[c]) <= 9], timeout=150)
def cubical(ctx, name):
    orientation(ctx, cubes(name), True, 6)


@REG.family('simplicial-full/{}', ['rp2', 'octahedron', 'torus7'], tier='thorough', timeout=2400)
def simplicial_full(ctx, name):
    orientation(ctx, simplices(name), False, 12)


@REG.family('cubical-full/{}', ['torus3x3', 'klein3x3', 'ring3d'], tier='thorough', timeout=2400)
def cubical_full(ctx, name):
    orientation(ctx, cubes(name), True, 12)


@REG.ob('simplicial/torus7', timeout=150)
def torus7(ctx):
    orientation(ctx, simplices('torus7'), False, 4)


@REG.family('label-order/{}', ['two_triangles', 'pair_and_loose', 'moebius5', 'tet_surface', 'two_tets', 'cycle3'], timeout=150)
def label_order(ctx, name):
    """the verdict does not depend on how vertices are numbered"""
    base = simplices(name)
    n = int(base.max()) + 1
    L = ctx.perm('label', n)
    if n > 5:
        for i in range(5, n):
            ctx.assume(L[i] == i)
    T = topology(L[base], False)
    good = oriented_oracle(base.tolist(), False)
    orientable = orientable_oracle(base.tolist(), False)
    try:
        ctx.check('same verdict for every numbering', bool(T.is_oriented) == good)
        ctx.check('orientable', orientable)
        F = T.fix_orientation()
        ctx.check('fixed', bool(F.is_oriented))
    except ValueError:
        ctx.check('non-orientable for every numbering', not orientable)
