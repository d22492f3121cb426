import itertools
import numpy as np
from vsym.prop import Registry
from props.lib import *

REG = Registry('C01', bounds='meshes of 1-5 simplices, dimension 1-4, over all assignments of pairwise distinct vertex labels (symbolic integers, '
               '3-6 vertices, hence every relative vertex ordering); pairs of simplices of dimension 5-6 (7 thorough) with any two corners exchanged; larger fixed meshes (up to ~1000 elements) with symbolic chains; labels of a mesh form a contiguous range')


def build(S):
    from pycomplex.topology.simplicial import TopologySimplicial
    return TopologySimplicial.from_simplices(S)


def facets_oracle(simplices):
    """distinct facets (as tuples of pattern ids) of a list of pattern-id tuples"""
    out = []
    for s in simplices:
        for c in itertools.combinations(s, len(s) - 1):
            k = tuple(sorted(c))
            if k not in out:
                out.append(k)
    return out


def check_complex(ctx, T, top, n_vertices):
    """T: constructed topology; top: list of lists of (possibly symbolic) vertex labels"""
    n = len(top[0]) - 1
    ctx.check('dimension', T.n_dim == n)
    E = [rows(e) for e in T.elements]
    ctx.check('number of levels', len(E) == n + 1)
    # top simplices are kept, in order and with their orientation
    ok = len(E[n]) == len(top)
    for e, s in zip(E[n], top):
        q = match(s, e)
        ok = ok and q is not None and perm_sign(q) == 1
    ctx.check('given simplices kept with their orientation', ok)
    # vertices
    ctx.check('vertex elements are 0..n', [same(v[0], i) for i, v in enumerate(E[0])] == [True] * n_vertices)
    for k in range(n, 0, -1):
        B = np.asarray(T._boundary[k - 1] if False else T.incidence[k, k - 1])
        B = rows(T.incidence[k, k - 1])
        M = imat(T.matrices[k - 1])
        ctx.check('incidence matrix shape', M.shape == (len(E[k - 1]), len(E[k])))
        used = set()
        signs = set()
        good_faces, good_signs, distinct = True, True, True
        for j, v in enumerate(E[k]):
            fs = [int(x) for x in B[j]]
            good_faces = good_faces and len(set(fs)) == k + 1
            omitted = set()
            for f in fs:
                used.add(f)
                w = E[k - 1][f]
                if k == 1:
                    hit = [i for i, x in enumerate(v) if same(x, w[0])]
                    if len(hit) != 1:
                        good_faces = False
                        continue
                    om = 1 - hit[0]
                    induced = -1 if om == 1 else 1
                else:
                    q = match(v, w)
                    if q is None:
                        good_faces = False
                        continue
                    om = (set(range(k + 1)) - set(q)).pop()
                    rank = sorted(q)
                    induced = (-1) ** om * perm_sign([rank.index(x) for x in q])
                omitted.add(om)
                signs.add(int(M[f, j]) * induced)
            good_faces = good_faces and omitted == set(range(k + 1))
            good_faces = good_faces and set(np.flatnonzero(M[:, j]).tolist()) == set(fs)
        good_signs = signs in ({1}, {-1})
        ctx.check('each %d-element is bounded by exactly its facets' % k, good_faces)
        ctx.check('incidence signs of %d-elements are the induced orientation' % k, good_signs)
        ctx.check('every %d-element is a facet of something' % (k - 1), used == set(range(len(E[k - 1]))))
        # distinctness of the lower elements
        for a, b in itertools.combinations(range(len(E[k - 1])), 2):
            if match(E[k - 1][a], E[k - 1][b]) is not None:
                distinct = False
        ctx.check('%d-elements are distinct' % (k - 1), distinct)
    chain_zero(ctx, T)


def chain_zero(ctx, T):
    for k in range(T.n_dim - 1):
        x = ctx.real('chain%d' % k, (T.n_elements[k + 2],))
        y = T.matrices[k] * (T.matrices[k + 1] * x)
        ctx.close('boundary of the boundary of a %d-chain' % (k + 2), y, np.zeros(T.n_elements[k]))
    try:
        T.check_chain()
        ok = True
    except ValueError:
        ok = False
    ctx.check('self check accepts a chain complex', ok)


PATTERNS = {
    'edge': [(0, 1)],
    'path3': [(0, 1), (2, 1), (2, 3)],
    'cycle3': [(0, 1), (1, 2), (2, 0)],
    'star3': [(0, 1), (0, 2), (3, 0)],
    'triangle': [(0, 1, 2)],
    'two_triangles': [(0, 1, 2), (1, 2, 3)],
    'two_triangles_opposed': [(0, 1, 2), (2, 1, 3)],
    'tet_surface': [(1, 2, 3), (0, 3, 2), (0, 1, 3), (0, 2, 1)],
    'tet_surface_mixed': [(1, 2, 3), (0, 2, 3), (0, 1, 3), (0, 2, 1)],
    'fan3': [(0, 1, 2), (0, 2, 3), (0, 3, 1)],
    'book3': [(0, 1, 2), (0, 1, 3), (1, 0, 4)],
    'bowtie': [(0, 1, 2), (2, 3, 4)],
    'tet': [(0, 1, 2, 3)],
    'two_tets': [(0, 1, 2, 3), (1, 2, 3, 4)],
    's3': [(1, 2, 3, 4), (0, 2, 3, 4), (0, 1, 3, 4), (0, 1, 2, 4), (0, 1, 2, 3)],
    'pentatope': [(0, 1, 2, 3, 4)],
}


@REG.family('labels/{}', sorted(PATTERNS), timeout=120)
def labels(ctx, name):
    pat = PATTERNS[name]
    n = max(max(p) for p in pat) + 1
    L = ctx.perm('label', n)
    simp = L[np.array(pat)]
    T = build(simp)
    check_complex(ctx, T, [[L[i] for i in p] for p in pat], n)
    # counts against the pattern
    lvl = [tuple(sorted(p)) for p in pat]
    for k in range(T.n_dim, 0, -1):
        lvl = facets_oracle(lvl)
        ctx.check('number of %d-elements' % (k - 1), T.n_elements[k - 1] == len(lvl))


BIG_PATTERNS = {
    'two_pentatopes': [(0, 1, 2, 3, 4), (5, 1, 2, 3, 4)],
    'octahedron': [(0, 2, 4), (2, 1, 4), (1, 3, 4), (3, 0, 4), (2, 0, 5), (1, 2, 5), (3, 1, 5), (0, 3, 5)],
    'tets_on_edge': [(0, 1, 2, 3), (0, 1, 3, 4), (0, 1, 4, 5)],
    'rp2': [(0, 1, 2), (0, 2, 3), (0, 3, 4), (0, 4, 5), (0, 5, 1), (1, 2, 4), (2, 3, 5), (3, 4, 1), (4, 5, 2), (5, 1, 3)],
}
REG.family('labels/{}', sorted(BIG_PATTERNS), tier='thorough', timeout=1500)(
    lambda ctx, name: (PATTERNS.update(BIG_PATTERNS), labels(ctx, name))[1])


@REG.family('swap/{}', ['two_pentatopes', 'octahedron', 'tets_on_edge', 'rp2', 'pentatope', 'two_tets'], timeout=120)
def swaps(ctx, name):
    """symbolic local orientation: every simplex may independently have two of its corners exchanged"""
    pat = {**PATTERNS, **BIG_PATTERNS}[name]
    f = ctx.bool('flip', (len(pat),))
    fl = rows(f)
    if len(pat) > 5:
        for b in range(5, len(pat)):
            ctx.assume(f[b] == f[b % 5])
    simp = np.array([list(p) for p in pat])
    flipped = simp.copy()
    flipped[:, [1, 2]] = flipped[:, [2, 1]]
    q = []
    for i in range(len(pat)):
        q.append(flipped[i] if bool(fl[i]) else simp[i])
    q = np.array(q)
    T = build(q)
    check_complex(ctx, T, q.tolist(), int(q.max()) + 1)


def grid_simplices(shape):
    """Kuhn triangulation of a grid, coordinates lexicographically numbered"""
    n = len(shape)
    st = [int(np.prod([s + 1 for s in shape[i + 1:]])) for i in range(n)]
    out = []
    for c in itertools.product(*[range(s) for s in shape]):
        for p in itertools.permutations(range(n)):
            v = [sum(a * b for a, b in zip(c, st))]
            for ax in p:
                v.append(v[-1] + st[ax])
            out.append(v)
    return np.array(out)


@REG.family('grid/{}', ['2:12x9', '3:4x3x3', '1:300', '4:2x1x1x1', '2:20x20'])
def grid(ctx, spec):
    shape = [int(s) for s in spec.split(':')[1].split('x')]
    simp = grid_simplices(shape)
    rng = np.random.RandomState(3)
    lab = rng.permutation(int(simp.max()) + 1)
    simp = lab[simp]
    for s in simp:
        rng.shuffle(s)
    T = build(simp)
    n = T.n_dim
    chi = sum((-1) ** k * c for k, c in enumerate(T.n_elements))
    ctx.check('Euler characteristic of a ball', chi == 1)
    chain_zero(ctx, T)
    # Stokes with a linear 1-form on the vertices: (d f)(edge) = f(end) - f(start)
    f = ctx.real('f', (T.n_elements[0],))
    E = T.elements[1]
    ctx.close('difference along edges', T.matrices[0].T * f, f[np.asarray(E)[:, 1].astype(int)] - f[np.asarray(E)[:, 0].astype(int)])
    for k in range(1, n + 1):
        M = imat(T.matrices[k - 1])
        ctx.check('facets per %d-element' % k, bool((np.abs(M).sum(axis=0) == k + 1).all()))
        # references to facets agree with vertex sets
        B = np.asarray(T.incidence[k, k - 1]).astype(int)
        Ek, El = np.asarray(T.elements[k]).astype(int), np.asarray(T.elements[k - 1]).astype(int)
        ok = all(set(El[b].tolist()) < set(e.tolist()) for e, bs in zip(Ek, B) for b in bs)
        ctx.check('facet references of %d-elements' % k, ok)


@REG.family('high/{}', ['5', '6'], timeout=150)
def high(ctx, n):
    """one simplex of high dimension, any two of its corners exchanged, and a second one on one of its facets"""
    n = int(n)
    a = int(ctx.int('a', (), 0, n))
    b = int(ctx.int('b', (), 0, n))
    s = list(range(n + 1))
    s[a], s[b] = s[b], s[a]
    t = [n + 1] + s[1:]
    T = build(np.array([s, t]))
    check_complex(ctx, T, [s, t], n + 2)


@REG.family('high-single/{}', ['7'], tier='thorough', timeout=600)
def high_single(ctx, n):
    n = int(n)
    a = int(ctx.int('a', (), 0, n))
    b = int(ctx.int('b', (), 0, n))
    s = list(range(n + 1))
    s[a], s[b] = s[b], s[a]
    T = build(np.array([s]))
    check_complex(ctx, T, [s], n + 1)


@REG.family('selfcheck/{}', ['triangle', 'tet', 'pentatope', 'two_tets', 'octahedron', 'fan3'])
def selfcheck(ctx, name):
    """a complex with one incidence sign flipped is refused by the self check"""
    pat = np.array({**PATTERNS, **BIG_PATTERNS}[name])
    T = build(pat)
    n = T.n_dim
    if n < 2:
        return
    T.check_chain()
    k = ctx.int('level', (), 0, n - 1)
    k = int(k)
    j = int(ctx.int('element', (), 0, T.n_elements[k + 1] - 1))
    c = int(ctx.int('facet', (), 0, k + 1))
    O = [np.array(o).astype(np.int8).copy() for o in T._orientation]
    O[k][j, c] *= -1
    bad = type(T)(elements=T._elements, boundary=T._boundary, orientation=O)
    M = [imat(m) for m in bad.matrices]
    broken = any((M[i] @ M[i + 1]).any() for i in range(n - 1))
    try:
        bad.check_chain()
        ok = True
    except ValueError:
        ok = False
    ctx.check('refused exactly when some boundary of a boundary does not vanish', ok == (not broken))


@REG.ob('reject/noncontiguous')
def reject(ctx):
    """vertices that do not form a contiguous range starting at 0 are refused"""
    L = ctx.int('label', (3,), -2, 4)
    l = rows(L)
    ctx.assume(l[0] != l[1]); ctx.assume(l[1] != l[2]); ctx.assume(l[0] != l[2])
    contiguous = bool(truth_max(l) == 2) and bool(-truth_max([-x for x in l]) == 0)
    try:
        build(L.reshape(1, 3))
        ok = True
    except ValueError:
        ok = False
    ctx.check('accepted iff contiguous', ok == bool(contiguous))


def truth_max(l):
    m = l[0]
    for x in l[1:]:
        if bool(x > m):
            m = x
    return m
