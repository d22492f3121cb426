"""Cubical complexes"""
import itertools
import numpy as np
from vsym.prop import Registry
from props.lib import *

REG = Registry('C02', bounds='1-4 cubes of dimension 1-3 over all cube symmetries of each cube (symbolic axis orders and mirrors) and over all '
               'assignments of vertex labels (4-6 symbolic labels), all 24 gluings of a shared face of two hexahedra; fixed grids up to ~400 cubes (dimension 1-4), '
               'with symbolic chains')


def build(C):
    from pycomplex.topology.cubical import TopologyCubical
    return TopologyCubical.from_cubes(C)


def flat(x):
    return [x] if not isinstance(x, list) else [z for y in x for z in flat(y)]


def corner(k, i):
    return tuple((i >> (k - 1 - j)) & 1 for j in range(k))


def cube_sign(src, dst, k):
    """sign of the cube symmetry taking the corner labelling src to dst (flat, C order), or None"""
    q = match(src, dst)
    if q is None:
        return None
    if k == 0:
        return 1
    c0 = corner(k, q[0])
    axes = []
    for j in range(k):
        c = corner(k, q[1 << (k - 1 - j)])
        d = [i for i in range(k) if c[i] != c0[i]]
        if len(d) != 1:
            return None
        axes.append(d[0])
    if len(set(axes)) != k:
        return None
    for i in range(2 ** k):
        want = list(c0)
        for j, b in enumerate(corner(k, i)):
            if b:
                want[axes[j]] ^= 1
        if tuple(want) != corner(k, q[i]):
            return None
    return perm_sign(axes) * (-1) ** sum(c0)


def facet(v, k, a, s):
    return [v[i] for i in range(2 ** k) if corner(k, i)[a] == s]


def check_cubes(ctx, T, top, n_vertices):
    n = T.n_dim
    ctx.check('dimension', 2 ** n == len(top[0]))
    E = [[flat(x) for x in rows(e)] for e in T.elements]
    ctx.check('number of levels', len(E) == n + 1)
    ok = len(E[n]) == len(top) and all(cube_sign(s, e, n) == 1 for s, e in zip(top, E[n]))
    ctx.check('given cubes kept with their orientation', ok)
    ctx.check('vertex elements are 0..n', len(E[0]) == n_vertices and all(same(v[0], i) for i, v in enumerate(E[0])))
    for k in range(n, 0, -1):
        B = [flat(b) for b in rows(T.incidence[k, k - 1])]
        M = imat(T.matrices[k - 1])
        ctx.check('incidence matrix shape', M.shape == (len(E[k - 1]), len(E[k])))
        used, signs, good = set(), set(), True
        for j, v in enumerate(E[k]):
            fs = [int(x) for x in B[j]]
            used |= set(fs)
            good = good and len(fs) == 2 * k == len(set(fs))
            good = good and set(np.flatnonzero(M[:, j]).tolist()) == set(fs)
            seen = set()
            for f in fs:
                w = E[k - 1][f]
                for a in range(k):
                    for s in (0, 1):
                        q = cube_sign(facet(v, k, a, s), w, k - 1)
                        if q is not None:
                            seen.add((a, s))
                            signs.add(int(M[f, j]) * q * (-1) ** (a + s))
            good = good and len(seen) == 2 * k
        ctx.check('each %d-cube is bounded by exactly its faces' % k, good)
        ctx.check('incidence signs of %d-cubes are the induced orientation' % k, signs in ({1}, {-1}))
        ctx.check('every %d-cube is a face of something' % (k - 1), used == set(range(len(E[k - 1]))))
        ctx.check('%d-cubes are distinct' % (k - 1), all(match(a, b) is None for a, b in itertools.combinations(E[k - 1], 2)))
    chain_zero(ctx, T)


def chain_zero(ctx, T):
    for k in range(T.n_dim - 1):
        x = ctx.real('chain%d' % k, (T.n_elements[k + 2],))
        ctx.close('boundary of the boundary of a %d-chain' % (k + 2), T.matrices[k] * (T.matrices[k + 1] * x), np.zeros(T.n_elements[k]))
    try:
        T.check_chain()
        ok = True
    except ValueError:
        ok = False
    ctx.check('self check accepts a chain complex', ok)


def face_counts(pat, n):
    lvl = [list(p) for p in pat]
    out = [len(lvl)]
    for k in range(n, 0, -1):
        nxt = {}
        for v in lvl:
            for a in range(k):
                for s in (0, 1):
                    f = facet(v, k, a, s)
                    nxt[tuple(sorted(f))] = f
        lvl = list(nxt.values())
        out.append(len(lvl))
    return out[::-1]


PATTERNS = {
    'edge': [[0, 1]],
    'cycle3': [[0, 1], [1, 2], [0, 2]],
    'star3': [[0, 1], [2, 0], [0, 3]],
    'square': [[0, 1, 2, 3]],
    'two_squares': [[0, 1, 2, 3], [1, 4, 3, 5]],
    'two_squares_opposed': [[0, 1, 2, 3], [4, 1, 5, 3]],
    'bowtie': [[0, 1, 2, 3], [3, 4, 5, 6]],
    'book3': [[0, 1, 2, 3], [0, 1, 4, 5], [0, 1, 6, 7]],
    'corner3': [[0, 1, 2, 3], [0, 1, 4, 5], [0, 2, 4, 6]],
    'cube_surface': [[0, 1, 2, 3], [4, 5, 6, 7], [0, 1, 4, 5], [2, 3, 6, 7], [0, 2, 4, 6], [1, 3, 5, 7]],
    'cube': [[0, 1, 2, 3, 4, 5, 6, 7]],
    'two_cubes': [[0, 1, 2, 3, 4, 5, 6, 7], [4, 5, 6, 7, 8, 9, 10, 11]],
    'three_cubes': [[0, 1, 2, 3, 4, 5, 6, 7], [4, 5, 6, 7, 8, 9, 10, 11], [2, 3, 12, 13, 6, 7, 14, 15]],
    'tesseract': [list(range(16))],
    'two_tesseracts': [list(range(16)), list(range(8, 24))],
}


def shaped(a, n):
    return a.reshape((-1,) + (2,) * n)


def dim(pat):
    return {2: 1, 4: 2, 8: 3, 16: 4}[len(pat[0])]


@REG.family('labels/{}', ['edge', 'cycle3', 'star3', 'square'], timeout=120)
def labels(ctx, name):
    pat = PATTERNS[name]
    n = max(map(max, pat)) + 1
    L = ctx.perm('label', n)
    T = build(shaped(L[np.array(pat)], dim(pat)))
    check_cubes(ctx, T, [[L[i] for i in p] for p in pat], n)
    ctx.check('element counts', T.n_elements == face_counts(pat, dim(pat)))


@REG.family('labels/{}/{}/{}', [(n, a, b) for n in ('two_squares', 'two_squares_opposed') for a in range(6) for b in range(2)], tier='thorough', timeout=900)
def labels_big(ctx, name, first, half):
    pat = PATTERNS[name]
    n = max(map(max, pat)) + 1
    L = ctx.perm('label', n)
    ctx.assume(L[0] == first)
    ctx.assume((L[1] < L[2]) if half else (L[2] < L[1]))
    T = build(shaped(L[np.array(pat)], dim(pat)))
    check_cubes(ctx, T, [[L[i] for i in p] for p in pat], n)


def symmetry(ctx, c, n, tag, rotations=True, mirrors=True):
    """apply a symbolic symmetry of the n-cube to a corner array"""
    a = np.array(c).reshape((2,) * n)
    if rotations and n > 1:
        ps = list(itertools.permutations(range(n)))
        a = a.transpose(ps[int(ctx.int(tag + '.axes', (), 0, len(ps) - 1))])
    if mirrors:
        fl = ctx.bool(tag + '.mirror', (n,))
        for i, f in enumerate(rows(fl)):
            if bool(f):
                a = np.flip(a, i)
    return a


SYM = [
    ('edge', 'r'), ('cycle3', 'rrr'), ('star3', 'rrr'), ('square', 'r'), ('two_squares', 'rr'), ('two_squares_opposed', 'rr'), ('bowtie', 'rm'),
    ('book3', 'mmm'), ('corner3', 'rmm'), ('cube_surface', 'rmm...'), ('cube_surface', '...mmr'), ('cube', 'r'), ('two_cubes', 'r.'), ('two_cubes', '.r'), ('two_cubes', 'mm'), ('three_cubes', 'm.m'),
    ('tesseract', 'm'), ('two_tesseracts', '.a'),
]


@REG.family('symmetry/{}/{}', SYM, timeout=120)
@REG.family('symmetry/{}/{}', [('corner3', 'rrr'), ('cube_surface', 'rrr...'), ('two_cubes', 'rr'), ('three_cubes', 'mrm'), ('tesseract', 'r'), ('two_tesseracts', 'am'), ('two_tesseracts', 'r.')], tier='thorough', timeout=1800)
def symm(ctx, name, how):
    pat = PATTERNS[name]
    n = dim(pat)
    q = []
    for i, (p, h) in enumerate(zip(pat, how)):
        q.append(np.array(p).reshape((2,) * n) if h == '.' else symmetry(ctx, p, n, 'cube%d' % i, rotations=h in 'ra', mirrors=h in 'rm'))
    q = np.array(q)
    T = build(q)
    check_cubes(ctx, T, [x.ravel().tolist() for x in q], int(q.max()) + 1)
    ctx.check('element counts', T.n_elements == face_counts(pat, n))


@REG.ob('gluing/face')
def gluing(ctx):
    """two hexahedra sharing four corners in an arbitrary arrangement: accepted exactly when the arrangement is a square"""
    p = ctx.perm('corner', 4)
    p = [int(x) for x in rows(p)]
    face = [4, 5, 6, 7]
    c = np.array([[0, 1, 2, 3] + face, [face[i] for i in p] + [8, 9, 10, 11]]).reshape(-1, 2, 2, 2)
    fits = cube_sign(face, [face[i] for i in p], 2) is not None
    try:
        T = build(c)
        ok = True
    except ValueError:
        ok = False
    ctx.check('accepted iff the shared corners form the same square', ok == fits)
    if ok:
        check_cubes(ctx, T, [x.ravel().tolist() for x in c], 12)


@REG.ob('reject/noncontiguous')
def reject(ctx):
    L = ctx.int('label', (4,), -2, 4)
    l = rows(L)
    for a, b in itertools.combinations(l, 2):
        ctx.assume(a != b)
    m = l[0]
    for x in l[1:]:
        if bool(x > m):
            m = x
    try:
        build(L.reshape(1, 2, 2))
        ok = True
    except ValueError:
        ok = False
    ctx.check('accepted iff vertices are contiguous', ok == (bool(m == 3) and not any(bool(x < 0) for x in l)))


@REG.ob('reject/shape')
def badshape(ctx):
    a = int(ctx.int('corners', (), 1, 3))
    b = int(ctx.int('corners2', (), 1, 3))
    try:
        build(np.arange(a * b).reshape(1, a, b))
        ok = True
    except ValueError:
        ok = False
    ctx.check('only 2x..x2 arrays are cubes', ok == (a == 2 and b == 2))


def grid_cubes(shape, periodic):
    n = len(shape)
    size = [s if p else s + 1 for s, p in zip(shape, periodic)]
    idx = np.arange(int(np.prod(size))).reshape(size)
    out = []
    for c in itertools.product(*[range(s) for s in shape]):
        v = [idx[tuple((a + b) % m for a, b, m in zip(c, d, size))] for d in itertools.product((0, 1), repeat=n)]
        out.append(np.array(v).reshape((2,) * n))
    return np.array(out)


@REG.family('grid/{}/{}', [('30', '.'), ('20', 'p'), ('20x15', '..'), ('7x8', 'p.'), ('5x6', 'pp'), ('4x5x6', '...'), ('4x3x3', 'p.p'), ('3x3x3', 'ppp'), ('2x2x2x2', '....')])
def grid(ctx, shape, per):
    """big grids and tori, cubes given in arbitrary orientation, with symbolic chains"""
    shape = [int(s) for s in shape.split('x')]
    per = [p == 'p' for p in per]
    n = len(shape)
    cubes = grid_cubes(shape, per)
    rng = np.random.RandomState(5)
    cubes = rng.permutation(int(cubes.max()) + 1)[cubes]
    cubes = np.array([np.flip(c.transpose(rng.permutation(n)), np.flatnonzero(rng.randint(0, 2, n)).tolist()) for c in cubes])
    T = build(cubes)
    for k in range(n + 1):
        want = sum(np.prod([(s if i in ax else (s if p else s + 1)) for i, (s, p) in enumerate(zip(shape, per))]) for ax in itertools.combinations(range(n), k))
        ctx.check('number of %d-cubes' % k, T.n_elements[k] == want)
    chain_zero(ctx, T)
    f = ctx.real('f', (T.n_elements[0],))
    E = np.asarray(T.elements[1]).astype(int)
    ctx.close('difference along edges', T.matrices[0].T * f, f[E[:, 1]] - f[E[:, 0]])
    for k in range(1, n + 1):
        M = imat(T.matrices[k - 1])
        ctx.check('faces per %d-cube' % k, bool((np.abs(M).sum(axis=0) == 2 * k).all()))
        B = np.asarray(T.incidence[k, k - 1]).reshape(T.n_elements[k], -1).astype(int)
        Ek, El = np.asarray(T.corners[k]).astype(int), np.asarray(T.corners[k - 1]).astype(int)
        ctx.check('face references of %d-cubes' % k, all(set(El[b].tolist()) < set(e.tolist()) for e, bs in zip(Ek, B) for b in bs))


@REG.family('selfcheck/{}', ['square', 'corner3', 'cube', 'two_cubes', 'tesseract'])
def selfcheck(ctx, name):
    """a complex with one incidence sign flipped is refused by the self check"""
    pat = PATTERNS[name]
    n = dim(pat)
    T = build(shaped(np.array(pat), n))
    T.check_chain()
    k = int(ctx.int('level', (), 0, n - 1))
    j = int(ctx.int('element', (), 0, T.n_elements[k + 1] - 1))
    c = int(ctx.int('facet', (), 0, 2 * (k + 1) - 1))
    O = [np.array(o).astype(np.int8).copy() for o in T._orientation]
    O[k].reshape(T.n_elements[k + 1], -1)[j, c] *= -1
    bad = type(T)(elements=T._elements, boundary=T._boundary, orientation=O)
    M = [imat(m) for m in bad.matrices]
    broken = any((M[i] @ M[i + 1]).any() for i in range(n - 1))
    try:
        bad.check_chain()
        ok = True
    except ValueError:
        ok = False
    ctx.check('refused exactly when some boundary of a boundary does not vanish', ok == (not broken))
