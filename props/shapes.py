"""pattern complexes used by several properties (plain python)"""
import itertools
import numpy as np
from props.lib import *


def grid_cubes(shape, periodic=None, twist=False):
    """regular grid of n-cubes; periodic axes wrap, `twist` mirrors axis 1 when wrapping around axis 0 (2d: Moebius / Klein)"""
    n = len(shape)
    periodic = periodic or [False] * n
    size = [s if p else s + 1 for s, p in zip(shape, periodic)]
    idx = np.arange(int(np.prod(size))).reshape(size)

    def at(c):
        c = list(c)
        if twist and c[0] >= size[0]:
            c[1] = (-c[1]) % size[1] if periodic[1] else size[1] - 1 - c[1]
        return int(idx[tuple(a % m for a, m in zip(c, size))])
    out = []
    for c in itertools.product(*[range(s) for s in shape]):
        out.append([at([a + b for a, b in zip(c, d)]) for d in itertools.product((0, 1), repeat=n)])
    return np.array(out).reshape((-1,) + (2,) * n)


def kuhn(cubes):
    """triangulate every cube into n! simplices along its main diagonal"""
    n = cubes.ndim - 1
    out = []
    for c in cubes:
        for p in itertools.permutations(range(n)):
            i = [0] * n
            v = [int(c[tuple(i)])]
            for a in p:
                i[a] = 1
                v.append(int(c[tuple(i)]))
            if perm_sign(p) < 0:
                v[0], v[1] = v[1], v[0]
            out.append(v)
    return np.array(out)


SIMPLICES = {
    # name: (simplices, orientable)
    'edge': [(0, 1)],
    'path3': [(0, 1), (2, 1), (2, 3)],
    'cycle3': [(0, 1), (1, 2), (2, 0)],
    'cycle5': [(0, 1), (1, 2), (2, 3), (3, 4), (4, 0)],
    'two_cycles': [(0, 1), (1, 2), (2, 0), (3, 4), (4, 5), (5, 3)],
    'star3': [(0, 1), (0, 2), (3, 0)],
    'star4': [(0, 1), (0, 2), (3, 0), (4, 0)],
    'triangle': [(0, 1, 2)],
    'two_triangles': [(0, 1, 2), (1, 2, 3)],
    'loose_triangles': [(0, 1, 2), (3, 4, 5)],
    'pair_and_loose': [(0, 1, 2), (2, 1, 3), (4, 5, 6)],
    'loose_and_pair': [(4, 5, 6), (0, 1, 2), (2, 1, 3)],
    'two_pairs': [(0, 1, 2), (2, 1, 3), (4, 5, 6), (6, 5, 7)],
    'touching': [(0, 1, 2), (2, 1, 3), (3, 4, 5), (5, 4, 6)],
    'strip3': [(0, 1, 2), (2, 1, 3), (2, 3, 4)],
    'tet_surface': [(1, 2, 3), (0, 3, 2), (0, 1, 3), (0, 2, 1)],
    'fan3': [(0, 1, 2), (0, 2, 3), (0, 3, 1)],
    'book3': [(0, 1, 2), (0, 1, 3), (1, 0, 4)],
    'book4': [(0, 1, 2), (0, 1, 3), (1, 0, 4), (1, 5, 0)],
    'book_tets': [(0, 1, 2, 3), (0, 1, 2, 4), (1, 0, 2, 5), (0, 1, 6, 2)],
    'bowtie': [(0, 1, 2), (2, 3, 4)],
    'octahedron': [(0, 2, 4), (2, 1, 4), (1, 3, 4), (3, 0, 4), (2, 0, 5), (1, 2, 5), (3, 1, 5), (0, 3, 5)],
    'moebius5': [(0, 1, 2), (1, 2, 3), (2, 3, 4), (3, 4, 0), (4, 0, 1)],
    'annulus6': [(0, 3, 1), (1, 3, 4), (1, 4, 2), (2, 4, 5), (2, 5, 0), (0, 5, 3)],
    'rp2': [(0, 1, 2), (0, 2, 3), (0, 3, 4), (0, 4, 5), (0, 5, 1), (1, 2, 4), (2, 3, 5), (3, 4, 1), (4, 5, 2), (5, 1, 3)],
    'torus7': [(i, (i + 1) % 7, (i + 3) % 7) for i in range(7)] + [(i, (i + 3) % 7, (i + 2) % 7) for i in range(7)],
    'tet': [(0, 1, 2, 3)],
    'two_tets': [(0, 1, 2, 3), (1, 2, 3, 4)],
    'tets_and_loose': [(0, 1, 2, 3), (1, 2, 3, 4), (5, 6, 7, 8)],
    'tets_on_edge': [(0, 1, 2, 3), (0, 1, 3, 4), (0, 1, 4, 5)],
    's3': [(1, 2, 3, 4), (0, 2, 3, 4), (0, 1, 3, 4), (0, 1, 2, 4), (0, 1, 2, 3)],
    'tet_ring': [(0, 1, 2, 3), (0, 1, 3, 4), (0, 1, 4, 5), (0, 1, 5, 2)],
    'pentatope': [(0, 1, 2, 3, 4)],
    'two_pentatopes': [(0, 1, 2, 3, 4), (5, 1, 2, 3, 4)],
}

CUBES = {
    'edge': [[0, 1]],
    'path3': [[0, 1], [2, 1], [2, 3]],
    'cycle3': [[0, 1], [1, 2], [0, 2]],
    'cycle_and_loose': [[0, 1], [1, 2], [0, 2], [3, 4]],
    'square': [[0, 1, 2, 3]],
    'two_squares': [[0, 1, 2, 3], [1, 4, 3, 5]],
    'squares_and_loose': [[0, 1, 2, 3], [1, 4, 3, 5], [6, 7, 8, 9]],
    'bowtie': [[0, 1, 2, 3], [3, 4, 5, 6]],
    'book3': [[0, 1, 2, 3], [0, 1, 4, 5], [0, 1, 6, 7]],
    'book4': [[0, 1, 2, 3], [0, 1, 4, 5], [0, 1, 6, 7], [0, 1, 8, 9]],
    'corner3': [[0, 1, 2, 3], [0, 1, 4, 5], [0, 2, 4, 6]],
    'cube_surface': [[0, 1, 2, 3], [4, 5, 6, 7], [0, 1, 4, 5], [2, 3, 6, 7], [0, 2, 4, 6], [1, 3, 5, 7]],
    'moebius2': grid_cubes((2, 1), [True, False], True).reshape(-1, 4).tolist(),
    'moebius3': grid_cubes((3, 1), [True, False], True).reshape(-1, 4).tolist(),
    'annulus3': grid_cubes((3, 1), [True, False]).reshape(-1, 4).tolist(),
    'torus3x3': grid_cubes((3, 3), [True, True]).reshape(-1, 4).tolist(),
    'klein3x3': grid_cubes((3, 3), [True, True], True).reshape(-1, 4).tolist(),
    'grid2x2': grid_cubes((2, 2)).reshape(-1, 4).tolist(),
    'grid3x2': grid_cubes((3, 2)).reshape(-1, 4).tolist(),
    'cube': [[0, 1, 2, 3, 4, 5, 6, 7]],
    'two_cubes': [[0, 1, 2, 3, 4, 5, 6, 7], [4, 5, 6, 7, 8, 9, 10, 11]],
    'three_cubes': [[0, 1, 2, 3, 4, 5, 6, 7], [4, 5, 6, 7, 8, 9, 10, 11], [2, 3, 12, 13, 6, 7, 14, 15]],
    'ring3d': grid_cubes((3, 1, 1), [True, False, False]).reshape(-1, 8).tolist(),
    'grid2x2x1': grid_cubes((2, 2, 1)).reshape(-1, 8).tolist(),
    'tesseract': [list(range(16))],
}


def simplices(name):
    return np.array([list(p) for p in SIMPLICES[name]])


def cubes(name):
    a = np.array(CUBES[name])
    n = {2: 1, 4: 2, 8: 3, 16: 4}[a.shape[1]]
    return a.reshape((-1,) + (2,) * n)


# ------------------------------------------------------------------ orientation oracle
def flat(x):
    return [x] if not isinstance(x, list) else [z for y in x for z in flat(y)]


def corner(k, i):
    return tuple((i >> (k - 1 - j)) & 1 for j in range(k))


def cube_sign(src, dst, k):
    """sign of the cube symmetry taking the corner labelling src to dst (flat, C order), or None"""
    q = match(src, dst)
    if q is None:
        return None
    if k == 0:
        return 1
    c0 = corner(k, q[0])
    axes = []
    for j in range(k):
        c = corner(k, q[1 << (k - 1 - j)])
        d = [i for i in range(k) if c[i] != c0[i]]
        if len(d) != 1:
            return None
        axes.append(d[0])
    if len(set(axes)) != k:
        return None
    for i in range(2 ** k):
        want = list(c0)
        for j, b in enumerate(corner(k, i)):
            if b:
                want[axes[j]] ^= 1
        if tuple(want) != corner(k, q[i]):
            return None
    return perm_sign(axes) * (-1) ** sum(c0)


def cube_facets(v):
    """[(facet corners, induced sign)] of a flat cube"""
    k = {2: 1, 4: 2, 8: 3, 16: 4, 32: 5}[len(v)]
    return [([v[i] for i in range(2 ** k) if corner(k, i)[a] == s], (-1) ** (a + s)) for a in range(k) for s in (0, 1)]


def simplex_facets(v):
    return [([x for i, x in enumerate(v) if i != j], (-1) ** j) for j in range(len(v))]


def simplex_sign(src, dst, k=None):
    q = match(src, dst)
    return None if q is None else perm_sign(q)


def facet_table(elements, cubical):
    """canonical facets {sorted corners: [(element index, sign relative to a fixed representative)]}"""
    t = {}
    for i, e in enumerate(elements):
        e = [int(x) for x in flat(e)]
        for f, s in (cube_facets(e) if cubical else simplex_facets(e)):
            key = tuple(sorted(f))
            if key not in t:
                t[key] = (f, [])
            rep = t[key][0]
            if cubical:
                k = {1: 0, 2: 1, 4: 2, 8: 3, 16: 4}[len(f)]
                q = cube_sign(f, rep, k)
            else:
                q = simplex_sign(f, rep)
            t[key][1].append((i, s * q))
    return t


def oriented_oracle(elements, cubical):
    """every facet between exactly two elements is induced with opposite signs"""
    return all(len(l) != 2 or l[0][1] + l[1][1] == 0 for f, l in facet_table(elements, cubical).values())


def orientable_oracle(elements, cubical):
    n = len(elements)
    col = [None] * n
    adj = [[] for _ in range(n)]
    for f, l in facet_table(elements, cubical).values():
        if len(l) == 2:
            (a, s), (b, t) = l
            adj[a].append((b, -s * t))
            adj[b].append((a, -s * t))
    for i in range(n):
        if col[i] is None:
            col[i] = 1
            st = [i]
            while st:
                a = st.pop()
                for b, s in adj[a]:
                    if col[b] is None:
                        col[b] = col[a] * s
                        st.append(b)
                    elif col[b] != col[a] * s:
                        return False
    return True


def components_oracle(elements, cubical):
    """component label of each element (connected through shared facets)"""
    n = len(elements)
    lab = list(range(n))

    def find(i):
        while lab[i] != i:
            i = lab[i]
        return i
    for f, l in facet_table(elements, cubical).values():
        for (a, _), (b, _) in zip(l, l[1:]):
            lab[find(a)] = find(b)
    r = [find(i) for i in range(n)]
    names = {}
    return [names.setdefault(x, len(names)) for x in r]


def mirrored(e, cubical):
    """same element with opposite orientation"""
    e = np.array(e)
    return np.flip(e, 0) if cubical else np.concatenate([e[1::-1], e[2:]])


def topology(elements, cubical):
    if cubical:
        from pycomplex.topology.cubical import TopologyCubical
        return TopologyCubical.from_cubes(elements)
    from pycomplex.topology.simplicial import TopologySimplicial
    return TopologySimplicial.from_simplices(elements)
