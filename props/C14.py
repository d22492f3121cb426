"""Picking and sampling on regular grids"""
import itertools
import numpy as np
from vsym.prop import Registry
from props.lib import *
from props.shapes import *
from props.C04 import ints
from props.C09 import arr, nested
from props.C10 import exact, regular_type, flat as iflat

REG = Registry('C14', bounds='uniform (also anisotropic and shifted) regular grids of 1-4 dimensions with up to 6 cubes, and every subset of their cubes; spacing along one axis symbolic in [1/4, 2] (1-2 dimensions), '
               'every query point within two cells around the grid, every initial guess, all values of the sampled form (scalar and vector valued)',
               assumptions=['real arithmetic in place of floating point; results compared within 1e-6',
                            'the nearest neighbour search of scipy returns a nearest neighbour (any one, on ties)',
                            'local axes of the cubes follow the coordinate axes, possibly reversed'])

H = [.75, 1.5, .5, 1.]
O = [-.5, .25, -1., .125]


class Grid(object):
    """axis-aligned uniform grid: plain description of cells, faces and vertices"""

    def __init__(self, ctx, shape, free=(), mirror=False, keep=None):
        from pycomplex import synthetic
        ctx.fork_extremes()
        n = self.n = len(shape)
        self.shape = shape
        h = exact(ctx, list(H[:n]))
        for d in free:
            h[d] = ctx.real('h%d' % d, (), .25, 2)
        self.h = h
        o = exact(ctx, O[:n])
        self.X = [[o[d] + h[d] * i for i in range(k + 1)] for d, k in enumerate(shape)]
        C = synthetic.n_cube_grid(shape)
        V = np.asarray(C.vertices).tolist()
        ax = [sorted({v[d] for v in V}) for d in range(n)]
        L = [[ax[d].index(v[d]) for d in range(n)] for v in V]
        T = C.topology
        if mirror:
            from pycomplex.topology.cubical import TopologyCubical
            E = np.asarray(T.elements[-1]).copy()
            for i in range(0, len(E), 2):
                E[i] = np.flip(E[i], 0)
            T = TopologyCubical.from_cubes(E)
        self.C = regular_type(n)(vertices=nested(ctx, [[self.X[d][i] for d, i in enumerate(v)] for v in L]), topology=T)
        if keep is not None:
            self.C = self.C.select_subset(np.array(keep))
            L = [L[i] for i in iflat(self.C.topology.parent_idx[0])]
        self.L = L
        # box of every element of every dimension, in grid coordinates
        self.box = [[self.bounds([int(v) for v in flat(e)]) for e in np.asarray(plain(k)).reshape(len(k), -1).tolist()] if d else [self.bounds([i]) for i in range(len(L))]
                    for d, k in enumerate(self.C.topology.corners)]

    def bounds(self, e):
        return [(min(self.L[v][d] for v in e), max(self.L[v][d] for v in e)) for d in range(self.n)]

    def at(self, d, i):
        """coordinate of a grid position (halves are centers of cells)"""
        return self.X[d][0] + self.h[d] * i

    def point(self, ctx, name='x', margin=2., size=1):
        """any point around the grid"""
        u = rows(ctx.real(name, (size, self.n), -margin, max(self.shape) + margin))
        for r in u:
            for d in range(self.n):
                ctx.assume(r[d] <= self.shape[d] + margin)
        return [[self.at(d, r[d]) for d in range(self.n)] for r in u], u

    def locate(self, x, halves=False):
        """grid cell that holds the coordinates, along each axis (clamped): forks"""
        s = 2 if halves else 1
        out = []
        for d in range(self.n):
            i = 0
            while i < self.shape[d] * s - 1 and not bool(x[d] * s <= i + 1):
                i += 1
            out.append(i)
        return out


def clamp(x, hi):
    if bool(x < 0):
        return 0
    if bool(x > hi):
        return hi
    return x


def inside(ctx, x, shape):
    for d, s in enumerate(shape):
        ctx.assume(x[d] >= 0)
        ctx.assume(x[d] <= s)


def check_pick(ctx, G, cube, bary, x, u, label=''):
    """picked cubes hold their points, and the coordinates within the cube are right"""
    C = G.C
    E = np.asarray(plain(C.topology.elements[-1])).reshape(-1, 2 ** G.n)
    ctx.check(label + 'one cube per point', tuple(np.shape(cube)) == (len(x),))
    ctx.check(label + 'coordinates shape', tuple(bary.shape) == (len(x), G.n))
    b = rows(bary)
    for p, (i, r) in enumerate(zip(rows(cube), u)):
        i = int(i)
        e = [int(v) for v in E[i]]
        box = G.bounds(e)
        for d in range(G.n):
            lo, hi = box[d]
            # inside of the cube, or nearest to it when outside of the grid
            ctx.leq(label + 'not below the cube', min_(lo, r[d], lo == 0), r[d])
            ctx.leq(label + 'not above the cube', r[d], max_(hi, r[d], hi == G.shape[d]))
            ctx.close(label + 'local coordinates', (G.at(d, G.L[e[-1]][d]) - G.at(d, G.L[e[0]][d])) * b[p][d], x[p][d] - G.at(d, G.L[e[0]][d]), tol=1e-6)


def min_(lo, x, free):
    return x if free else lo


def max_(hi, x, free):
    return x if free else hi


def indices(l):
    from pycomplex.topology.util import np as code
    return code.array(l)


def query(ctx, p):
    return nested(ctx, p)


GRIDS = [((1,), ()), ((4,), (0,)), ((2, 2), ()), ((3, 2), ()), ((2, 1), (0,)), ((2, 1, 1), ()), ((1, 1, 2), ()), ((1, 1, 1, 1), ()), ((2, 1, 1, 1), ())]
GRIDS_T = [((6,), (0,)), ((3, 3), ()), ((2, 2), (0,)), ((4, 3), ()), ((2, 2, 2), ()), ((3, 2, 1), ()), ((1, 2, 1, 2), ())]


def _pick(ctx, shape, free, mirror):
    G = Grid(ctx, shape, free, mirror)
    x, u = G.point(ctx)
    cube, b = G.C.pick_primal(query(ctx, x))
    check_pick(ctx, G, cube, b, x, u)


@REG.family('pick/{0}/{1}/mirrored:{2}', [(s, f, False) for s, f in GRIDS] + [((2, 2), (), True), ((3,), (), True), ((2, 1, 1), (), True)])
def pick(ctx, shape, free, mirror):
    _pick(ctx, shape, free, mirror)


@REG.family('pick/{0}/{1}', GRIDS_T, tier='thorough', timeout=1200)
def pick_thorough(ctx, shape, free):
    _pick(ctx, shape, free, False)


@REG.family('guess/{0}', [((3,),), ((2, 2),), ((3, 2),), ((2, 1, 1),)])
def guess(ctx, shape):
    """any initial guess gives the cube that holds the point"""
    G = Grid(ctx, shape)
    x, u = G.point(ctx, margin=0.)
    n = int(np.prod(shape))
    g = ctx.int('guess', (1,), 0, n - 1)
    g0 = int(rows(g)[0])
    given = indices([g0])
    cube, b = G.C.pick_primal(query(ctx, x), given)
    check_pick(ctx, G, cube, b, x, u)
    ctx.check('guess is left as given', [int(i) for i in rows(given)] == [g0])
    i = int(rows(cube)[0])
    lo = G.box[-1][g0]
    # a guess that holds the point strictly inside is kept
    if all(bool(r > a) and bool(r < c) for r, (a, c) in zip(u[0], lo)):
        ctx.check('right guess is kept', i == g0)


@REG.family('guesses/{0}', [((3,),), ((2, 1),)])
def guesses(ctx, shape):
    """several points at once, some with a right guess"""
    G = Grid(ctx, shape)
    x, u = G.point(ctx, margin=0., size=2)
    n = int(np.prod(shape))
    g = [int(i) for i in rows(ctx.int('guess', (2,), 0, n - 1))]
    cube, b = G.C.pick_primal(query(ctx, x), indices(g))
    check_pick(ctx, G, cube, b, x, u)


@REG.family('subset/{0}', [((3,),), ((2, 2),), ((3, 1),), ((2, 1, 1),)])
def subset(ctx, shape):
    """any part of a grid: points within it"""
    n = int(np.prod(shape))
    keep = [bool(b) for b in rows(ctx.bool('keep', (n,)))]
    ctx.assume(any(keep))
    G = Grid(ctx, shape, keep=keep)
    x, u = G.point(ctx, margin=0.)
    c = G.locate(u[0])
    held = [tuple(a for a, b in box) for box in G.box[-1]]
    ctx.assume(tuple(c) in held)
    cube, b = G.C.pick_primal(query(ctx, x))
    check_pick_inside(ctx, G, cube, b, x, u)
    f = field(ctx, G, 0)
    ctx.close('interpolated value', G.C.sample_primal_0(arr(ctx, f), query(ctx, x)), arr(ctx, [interpolate(G, f, u[0])]))


def check_pick_inside(ctx, G, cube, b, x, u):
    for i, r in zip(rows(cube), u):
        for d, (lo, hi) in enumerate(G.box[-1][int(i)]):
            ctx.leq('not below the cube', lo, r[d])
            ctx.leq('not above the cube', r[d], hi)


# ------------------------------------------------------------------ fundamental domains
def domain_check(ctx, G, dom, b, x, u, label=''):
    n = G.n
    ctx.check(label + 'domains shape', tuple(np.shape(dom)) == (len(x),) + (2,) * n)
    ctx.check(label + 'coordinates shape', tuple(b.shape) == (len(x), n))
    D = np.asarray(plain(dom)).reshape(len(x), -1).tolist()
    b = rows(b)
    for p, (dd, r) in enumerate(zip(D, u)):
        where = []
        for i, e in enumerate(dd):
            k = sum(corner(n, i))
            where.append([(lo + hi) / 2 for lo, hi in G.box[k][int(e)]])
        lo = [min(w[d] for w in where) for d in range(n)]
        hi = [max(w[d] for w in where) for d in range(n)]
        ctx.check(label + 'a box of half the size of a cube', all(h - l == .5 for l, h in zip(lo, hi)))
        v, c = where[0], where[-1]
        ctx.check(label + 'corners are elements of all dimensions between a vertex and its cube',
                  all(w == [c[d] if q else v[d] for d, q in enumerate(corner(n, i))] for i, w in enumerate(where)))
        for d in range(n):
            ctx.leq(label + 'not below the domain', min_(lo[d], r[d], lo[d] == 0), r[d])
            ctx.leq(label + 'not above the domain', r[d], max_(hi[d], r[d], hi[d] == G.shape[d]))
            ctx.close(label + 'local coordinates', b[p][d] * (c[d] - v[d]), r[d] - v[d])


@REG.family('fundamental/{0}/{1}', [((1,), (0,)), ((2,), ()), ((2, 1), ()), ((2, 2), ()), ((1, 1, 1), ()), ((2, 1, 1), ())])
def fundamental(ctx, shape, free):
    G = Grid(ctx, shape, free)
    x, u = G.point(ctx)
    dom, b = G.C.pick_fundamental(query(ctx, x))
    domain_check(ctx, G, dom, b, x, u)


@REG.family('fundamental-guess/{0}', [((2,),), ((2, 1),)])
def fundamental_guess(ctx, shape):
    G = Grid(ctx, shape)
    x, u = G.point(ctx, margin=0.)
    n = int(np.prod(shape)) * 2 ** len(shape)
    g = int(rows(ctx.int('guess', (1,), 0, n - 1))[0])
    dom, b = G.C.pick_fundamental(query(ctx, x), indices([g]))
    domain_check(ctx, G, dom, b, x, u)


@REG.family('dual/{0}', [((3,),), ((2, 2),), ((2, 1, 1),)])
def dual(ctx, shape):
    """dual cell of a vertex: the points nearest to it along each axis"""
    G = Grid(ctx, shape)
    x, u = G.point(ctx)
    i = G.C.pick_dual(query(ctx, x))
    ctx.check('one vertex per point', tuple(np.shape(i)) == (1,))
    v = G.L[int(rows(i)[0])]
    for d in range(G.n):
        ctx.leq('not below the dual cell', min_(v[d] - .5, u[0][d], v[d] == 0), u[0][d])
        ctx.leq('not above the dual cell', u[0][d], max_(v[d] + .5, u[0][d], v[d] == shape[d]))


# ------------------------------------------------------------------ sampling
def field(ctx, G, k, name='f'):
    return rows(ctx.real(name, (len(G.box[k]),), -2, 2))


def interpolate(G, f, u):
    """multilinear interpolation between the corners of the cell (values outside are those at the nearest point)"""
    c = G.locate(u)
    n = G.n
    where = {tuple(v): i for i, v in enumerate(G.L)}
    t = [clamp(u[d] - c[d], 1) for d in range(n)]
    s = 0
    for q in itertools.product((0, 1), repeat=n):
        w = 1
        for d in range(n):
            w = w * (t[d] if q[d] else 1 - t[d])
        s = s + w * f[where[tuple(a + b for a, b in zip(c, q))]]
    return s


@REG.family('sample/{0}/{1}/mirrored:{2}', [((3,), (0,), False), ((2, 2), (), False), ((3, 1), (), False), ((2, 1, 1), (), False), ((1, 1, 1, 1), (), False), ((2, 1), (), True)])
def sample(ctx, shape, free, mirror):
    G = Grid(ctx, shape, free, mirror)
    x, u = G.point(ctx)
    f = field(ctx, G, 0)
    p0 = arr(ctx, f)
    s = G.C.sample_primal_0(p0, query(ctx, x))
    ctx.check('one value per point', tuple(s.shape) == (1,))
    ctx.close('interpolated value', s, arr(ctx, [interpolate(G, f, u[0])]))
    ctx.eq('form is left as given', p0, arr(ctx, f))


@REG.family('sample-vector/{0}', [((2,),), ((2, 1),)])
def sample_vector(ctx, shape):
    G = Grid(ctx, shape)
    x, u = G.point(ctx, size=2)
    f, g = field(ctx, G, 0), field(ctx, G, 0, 'g')
    s = G.C.sample_primal_0(nested(ctx, [list(t) for t in zip(f, g)]), query(ctx, x))
    ctx.check('one vector per point', tuple(s.shape) == (2, 2))
    ctx.close('interpolated value', s, nested(ctx, [[interpolate(G, f, r), interpolate(G, g, r)] for r in u]))


def dual_average(G, d0):
    """mean of the dual vertices around each element: cubes, and the boundary facets on it"""
    T = G.C.topology
    n = G.n
    nc = len(G.box[n])
    # dual boundary vertices belong to facets of a single cube, in order of the boundary complex
    facets = [j for j, f in enumerate(G.box[n - 1]) if sum(within(f, c) for c in G.box[n]) == 1]
    order = iflat(T.boundary.parent_idx[-1]) if T.boundary is not None else []
    assert sorted(order) == sorted(facets)
    out = []
    for k in range(n + 1):
        row = []
        for e in G.box[k]:
            near = [d0[i] for i, c in enumerate(G.box[n]) if within(e, c)]
            if k < n:
                near += [d0[nc + i] for i, j in enumerate(order) if within(e, G.box[n - 1][j])]
            row.append(sum(near) / len(near))
        out.append(row)
    return out


def within(e, c):
    return all(a[0] >= b[0] and a[1] <= b[1] for a, b in zip(e, c))


@REG.family('sample-dual/{0}/{1}', [((1,), (0,)), ((2,), ()), ((1, 1), ()), ((2, 1), ()), ((1, 1, 1), ())], timeout=120)
def sample_dual(ctx, shape, free):
    G = Grid(ctx, shape, free)
    n = G.n
    x, u = G.point(ctx)
    n0 = int(G.C.topology.dual.n_elements[0])
    d0 = rows(ctx.real('d', (n0,), -2, 2))
    s = G.C.sample_dual_0(arr(ctx, d0), query(ctx, x))
    ctx.check('one value per point', tuple(s.shape) == (1,))
    A = dual_average(G, d0)
    where = {tuple(a + b for a, b in e): (k, i) for k in range(n + 1) for i, e in enumerate(G.box[k])}
    c = G.locate(u[0], halves=True)
    t = [clamp(u[0][d] * 2 - c[d], 1) for d in range(n)]
    want = 0
    for q in itertools.product((0, 1), repeat=n):
        w = 1
        for d in range(n):
            w = w * (t[d] if q[d] else 1 - t[d])
        k, i = where[tuple(a + b for a, b in zip(c, q))]
        want = want + w * A[k][i]
    ctx.close('interpolation between averages over the elements of a domain', s, arr(ctx, [want]))
    s2 = G.C.sample_dual_0(nested(ctx, [[v, 1] for v in d0]), query(ctx, x))
    ctx.close('vector valued forms, and constants', s2, nested(ctx, [[want, 1]]))


@REG.family('average-dual/{0}', [((2,),), ((2, 2),), ((2, 1, 1),)])
def average(ctx, shape):
    keep = [bool(b) for b in rows(ctx.bool('keep', (int(np.prod(shape)),)))]
    ctx.assume(any(keep))
    G = Grid(ctx, shape, keep=keep)
    n0 = int(G.C.topology.dual.n_elements[0])
    d0 = rows(ctx.real('d', (n0,), -2, 2))
    A = G.C.average_dual(arr(ctx, d0))
    ctx.check('one form per dimension', len(A) == G.n + 1)
    for k, want in enumerate(dual_average(G, d0)):
        got = rows(A[G.n - k])
        if k == G.n:
            ctx.close('dual vertices keep their values', arr(ctx, got), arr(ctx, d0))
        else:
            ctx.close('average of the dual vertices around each element', arr(ctx, got[:len(want)]), arr(ctx, want))


@REG.family('sample/{0}/{1}/mirrored:{2}', [((3, 3), (), False), ((2, 2, 2), (), False), ((2, 1), (0,), False), ((4, 2), (), True), ((2, 1, 1, 1), (), False)], tier='thorough', timeout=1200)
def sample_thorough(ctx, shape, free, mirror):
    sample(ctx, shape, free, mirror)


@REG.family('sample-dual/{0}/{1}', [((2, 2), ()), ((3, 1), ()), ((2, 1, 1), ()), ((1, 1), (0,))], tier='thorough', timeout=1200)
def sample_dual_thorough(ctx, shape, free):
    sample_dual(ctx, shape, free)


@REG.family('guess/{0}', [((3, 3),), ((2, 2, 2),), ((2, 1, 1, 1),)], tier='thorough', timeout=1200)
def guess_thorough(ctx, shape):
    guess(ctx, shape)


@REG.family('fundamental-guess/{0}', [((2, 2),), ((1, 1, 1),), ((5,),)], tier='thorough', timeout=1200)
def fundamental_guess_thorough(ctx, shape):
    fundamental_guess(ctx, shape)


@REG.family('subset/{0}', [((3, 2),), ((2, 2, 1),)], tier='thorough', timeout=1200)
def subset_thorough(ctx, shape):
    subset(ctx, shape)
