"""first order systems assembled from simplicial and cubical complexes (examples/linear_system.py)"""
import itertools

import numpy as np

from vsym.prop import Registry
from props.lib import rows, imat
from props.shapes import CUBES
from props.C17 import total
from props.C10 import MESH
from props.C20 import arr, cells, same_blocks

REG = Registry('C21', bounds='systems on simplicial complexes of 1-4 elements in 1-3 dimensions (closed, open, embedded surfaces) and on grids of 1-4 cubes, with every hodge and metric entry, '
               'boundary term, source term and unknown symbolic; all choices of variables to slice or eliminate',
               assumptions=['real arithmetic in place of floating point; results compared within 1e-6', 'hodges and metrics are arbitrary positive numbers between 1/4 and 4',
                            'eliminated equations have no right hand side and do not depend on each other (as documented)', 'the iterative solvers of scipy are replaced by an arbitrary vector'])
ob = REG.ob

LINE = {'line3': ([[0, 1], [1, 2], [2, 3]], [[0.], [1.], [2.], [3.]]), 'loop': ([[0, 1], [1, 2], [2, 0]], [[0., 0], [1., 0], [0., 1.]])}
BOXES = {'square': (2, [0, 1, 2, 3]), 'two_squares': (2, None), 'cube': (3, None)}


def embed(name):
    if name in MESH:
        return np.array(MESH[name][0]), np.array(MESH[name][1], float)
    return np.array(LINE[name][0]), np.array(LINE[name][1])


def build(ctx, name):
    """complex with oriented topology and arbitrary hodges"""
    if name.startswith('box'):
        from pycomplex.complex.cubical import ComplexCubical
        shape = tuple(int(c) for c in name[3:])
        n = len(shape)
        from props.shapes import grid_cubes
        E = grid_cubes(shape)
        P = np.array(list(itertools.product(*[range(s + 1) for s in shape])), float)
        C = ComplexCubical(vertices=P, cubes=E)
    else:
        from pycomplex.complex.simplicial.euclidian import ComplexSimplicialEuclidian
        E, P = embed(name)
        C = ComplexSimplicialEuclidian(vertices=P, simplices=E)
    assert C.topology.is_oriented
    T = C.topology
    C.__dict__['hodge_PD'] = [ctx.real('h%d' % k, (n,), 1 / 4, 4) for k, n in enumerate(T.n_elements)]
    return C


class Oracle:
    """the first order equations, written out per element"""

    def __init__(self, C, H):
        T = C.topology
        self.N = N = T.n_dim
        self.n = list(T.n_elements)
        self.H = H
        self.d = [imat(m) for m in T.matrices]          # k-elements x k+1-elements
        closed = T.is_closed
        self.b = [0] * (N + 1) if closed else [0] + list(T.boundary.n_elements)
        self.size = [p + q for p, q in zip(self.n, self.b)]
        self.at = [[]] * N if closed else [[int(i) for i in rows(T.boundary.parent_idx[k])] for k in range(N)]
        self.end = [1] * sum(self.b)
        if N == 1 and not closed:
            self.end = [-sum(self.d[0][v]) for v in self.at[0]]

    def forms(self, ctx, name, ks, lo=-2, hi=2):
        return [ctx.real('%s%d' % (name, k), (self.size[k],), lo, hi) for k in ks]

    def delta(self, k, x):
        """dual derivative of the variable of degree k + 1, on the elements of degree k"""
        out = [total([s * v for s, v in zip(r, x) if s]) for r in self.d[k]]
        for i, e in enumerate(self.at[k]):
            out[e] = out[e] + x[self.n[k + 1] + i] * self.end[i]
        return out

    def pad(self, k, x):
        return list(x) + [0] * self.b[k]

    def term(self, i, j, x, symmetry=False):
        """contribution of variable j to equation i"""
        if i == j:
            return self.pad(i, [h * v for h, v in zip(self.H[i], x)])
        if j == i + 1:
            return self.pad(i, [h * v for h, v in zip(self.H[i], self.delta(i, x))])
        if i == j + 1:
            y = [h * v for h, v in zip(self.H[j], x)]
            out = [total([s * v for s, v in zip(c, y) if s]) for c in self.d[j].T]
            return out + [y[e] * self.end[i] if symmetry else 0 for i, e in enumerate(self.at[j])]
        return [0] * self.size[i]


def add(*xs):
    return [total(v) for v in zip(*xs)]


def lists(xs):
    return [rows(x) for x in xs]


def dense(xs):
    from pycomplex.block import DenseBlockArray
    return DenseBlockArray(xs)


def check(ctx, label, S, L, R, A, xs, rhs=None):
    ctx.check(label + ': degrees', [int(v) for v in S.L] == list(L) and [int(v) for v in S.R] == list(R))
    same_blocks(ctx, label, S.A * dense(xs), (len(L),), A)
    if rhs is not None:
        same_blocks(ctx, label + ': right hand side', S.rhs, (len(L),), rhs)


NAMES = ['segment', 'path', 'triangle', 'two', 'tet', 'box3', 'box21', 'box111']
CLOSED = ['loop', 'tetsurface']        # refused by the code: known finding
EMBEDDED = ['curve2', 'fold']          # idem
NAMES_T = ['fan4', 'two_tets', 'box22', 'box211', 'line3']


def whole(ctx, name, symmetry=False):
    from examples.linear_system import System
    C = build(ctx, name)
    O = Oracle(C, lists(C.hodge_PD))
    S = System.canonical(C, symmetry=symmetry) if symmetry else System.canonical(C)
    return C, O, S


@REG.family('canonical/{0}', [(n,) for n in NAMES])
@REG.family('canonical-closed/{0}', [(n,) for n in CLOSED])
@REG.family('canonical-embedded/{0}', [(n,) for n in EMBEDDED])
@REG.family('canonical/{0}', [(n,) for n in NAMES_T], tier='thorough')
def canonical(ctx, name):
    for sym in (False, True):
        C, O, S = whole(ctx, name, sym)
        I = list(range(O.N + 1))
        xs = O.forms(ctx, 'x', I)
        check(ctx, 'canonical', S, I, I, [add(*[O.term(i, j, rows(xs[j]), sym) for j in I]) for i in I], xs, [[0] * O.size[i] for i in I])
        if sym:
            ys = O.forms(ctx, 'y', I)
            X, Y = dense(xs), dense(ys)
            ctx.close('symmetric', np.sum((S.A * X).merge() * Y.merge()), np.sum((S.A * Y).merge() * X.merge()), tol=1e-4)
            ctx.check('reports to be symmetric', bool(S.is_symmetric))
            same_blocks(ctx, 'still the same after looking at its symmetry', S.A * X, (len(I),), [add(*[O.term(i, j, rows(xs[j]), sym) for j in I]) for i in I])
        same_blocks(ctx, 'unknowns', S.allocate_x(), (len(I),), [[0] * s for s in O.size])


@REG.family('boundary/{0}', [(n,) for n in NAMES])
def boundary(ctx, name):
    C, O, S = whole(ctx, name)
    I = list(range(O.N + 1))
    n = O.n
    xs = lists(O.forms(ctx, 'x', I))
    want = [add(*[O.term(i, j, xs[j]) for j in I]) for i in I]
    rhs = [[0] * s for s in O.size]
    for i in range(1, O.N + 1):
        d, o, r = [rows(ctx.real('%s%d' % (k, i), (O.b[i],), -2, 2)) for k in 'dor']
        S.set_dia_boundary(i, i, np.array(d))
        S.set_off_boundary(i, i - 1, np.array(o))
        S.set_rhs_boundary(i, np.array(r))
        for b in range(O.b[i]):
            want[i][n[i] + b] = want[i][n[i] + b] + d[b] * xs[i][n[i] + b] + o[b] * xs[i - 1][O.at[i - 1][b]]
            rhs[i][n[i] + b] = r[b]
    for i in I:
        s = rows(ctx.real('s%d' % i, (n[i],), -2, 2))
        if i == 0:
            S.set_rhs(i, np.array(s))
        else:
            S.rhs.block[i][:n[i]] = S.rhs.block[i][:n[i]] + np.array(s)
        for k in range(n[i]):
            rhs[i][k] = rhs[i][k] + s[k]
    check(ctx, 'with boundary terms', S, I, I, want, [np.array(x) for x in xs], rhs)
    i = O.N
    sums = ctx.real('c', (O.b[i],), -2, 2)
    c = rows(sums)
    for v in c[1:]:
        ctx.assume(v * v > 1 / 64)
    ctx.assume(c[0] == 0)
    t = ctx.real('t', (), -2, 2)
    row = O.b[i] - 1
    S.set_sum_boundary(i, i, sums, row=row, sum=t)
    want[i][n[i] + row] = want[i][n[i] + row] + total(v * x for v, x in zip(c, xs[i][n[i]:]))
    rhs[i][n[i] + row] = rhs[i][n[i] + row] + t
    check(ctx, 'with a constraint on a sum', S, I, I, want, [np.array(x) for x in xs], rhs)
    if i > 1:
        ctx.expect_raise('terms off the diagonal', AssertionError, lambda: S.set_dia_boundary(1, 2, np.array(c)))
        ctx.expect_raise('terms above the diagonal', AssertionError, lambda: S.set_off_boundary(1, 2, np.array(c)))


@REG.family('source/{0}', [(n,) for n in ['path', 'two', 'tet', 'box21']])
def source(ctx, name):
    C, O, S = whole(ctx, name)
    I = list(range(O.N + 1))
    rhs = [[0] * s for s in O.size]
    for i in I[::-1]:
        s = rows(ctx.real('s%d' % i, (O.n[i],), -2, 2))
        S.set_rhs(i, np.array(s))
        rhs[i][:O.n[i]] = s
    same_blocks(ctx, 'sources', S.rhs, (len(I),), rhs)


@REG.family('chain/{0}', [(n,) for n in ['path', 'two', 'tet', 'box21']])
def chain(ctx, name):
    C, O, S = whole(ctx, name)
    i, n = O.N, O.n
    xs = rows(O.forms(ctx, 'x', [i])[0])
    t = ctx.real('t', (), -2, 2)
    e = C.topology.boundary.chain(n=-1, fill=1)
    S.set_sum_boundary(i, i, e, row=0, sum=t)
    rhs = [[0] * s for s in O.size]
    rhs[i][n[i]] = t
    same_blocks(ctx, 'target of the sum', S.rhs, (len(n),), rhs)
    w = O.term(i, i, xs)
    w[n[i]] = w[n[i]] + total(xs[n[i]:])
    ctx.close('sum', S.A.block[i, i] * np.array(xs), np.array(w))


SLICES = [(slice(0, 2), slice(0, 2)), (slice(-2, None), slice(-2, None)), (slice(0, 2), slice(1, 2)), (slice(1, 2), slice(0, 2)), (slice(1, None, -1), slice(0, 2)), (slice(None, None, 2), slice(None, None, 2))]


@REG.family('normal/{0}', [(n,) for n in ['path', 'two', 'tet', 'box21']])
@REG.family('normal/{0}', [(n,) for n in NAMES_T], tier='thorough')
def normal(ctx, name):
    """subsystems, their normal equations and balancing"""
    C, O, S = whole(ctx, name)
    I = list(range(O.N + 1))
    B = O.forms(ctx, 'b', I)
    for i in I:
        S.rhs.block[i] = B[i]
    for L, R in SLICES:
        s = S[L, R]
        L, R = I[L], I[R]
        X, Y = O.forms(ctx, 'x', I), O.forms(ctx, 'y', I)
        xs, ys = lists(X), lists(Y)
        apply = lambda xs: [add(*[O.term(i, j, xs[j]) for j in R]) for i in L]
        check(ctx, 'subsystem', s, L, R, apply(xs), [X[j] for j in R], [rows(B[i]) for i in L])
        N = s.normal()
        ctx.check('normal: degrees', [int(v) for v in N.L] == [int(v) for v in N.R] == R)
        flat = lambda bs: [v for b in bs for v in b]
        dot = lambda p, q: total(a * b for a, b in zip(p, q))
        # <y, N x> = <A y, A x>
        AX, AY = flat(apply(xs)), flat(apply(ys))
        ctx.close('normal equations', np.sum((N.A * dense([X[j] for j in R])).merge() * np.array(flat([ys[j] for j in R]))), dot(AX, AY), tol=1e-3)
        ctx.close('normal right hand side', np.sum(N.rhs.merge() * np.array(flat([ys[j] for j in R]))), dot(AY, flat([rows(B[i]) for i in L])), tol=1e-3)
        s.A.block[0, 0] = s.A.block[0, 0] * 0
        s.rhs.block[0] = s.rhs.block[0] * 0
    check(ctx, 'the original is left alone', S, I, I, [add(*[O.term(i, j, xs[j]) for j in I]) for i in I], X, lists(B))


@REG.family('select/{0}', [(n,) for n in ['two', 'tet']])
def select(ctx, name):
    """lists of equations and variables"""
    C, O, S = whole(ctx, name)
    X = lists(O.forms(ctx, 'x', range(O.N + 1)))
    for L, R in [([0, 1], [0, 1]), ([0, 2], [0, 2]), ([1], [0, 1]), ([0, 1], [2, 1])]:
        s = S[L, R]
        check(ctx, 'subsystem', s, L, R, [add(*[O.term(i, j, X[j]) for j in R]) for i in L], [np.array(X[j]) for j in R])


@REG.family('balance/{0}', [(n,) for n in ['segment', 'path', 'triangle', 'two', 'tet', 'box21']])
def balance(ctx, name):
    """every equation is divided by the sum of its absolute coefficients"""
    C, O, S = whole(ctx, name)
    I = list(range(O.N + 1))
    B = O.forms(ctx, 'b', I)
    for i in I:
        S.rhs.block[i] = B[i]
        if O.b[i]:
            S.set_dia_boundary(i, i, ctx.real('d%d' % i, (O.b[i],), 1 / 2, 2))
    X = O.forms(ctx, 'x', I)
    A, r = S.A.merge().toarray(), S.rhs.merge()
    for reg in (0, .25):
        Q = S.balance(reg) if reg else S.balance()
        n = []
        for i in I:
            for k in range(O.size[i]):
                row = []
                for j in I:
                    for l in range(O.size[j]):
                        row.append(A[len(n), len(row)])
                n.append(total(abs(v) for v in row) + reg)
        ctx.close('balanced', Q.A.merge().toarray(), np.array([[v / w for v in row] for row, w in zip(rows(A), n)]))
        ctx.close('balanced right hand side', Q.rhs.merge(), np.array([v / w for v, w in zip(rows(r), n)]))
        ctx.check('degrees', [int(v) for v in Q.L] == I and [int(v) for v in Q.R] == I)


def elimination(ctx, name, keep, drop, boundary=True):
    """retained equations hold for the retained variables exactly when all equations hold"""
    C, O, S = whole(ctx, name)
    I = list(range(O.N + 1))
    k = sorted(keep + drop)
    k = slice(k[0], k[-1] + 1, k[1] - k[0])
    s = S[k, k]
    pos = {k: i for i, k in enumerate(sorted(keep + drop))}
    K = sorted(keep)
    X = {k: O.forms(ctx, 'x', [k])[0] for k in K}
    xs = {k: rows(X[k]) for k in K}
    dia = {}
    for k in keep + drop:
        dia[k] = rows(ctx.real('d%d' % k, (O.b[k],), 1 / 2, 2)) if O.b[k] else []
        if O.b[k]:
            s.set_dia_boundary(pos[k], pos[k], np.array(dia[k]))

    def term(i, j, x):
        y = O.term(i, j, x)
        if i == j:
            for b, v in enumerate(dia[i]):
                y[O.n[i] + b] = y[O.n[i] + b] + v * x[O.n[i] + b]
        return y
    B = {k: O.forms(ctx, 'b', [k])[0] for k in K}
    for k in K:
        s.rhs.block[pos[k]] = B[k]
    for k in drop:          # solve the eliminated equations for the eliminated variables
        r = add(*[term(k, j, xs[j]) for j in K])
        diag = list(O.H[k]) + dia[k]
        xs[k] = [-v / w for v, w in zip(r, diag)]
    E = s.eliminate([pos[k] for k in drop], [pos[k] for k in drop])
    check(ctx, 'eliminated', E, K, K, [add(*[term(i, j, xs[j]) for j in K + drop]) for i in K], [X[k] for k in K], [rows(B[k]) for k in K])


ELIM = [('path', [0], [1]), ('path', [1], [0]), ('triangle', [0, 2], [1]), ('triangle', [1], [0, 2]), ('two', [0], [1]), ('two', [1], [0, 2]), ('two', [1, 2], [0]),
        ('two', [0, 1], [2]), ('tet', [1, 2], [0, 3]), ('tet', [0, 2, 3], [1]), ('tet', [0, 1, 3], [2]),
        ('tet', [1, 3], [0, 2]), ('box21', [0], [1]), ('box21', [1], [0, 2]), ('box111', [1, 2, 3], [0])]
ELIM_T = [('two_tets', [1, 2], [0, 3]), ('two_tets', [0, 1, 3], [2]), ('box22', [1], [0, 2]), ('fan4', [0, 2], [1]), ('box211', [0, 2], [1, 3])]


@REG.family('eliminate/{0}/{1}/{2}', [(n, tuple(k), tuple(d)) for n, k, d in ELIM])
@REG.family('eliminate/{0}/{1}/{2}', [(n, tuple(k), tuple(d)) for n, k, d in ELIM_T], tier='thorough')
def eliminate(ctx, name, keep, drop):
    elimination(ctx, name, list(keep), list(drop))


@REG.family('blocks/{0}', [(n,) for n in ['path', 'two', 'tet']])
def block_balance(ctx, name):
    C, O, S = whole(ctx, name, True)
    I = list(range(O.N + 1))
    B, X = O.forms(ctx, 'b', I), O.forms(ctx, 'x', I)
    for i in I:
        S.rhs.block[i] = B[i]
    xs = lists(X)
    m = ctx.real('m', (O.n[1],), 1 / 2, 2)
    C.__dict__['primal_metric'] = [None, m] + [None] * (O.N - 1)
    mean = total(rows(m)) / O.n[1]
    for l, k in [(2., 0), (.5, 1), (.5, -1), (0, 0), (0, O.N)]:
        Q = S.block_balance(l, k) if l else S.block_balance(k=k)
        base = l or mean
        deg = I[k]

        def scale(i):
            e, v = deg - i, 1
            for _ in range(abs(e)):
                v = v * base
            return v if e >= 0 else 1 / v
        f = [scale(i) for i in I]
        check(ctx, 'scaled', Q, I, I, [[v * f[i] for v in add(*[[w * f[j] for w in O.term(i, j, xs[j], True)] for j in I])] for i in I], X, [[v * f[i] for v in rows(B[i])] for i in I])


@REG.family('laplace/{0}/{1}/{2}', [(n, d, p) for n in ['two', 'tet', 'tet2', 'box21'] for d in (False, True) for p in (False, True)])
def laplace(ctx, name, dual, primal):
    from examples.linear_system import System
    k = 2 if name == 'tet2' else 1
    C = build(ctx, name.rstrip('2') if name == 'tet2' else name)
    O = Oracle(C, lists(C.hodge_PD))
    l = 1 / 2
    C.__dict__['primal_metric'] = [None, np.ones(O.n[1]) * l]
    S = System.laplace(C, k, dirichlet_dual=dual, dirichlet_primal=primal)
    J = [k - 1, k, k + 1]
    X = {j: O.forms(ctx, 'x', [j])[0] for j in J}
    xs = {j: rows(X[j]) for j in J}
    f = lambda i: l ** (k - i)
    want = {}
    for i in J:
        terms = []
        for j in J:
            if i == j == k:
                t = [0] * O.size[i]
            else:
                x = list(xs[j])
                if dual and (i, j) == (k - 1, k):
                    x[O.n[j]:] = [0] * O.b[j]          # variables on the dual boundary are decoupled
                t = [v * f(i) * f(j) for v in O.term(i, j, x, True)]
                if dual and (i, j) == (k, k - 1) or not primal and (i, j) == (k + 1, k):
                    t[O.n[i]:] = [0] * O.b[i]
            if i == j and (dual and i == k or not primal and i == k + 1):
                t = t[:O.n[i]] + [v + w for v, w in zip(t[O.n[i]:], xs[i][O.n[i]:])]
            terms.append(t)
        want[i] = add(*terms)
    check(ctx, 'laplacian', S, J, J, [want[i] for i in J], [X[j] for j in J], [[0] * O.size[i] for i in J])


@REG.family('midpoint/{0}', [(n,) for n in NAMES])
def midpoint(ctx, name):
    from examples.linear_system import SystemMid
    C = build(ctx, name)
    O = Oracle(C, None)
    I = list(range(O.N + 1))
    P = [ctx.real('p%d' % k, (O.n[k],), 1 / 4, 4) for k in I]
    D = [ctx.real('q%d' % k, (O.size[k],), 1 / 4, 4) for k in I]
    C.__dict__['primal_metric'] = P
    C.__dict__['dual_metric_closed'] = D[::-1]
    S = SystemMid.canonical(C)
    X = O.forms(ctx, 'x', I)
    xs, P, D = lists(X), lists(P), lists(D)
    want = []
    for i in I:
        t = [O.pad(i, xs[i][:O.n[i]])]
        if i < O.N:
            y = O.delta(i, [v * m for v, m in zip(xs[i + 1], D[i + 1])])
            t.append(O.pad(i, [v / m for v, m in zip(y, D[i])]))
        if i:
            y = [v * m for v, m in zip(xs[i - 1], P[i - 1])]
            t.append(O.pad(i, [total([s * v for s, v in zip(c, y) if s]) / m for c, m in zip(O.d[i - 1].T, P[i])]))
        want.append(add(*t))
    check(ctx, 'midpoint', S, I, I, want, X)


@REG.family('solve/{0}/{1}', [(n, m) for n in ['path', 'two', 'tet'] for m in ('minres', 'gmres')])
def solve(ctx, name, method):
    """whatever vector the solver comes up with, it is handed back per variable together with its residual"""
    import examples.linear_system as ls
    C, O, S = whole(ctx, name)
    I = list(range(O.N + 1))
    B = O.forms(ctx, 'b', I)
    for i in I:
        S.rhs.block[i] = B[i]
    J = I[:2]
    s = S[:2, :2]
    X = O.forms(ctx, 'x', J)
    x = np.array([v for k in J for v in rows(X[k])])
    seen = []

    def solver(A, b, *a, **k):
        seen.append((A.toarray() if hasattr(A, 'toarray') else A, b))
        return x, 0
    linalg = ls.scipy.sparse.linalg
    old = getattr(linalg, method)
    setattr(linalg, method, solver)
    try:
        y, r = getattr(s, 'solve_' + method)()
    finally:
        setattr(linalg, method, old)
    xs = lists(X)
    Ax = [add(*[O.term(i, j, xs[j]) for j in J]) for i in J]
    same_blocks(ctx, 'solution', y, (2,), xs)
    same_blocks(ctx, 'residual', r, (2,), [[p - q for p, q in zip(a, rows(B[i]))] for i, a in zip(J, Ax)])
    ctx.check('solved once', len(seen) == 1)
    ctx.close('right hand side of the solver', seen[0][1], np.array([v for i in J for v in rows(B[i])]))
    ctx.close('matrix of the solver', np.dot(seen[0][0], x), np.array([v for a in Ax for v in a]))
