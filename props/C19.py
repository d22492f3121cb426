"""grid transfers and the multigrid solver of stencil complexes"""
import itertools

import numpy as np

from vsym.prop import Registry
from props.lib import rows
from props.C16 import symbols, sites, step, table
from props.C17 import total, product
from props.C18 import flat, blocks, arrays, canonical

REG = Registry('C19', bounds='periodic grids in 1-4d with 2-8 cells per direction (all extents even), every form entry symbolic; two- and three-level hierarchies of 2-4 unknowns with symbolic operators; '
               'diffusion and canonical systems on grids of up to 4 x 2 cells with symbolic unknowns',
               assumptions=['real arithmetic in place of floating point; results compared within 1e-6',
                            'the ndimage kernels are linear in the field: their coefficients are obtained by running the real kernels on a basis'])
ob = REG.ob

SHAPES = [(2,), (4,), (6,), (2, 2), (4, 2), (2, 4, 2), (4, 4, 2), (2, 2, 2, 2)]
SHAPES_T = [(8,), (12,), (6, 4), (8, 4), (4, 4, 4), (2, 4, 2, 2)]


def grid(ctx, shape, h=1):
    from pycomplex.stencil.complex import StencilComplex
    return StencilComplex.from_shape(shape, scale=h)


def interpolated(shape, k, t):
    """linear interpolation along the normal directions, piecewise constant along the tangential ones"""
    out = []
    coarse = tuple(s // 2 for s in shape)
    for c, I in enumerate(symbols(len(shape))[k]):
        for x in sites(shape):
            ws = [(1, ())]
            for d, v in enumerate(x):
                if d in I or v % 2 == 0:
                    ws = [(w, p + (v // 2,)) for w, p in ws]
                else:
                    ws = [(w / 2, p + ((v // 2 + j) % coarse[d],)) for w, p in ws for j in (0, 1)]
            out.append(total(w * t[c, p] for w, p in ws))
    return out


@REG.family('transfer/{0}', [(s,) for s in SHAPES])
@REG.family('transfer/{0}', [(s,) for s in SHAPES_T], tier='thorough', timeout=900)
def transfer(ctx, shape):
    C = grid(ctx, shape)
    n = len(shape)
    B = C.coarse
    ctx.check('coarse shape', tuple(B.shape) == tuple(s // 2 for s in shape))
    for k in range(n + 1):
        f = ctx.real('f%d' % k, C.n_elements[k], -1, 1)
        c = ctx.real('c%d' % k, B.n_elements[k], -1, 1)
        R, P = C.coarsen[k], C.refine[k]
        ctx.check('shapes', R.shape == (B.n_elements[k], C.n_elements[k]) and P.shape == R.shape[::-1])
        r, p = R * f, P * c
        ctx.close('refinement of %d-forms interpolates' % k, p.reshape(-1), np.array(interpolated(shape, k, table(c))))
        # <f, P c> sums over 2^n as many cells as <R f, c>
        ctx.close('coarsening of %d-forms is the adjoint of refinement' % k, np.sum(r * c) * 2 ** n, np.sum(f * p), tol=1e-4)
        q = ctx.real('q%d' % k, (len(f),), -1, 1)
        one = q.reshape((-1,) + (1,) * n)
        ctx.close('constants survive coarsening', R * (one + np.zeros(C.n_elements[k])), one + np.zeros(B.n_elements[k]))
        ctx.close('constants survive refinement', P * (one + np.zeros(B.n_elements[k])), one + np.zeros(C.n_elements[k]))
        # forms and their transposes through the pure parent-child transfers and smoothers
        S = C.smoothers(scale=True)[k]
        ctx.close('smoothing preserves the integral', np.sum((S * f).reshape(len(f), -1), axis=1), np.sum(f.reshape(len(f), -1), axis=1), tol=1e-4)
        g = ctx.real('g%d' % k, C.n_elements[k], -1, 1)
        ctx.close('smoothing is symmetric', np.sum((S * f) * g), np.sum(f * (S * g)), tol=1e-4)
    for k in range(n):
        c = ctx.real('e%d' % k, B.n_elements[k], -1, 1)
        ctx.close('refinement commutes with the derivative of %d-forms' % k, C.topology.primal[k] * (C.refine[k] * c) * 2, C.refine[k + 1] * (B.topology.primal[k] * c))
        g = ctx.real('h%d' % k, C.n_elements[k + 1], -1, 1)
        ctx.close('coarsening commutes with the dual derivative', C.coarsen[k] * (C.topology.dual[k] * g) * 2, B.topology.dual[k] * (C.coarsen[k + 1] * g))


@REG.family('layout/{0}', [((4,),), ((2, 4),), ((4, 2, 2),)])
def layout(ctx, shape):
    """forms that are views on other arrays"""
    C = grid(ctx, shape)
    n = len(shape)
    for k in range(n + 1):
        for label, v in [('reversed', lambda a: a[:, ::-1]), ('reversed components', lambda a: a[::-1]), ('strided', lambda a: np.stack([a, a + 1], -1)[..., 1]), ('reversed last', lambda a: a[..., ::-1])]:
            f, c = v(ctx.real('f%s%d' % (label, k), C.n_elements[k], -1, 1)), v(ctx.real('c%s%d' % (label, k), C.coarse.n_elements[k], -1, 1))
            ctx.close(label + ': coarsening', C.coarsen[k] * f, C.coarsen[k] * np.array(rows(f)))
            ctx.close(label + ': refinement', C.refine[k] * c, C.refine[k] * np.array(rows(c)))
            if k < n:
                ctx.close(label + ': derivative', C.topology.primal[k] * f, C.topology.primal[k] * np.array(rows(f)))


@REG.family('restrict/{0}', [((2,),), ((4,),), ((2, 4),), ((2, 2, 2),)])
def restrict(ctx, shape):
    from pycomplex.stencil.block import BlockArray
    C, S, entry = canonical(ctx, shape)
    n = len(shape)
    for label, T in [('all', S), ('part', S[1:, :2])]:
        L, R = [int(v) for v in T.L], [int(v) for v in T.R]
        xs, ys = [ctx.real('x%s%d' % (label, i), C.n_elements[i], -1, 1) for i in R], [ctx.real('y%s%d' % (label, i), C.n_elements[i], -1, 1) for i in L]
        x, y = T.restrict_primal(BlockArray(xs, ndim=1)), T.restrict_dual(BlockArray(ys, ndim=1))
        ctx.close(label + ': primal forms are coarsened', np.array(flat(blocks(x))), np.array(flat([C.coarsen[i] * v for i, v in zip(R, xs)])))
        want = []
        for i, v in zip(L, ys):
            c = C.coarsen[i] * v
            for j in range(n):
                c = c * 2
            for j in range(2 * i):
                c = c / 2
            want.append(c)
        ctx.close(label + ': dual forms are coarsened as densities', np.array(flat(blocks(y))), np.array(flat(want)))


# -- multigrid on abstract equations

def matvec(m, x):
    return np.array([total(a * b for a, b in zip(r, rows(x))) for r in m])


def equation(ctx, name, n, A, coarse=None, P=None, R=None, inverse=None):
    """equation A x = y: smoother x - S (A x - y), exact solution on the coarsest level"""
    from pycomplex.stencil.multigrid import MultiGridEquation
    S = rows(ctx.real('S' + name, (n, n), -1, 1)) if inverse is None else None

    class Eq(MultiGridEquation):
        calls = []

        def residual(self, x, y):
            return matvec(A, x) - y

        def smooth(self, x, y):
            return x - matvec(S, self.residual(x, y))

        def solve(self, y, x=None):
            return matvec(inverse, y)

        def restrict(self, y):
            return matvec(R, y)

        def interpolate(self, x):
            return matvec(P, x)
    e = Eq()
    e.coarse = coarse
    return e


def mm(a, b):
    return [[total(x * y for x, y in zip(r, c)) for c in zip(*b)] for r in a]


def hierarchy(ctx, levels, diag):
    """spd matrices over levels with galerkin coarse operators of one unknown"""
    sizes = [1, 2, 3][:levels]
    n = sizes[-1]
    a = rows(ctx.real('a', n, 1, 3))
    o = rows(ctx.real('o', n, -1 / 4, 1 / 4))
    A = [[a[i] if i == j else (o[min(i, j)] if abs(i - j) == 1 else 0) for j in range(n)] for i in range(n)]
    ops, Ps = [A], []
    for m in sizes[-2::-1]:
        k = len(ops[-1])
        P = [[1 if i == j else 0 for j in range(m)] for i in range(m)] + [rows(ctx.real('p%d' % k, m, -1, 1)) for i in range(k - m)]
        Ps.append(P)
        ops.append(mm([list(r) for r in zip(*P)], mm(ops[-1], P)))
    ops, Ps = ops[::-1], Ps[::-1]
    eqs = [equation(ctx, '0', 1, ops[0], inverse=[[1 / ops[0][0][0]]])]
    for i in range(1, levels):
        P = Ps[i - 1]
        eqs.append(equation(ctx, str(i), sizes[i], ops[i], coarse=eqs[-1], P=P, R=[list(r) for r in zip(*P)]))
    return eqs, ops, Ps


@REG.family('cycle/{0}', [(1,), (2,)])
@REG.family('cycle/{0}', [(3,)], tier='thorough', timeout=900)
def cycle(ctx, levels):
    from pycomplex.stencil import multigrid as MG
    eqs, ops, Ps = hierarchy(ctx, levels, True)
    A = ops[-1]
    n = len(A)
    u, x = ctx.real('u', n, -1, 1), ctx.real('x', n, -1, 1)
    y = matvec(A, u)
    ctx.check('hierarchy, coarsest first', list(eqs[-1].hierarchy(levels - 1)) == eqs)
    h = eqs[-1].hierarchy(levels - 1)
    ctx.close('the solution is kept', MG.v_cycle(h, y, u), u)
    ctx.close('the solution is kept by repeated cycles', MG.solve_v_cycle(h, y, u, iterations=2), u)
    if levels == 1:
        ctx.close('exact on the coarsest level', MG.v_cycle(h, y, x), u)
        ctx.close('exact on the coarsest level', MG.solve_full_cycle(h, y), u)
        ctx.close('without a guess', MG.v_cycle(h, y), u)
        return

    def cycled(i, y, x):
        """independent recursion: smooth, correct, smooth"""
        e = eqs[i]
        if i == 0:
            return e.solve(y)
        x = e.smooth(x, y)
        r = e.restrict(e.residual(x, y))
        x = x - e.interpolate(cycled(i - 1, r, r * 0))
        return e.smooth(x, y)
    ctx.close('one cycle', MG.v_cycle(h, y, x), cycled(levels - 1, y, x))
    ctx.close('starting from zero', MG.v_cycle(h, y), cycled(levels - 1, y, x * 0))
    if levels == 2:
        ctx.close('cycles are repeated', MG.solve_v_cycle(h, y, x, iterations=2), cycled(1, y, cycled(1, y, x)))
        full = eqs[1].interpolate(eqs[0].solve(eqs[1].restrict(y)))
        ctx.close('full cycle starts from the coarse solution', MG.solve_full_cycle(h, y, iterations=1), cycled(1, y, full))
        ctx.close('full cycle repeats', MG.solve_full_cycle(h, y, iterations=0), full)


@REG.family('cycles/levels:{0}/{1}', [(l, i) for l in (1, 2, 3, 4) for i in (0, 1, 2, 3) if l * i < 10])
def cycles(ctx, levels, iterations):
    """number of cycles on every level, for equations of any kind"""
    from pycomplex.stencil import multigrid as MG

    class Eq(MG.MultiGridEquation):
        def __init__(self, i):
            self.a, self.w, self.p, self.r = 1 + i / 4, 3 / 8 + i / 16, 1 - i / 16, 1 / 2 + i / 32

        def residual(self, x, y):
            return x * self.a - y

        def smooth(self, x, y):
            return x - (x * self.a - y) * self.w

        def solve(self, y, x=None):
            return y / self.a

        def restrict(self, y):
            return y * self.r

        def interpolate(self, x):
            return x * self.p
    eqs = [Eq(i) for i in range(levels)]
    y, x = ctx.real('y', 2, -1, 1), ctx.real('x', 2, -1, 1)

    def one(i, y, x):
        e = eqs[i]
        if i == 0:
            return e.solve(y)
        x = e.smooth(x, y)
        x = x - e.interpolate(one(i - 1, e.restrict(e.residual(x, y)), y * 0))
        return e.smooth(x, y)

    def repeat(i, y, x):
        for _ in range(iterations):
            x = one(i, y, x)
        return x

    def full(i, y):
        if i == 0:
            return eqs[0].solve(y)
        return repeat(i, y, eqs[i].interpolate(full(i - 1, eqs[i].restrict(y))))
    ctx.close('one cycle', MG.v_cycle(eqs, y, x) * 16, one(levels - 1, y, x) * 16)
    ctx.close('cycles', MG.solve_v_cycle(eqs, y, x, iterations=iterations) * 16, repeat(levels - 1, y, x) * 16)
    if iterations:
        ctx.close('cycles from zero', MG.solve_v_cycle(eqs, y, iterations=iterations) * 16, repeat(levels - 1, y, x * 0) * 16)
    ctx.close('full cycles', MG.solve_full_cycle(eqs, y, iterations=iterations) * 16, full(levels - 1, y) * 16)


@ob('coarse correction is exact')
def exact(ctx):
    """without smoothing, an error in the range of the interpolation vanishes in a single cycle"""
    from pycomplex.stencil import multigrid as MG
    eqs, ops, Ps = hierarchy(ctx, 2, True)
    e = eqs[-1]
    e.smooth = lambda x, y: x
    u, c = ctx.real('u', 2, -1, 1), ctx.real('c', 1, -1, 1)
    y = matvec(ops[-1], u)
    ctx.close('solved', MG.v_cycle(eqs, y, u + e.interpolate(c)), u)


# -- smoothers of first order systems

def relaxed(ctx, shape, item, symbolic):
    from pycomplex.stencil.block import BlockArray
    from pycomplex.stencil.equation import NormalSmoothEquation
    C, S, entry = canonical(ctx, shape, symbolic)
    S = S[item] if item else S
    E = NormalSmoothEquation(S)
    L, R = [int(v) for v in S.L], [int(v) for v in S.R]
    n = C.n_elements
    A = lambda xs: [total(entry(i, j)(x) for j, x in zip(R, xs)) for i in L]
    At = lambda ys: [total(entry(j, i)(y) for i, y in zip(L, ys)) for j in R]
    D = []
    for b, j in enumerate(R):
        d = np.zeros(n[j])
        for s in np.ndindex(*n[j]):
            e = [np.zeros(n[i]) for i in R]
            e[b][s] = 1
            d[s] = sum(float(np.sum(v * v)) for v in A(e))
        D.append(d)
    xs, ys = [ctx.real('x%d' % i, n[i], -1, 1) for i in R], [ctx.real('y%d' % i, n[i], -1, 1) for i in L]
    return E, A, At, D, BlockArray(xs, ndim=1), BlockArray(ys, ndim=1), xs, ys, L, R


ITEMS = {'all': None, '[:2, :2]': (slice(2), slice(2)), '[[0, 2], 1:2]': ([0, 2], slice(1, 2)), '[:3, :2]': (slice(3), slice(2))}


@REG.family('smoother/{0}{1}/h={2}', [(s, k, h) for s, k, h in [((2,), 'all', 1), ((4,), 'all', .5), ((4,), '[:2, :2]', 2), ((2, 2), '[:2, :2]', 1), ((2, 4), '[[0, 2], 1:2]', .5), ((2, 2), '[:3, :2]', 2), ((2, 2, 2), '[:2, :2]', .5)]])
def smoother(ctx, shape, key, h):
    from pycomplex.stencil.block import BlockArray
    E, A, At, D, X, Y, xs, ys, L, R = relaxed(ctx, shape, ITEMS[key], h)
    close = lambda l, got, want: ctx.close(l, np.array(flat(blocks(got))), np.array(flat(want)))
    sub = lambda a, b: [p - q for p, q in zip(a, b)]
    close('residual', E.residual(X, Y), sub(A(xs), ys))
    close('inverse diagonal of the normal equations', E.inverse_normal_diagonal, [1 / d for d in D])
    r = At(sub(A(xs), ys))
    w = ctx.real('w', (), 0, 2)
    close('jacobi', E.jacobi(X, Y, w), [x - v / d * w / 2 for x, v, d in zip(xs, r, D)])
    close('the guess is left alone', X, xs)

    def jac(x, s):
        r = At(sub(A(x), ys))
        return [p - v / d * (s / 2) for p, v, d in zip(x, r, D)]
    close('overrelaxation', E.overrelax(X, Y, [.5, 1.5]), jac(jac(xs, .5), 1.5))
    close('smoothing', E.smooth(X, Y), jac(jac(jac(xs, .5), 1.25), 2))
    # solutions are kept by every relaxation
    B = BlockArray(A(xs), ndim=1)
    for l, f in [('jacobi', E.jacobi), ('smoothing', E.smooth), ('gauss-seidel on normal equations', E.NR_BLOCK_GS), ('row-wise gauss-seidel', E.NE_BLOCK_GS)]:
        close('solutions are kept by ' + l, f(X, B), xs)
    g = [x * 1 for x in xs]
    for i in range(len(g)):
        g[i] = g[i] - At(sub(A(g), ys))[i] / D[i] / 2
    close('gauss-seidel on normal equations', E.NR_BLOCK_GS(X, Y), g)
    close('the guess is left alone', X, xs)


@REG.family('diffusion/{0}', [((2,),), ((4,),), ((4, 2),), ((4, 4),)])
def diffusion(ctx, shape):
    """coefficients of the diffusion equation, fine and coarse"""
    from pycomplex.stencil.block import BlockArray
    from pycomplex.stencil.complex import StencilComplex
    from pycomplex.stencil.diffusion import Diffusion
    C = StencilComplex.from_shape(shape)
    n = C.n_elements
    F = {k: ctx.real(k, n[i], 1 / 8, 2) for k, i in [('constraint', 0), ('conductance', 1), ('resistance', 1), ('foo', 1)]}

    def check(label, E, C, F):
        T, V = ctx.real(label + 'T', C.n_elements[0], -1, 1), ctx.real(label + 'V', C.n_elements[1], -1, 1)
        r = E.residual(BlockArray([T, V], ndim=1), BlockArray([T * 0, V * 0], ndim=1))
        H = C.hodge
        d, b = C.topology.primal[0], C.topology.dual[0]
        want = [H[0] * (F['constraint'] * T) * -1 + b * (H[1] * (F['conductance'] * V)), F['foo'] * (H[1] * (d * T)) + H[1] * (F['resistance'] * V)]
        ctx.close(label + ': residual', np.array(flat(blocks(r))), np.array(flat(want)), tol=1e-5)
    E = Diffusion.formulate(C, F)
    check('fine', E, C, F)
    G = E.coarse
    ctx.check('coarse grid', tuple(G.complex.shape) == tuple(s // 2 for s in shape))
    check('coarse', G, C.coarse, {k: C.coarsen[0 if k == 'constraint' else 1] * f for k, f in F.items()})
    c = [ctx.real('c%d' % i, C.coarse.n_elements[i], -1, 1) for i in (0, 1)]
    ctx.close('interpolation', np.array(flat(blocks(E.interpolate(BlockArray(c, ndim=1))))), np.array(flat([C.refine[i] * v for i, v in enumerate(c)])))
    if np.prod(shape) <= 8:
        f = [ctx.real('f%d' % i, n[i], -1, 1) for i in (0, 1)]
        D = len(shape)
        # forms dual to primal k-forms have the measure of a cell of n - k dimensions for every k-cell; spacing doubles
        dual = [(C.coarsen[i] * v) * ((2. ** (D - 2 * i))) for i, v in enumerate(f)]
        y = BlockArray(f, ndim=1)
        ctx.close('restriction of the right hand side', np.array(flat(blocks(E.restrict(y)))), np.array(flat(dual)), tol=1e-5)
        ctx.close('restriction of dual forms', np.array(flat(blocks(E.restrict_dual(y)))), np.array(flat(dual)), tol=1e-5)
        ctx.close('restriction of primal forms', np.array(flat(blocks(E.restrict_primal(y)))), np.array(flat([C.coarsen[i] * v for i, v in enumerate(f)])), tol=1e-5)
    if all(s >= 4 for s in shape):
        h = E.hierarchy(1)
        ctx.check('hierarchy', len(h) == 2 and h[1] is E and h[0] is E.coarse)


@REG.family('diffusion-variants/{0}', [((2, 2),), ((4, 2),), ((1, 3),), ((2, 1, 2),)])
def variants(ctx, shape):
    """diffusion without potential, and with every first order relation"""
    from pycomplex.stencil.block import BlockArray
    from pycomplex.stencil.complex import StencilComplex
    from pycomplex.stencil.diffusion import Diffusion
    C = StencilComplex.from_shape(shape, scale=.5)
    n, H, d, b = C.n_elements, C.hodge, C.topology.primal, C.topology.dual
    F = {k: ctx.real(k, n[i], 1 / 8, 2) for k, i in [('constraint', 0), ('conductance', 1), ('resistance', 1)]}
    F = {k: f for k, f in F.items()}
    T, V = ctx.real('T', n[0], -1, 1), ctx.real('V', n[1], -1, 1)
    Y = [ctx.real('y%d' % i, n[i], -1, 1) for i in range(3)]
    div, curl = b[0] * (H[1] * (F['conductance'] * V)), H[2] * (d[1] * (F['resistance'] * V))

    def close(label, E, xs, L, want):
        r = E.residual(BlockArray(xs, ndim=1), BlockArray([Y[i] for i in L], ndim=1))
        ctx.check(label + ': equations', [int(i) for i in E.system.L] == list(L) and E.complex is C)
        ctx.close(label + ': residual', np.array(flat(blocks(r))), np.array(flat([w - Y[i] for i, w in zip(L, want)])), tol=1e-5)
    close('flux only', Diffusion.formulate_flux_only(C, F), [V], [0, 2], [div, curl])
    close('all', Diffusion.formulate_all(C, F), [T, V], [0, 1, 2], [H[0] * (F['constraint'] * T) * -1 + div, H[1] * (d[0] * T) + H[1] * (F['resistance'] * V), curl])


@REG.family('restriction/{0}/h={1}', [((2,), 1), ((4,), .5), ((4, 2), .25), ((2, 2, 2), 2)])
def restriction(ctx, shape, h):
    """restriction of right hand sides and of unknowns of a system"""
    from pycomplex.stencil.block import BlockArray
    from pycomplex.stencil.complex import StencilComplex
    from pycomplex.stencil.linear_system import System
    C = StencilComplex.from_shape(shape, scale=h)
    n = C.n_dim
    f = [ctx.real('f%d' % i, s, -1, 1) for i, s in enumerate(C.n_elements)]
    for rows_, cols in [(slice(None), slice(None)), (slice(1), slice(1, 2)), (slice(1, None), slice(1))]:
        S = System.canonical(C)[rows_, cols]
        L, R = range(n + 1)[rows_], range(n + 1)[cols]
        D = S.restrict_dual(BlockArray([f[i] for i in L], ndim=1))
        P = S.restrict_primal(BlockArray([f[i] for i in R], ndim=1))
        # a dual form is restricted as the primal form it is the dual of, by the measures of fine and coarse cells
        fine, coarse = [h ** (n - 2 * i) for i in range(n + 1)], [(2 * h) ** (n - 2 * i) for i in range(n + 1)]
        ctx.close('dual forms', np.array(flat(blocks(D))), np.array(flat([(C.coarsen[i] * f[i]) * (coarse[i] / fine[i]) for i in L])), tol=1e-5)
        ctx.close('primal forms', np.array(flat(blocks(P))), np.array(flat([C.coarsen[i] * f[i] for i in R])), tol=1e-5)
        x, y = S.allocate_x(), S.allocate_y()
        ctx.check('allocated unknowns and right hand sides', [tuple(v.shape) for v in blocks(x)] == [tuple(C.n_elements[i]) for i in R] and [tuple(v.shape) for v in blocks(y)] == [tuple(C.n_elements[i]) for i in L])
