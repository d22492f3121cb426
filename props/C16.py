"""stencil complexes: implicit topology of the torus"""
import itertools

import numpy as np

from vsym.prop import Registry
from props.lib import rows, perm_sign, plain

REG = Registry('C16', bounds='periodic grids in 1-4d with 1-5 cells per direction (thorough: up to 5d, up to 64 cells); every entry of every form symbolic in [-1, 1], scale symbolic in [1/8, 8]; '
               'sample points symbolic within four periods around the grid',
               assumptions=['real arithmetic in place of (single precision) floating point; results compared within 1e-6',
                            'the ndimage kernels are linear in the field: their coefficients are obtained by running the real kernels on a basis'])
ob = REG.ob

SHAPES = [(1,), (2,), (3,), (5,), (1, 1), (2, 3), (3, 2), (4, 4), (2, 2, 2), (2, 3, 1), (3, 2, 4), (2, 1, 2, 3)]
SHAPES_T = [(9,), (16,), (1, 7), (5, 6), (8, 8), (4, 3, 5), (4, 4, 4), (3, 2, 3, 2), (2, 2, 2, 2, 2)]


def topology(shape):
    from pycomplex.stencil.topology import StencilTopology
    return StencilTopology(shape)


def symbols(n):
    return [list(itertools.combinations(range(n), k)) for k in range(n + 1)]


def step(x, shape, *axes):
    return tuple((v + (i in axes)) % s for i, (v, s) in enumerate(zip(x, shape)))


def sites(shape):
    return list(itertools.product(*[range(s) for s in shape]))


def table(f):
    """{(component, site): value}"""
    r = f.view_raw() if type(f).__name__ == 'SymArr' else np.asarray(f)
    return {(i[0], i[1:]): r[i] for i in np.ndindex(*r.shape)}


def coboundary(shape, k, t):
    """exterior derivative on the torus; the direction derived to is appended last"""
    S = symbols(len(shape))
    out = []
    for I in S[k + 1]:
        for x in sites(shape):
            v = 0
            for d in I:
                rest = tuple(i for i in I if i != d)
                order = rest + (d,)
                sg = perm_sign([sorted(order).index(o) for o in order])
                c = S[k].index(rest)
                v = v + sg * (t[c, step(x, shape, d)] - t[c, x])
            out.append(v)
    return out


def form(ctx, name, T, n):
    return ctx.real(name, T.n_elements[n], -1, 1)


@REG.family('derivative/{0}', [(s,) for s in SHAPES])
@REG.family('derivative/{0}', [(s,) for s in SHAPES_T], tier='thorough', timeout=900)
def derivative(ctx, shape):
    T = topology(shape)
    n = len(shape)
    S = symbols(n)
    ctx.check('one component per direction set', [tuple(tuple(c) for c in s) for s in T.symbols] == [tuple(s) for s in S])
    ctx.check('shapes of forms', list(T.n_elements) == [(len(s),) + shape for s in S] and len(T.primal) == len(T.dual) == n)
    for k in range(n):
        f = form(ctx, 'f%d' % k, T, k)
        g = form(ctx, 'g%d' % k, T, k + 1)
        P, D = T.primal[k], T.dual[k]
        ctx.check('operator shapes', P.shape == (T.n_elements[k + 1], T.n_elements[k]) and D.shape == P.shape[::-1])
        df = P * f
        dg = D * g
        ctx.close('derivative of %d-forms' % k, df.reshape(-1), np.array(coboundary(shape, k, table(f))))
        # the coefficients of the adjoint: <df, g> = <f, D g> for all f and g
        ctx.close('dual derivative of %d-forms is the adjoint' % (k + 1), np.sum(df * g), np.sum(f * dg), tol=1e-3)
        ctx.close('input is left alone', np.sum(P.T * g - dg), 0)


@REG.family('closed/{0}', [(s,) for s in SHAPES])
@REG.family('closed/{0}', [(s,) for s in SHAPES_T], tier='thorough', timeout=900)
def closed(ctx, shape):
    T = topology(shape)
    for k in range(len(shape) - 1):
        f = form(ctx, 'f%d' % k, T, k)
        ctx.close('derivative of the derivative of %d-forms' % k, T.primal[k + 1](T.primal[k](f)), np.zeros(T.n_elements[k + 2]))
        g = form(ctx, 'g%d' % k, T, k + 2)
        ctx.close('dual derivative twice', T.dual[k](T.dual[k + 1](g)), np.zeros(T.n_elements[k]))
    # stokes: derivatives of a form integrate to zero over the closed torus
    for k in range(len(shape)):
        f = form(ctx, 'h%d' % k, T, k)
        d = T.primal[k] * f
        ctx.close('the derivative integrates to zero', np.sum(d.reshape(len(d), -1), axis=1), np.zeros(len(d)), tol=1e-4)


@REG.family('average/{0}', [(s,) for s in SHAPES])
@REG.family('average/{0}', [(s,) for s in SHAPES_T], tier='thorough', timeout=900)
def average(ctx, shape):
    T = topology(shape)
    n = len(shape)
    f = form(ctx, 'f', T, 0)
    t = table(f)
    for k, s in enumerate(symbols(n)):
        out = []
        for I in s:
            for x in sites(shape):
                vs = [t[0, step(x, shape, *J)] for j in range(k + 1) for J in itertools.combinations(I, j)]
                out.append(sum(vs) / len(vs))
        ctx.close('mean over the corners of every %d-cube' % k, (T.averaging_operators_0[k] * f).reshape(-1), np.array(out))


@REG.family('hodge/{0}', [((3,),), ((2, 3),), ((2, 1, 2),), ((1, 2, 1, 2),)])
def hodge(ctx, shape):
    from pycomplex.stencil.complex import StencilComplex
    h = ctx.real('h', (), 1 / 8, 8)
    C = StencilComplex.from_shape(shape, scale=h)
    n = len(shape)
    ctx.check('forms', C.n_dim == n and tuple(C.shape) == tuple(shape) and list(C.n_elements) == list(C.topology.n_elements))
    for k in range(n + 1):
        f = form(ctx, 'f%d' % k, C.topology, k)
        H = C.hodge[k]
        s = f * 1
        for i in range(n - k):
            s = s * h
        p = H * f
        for i in range(k):
            p = p * h
        ctx.close('hodge of %d-forms is the ratio of dual to primal measure' % k, p, s)
        ctx.close('inverse hodge', H.I * (H * f), f)
        ctx.close('symmetric', H.T * f, H * f)
        x = C.primal_position[0]
    ctx.close('positions', C.primal_position[0].reshape(-1, n), np.array([[v * h for v in x] for x in sites(shape)]))
    D, U = C.fine, None
    ctx.check('fine twin', tuple(D.shape) == tuple(2 * s for s in shape))
    ctx.close('fine scale', D.scale, h / 2)
    ctx.check('coarse of fine', tuple(D.coarse.shape) == tuple(shape))
    ctx.close('coarse scale', D.coarse.scale, h)


@REG.family('odd/{0}', [((3,),), ((2, 3),), ((2, 1, 2),)])
def odd(ctx, shape):
    from pycomplex.stencil.complex import StencilComplex
    ctx.expect_raise('shapes with odd extents have no coarse twin', Exception, lambda: StencilComplex.from_shape(shape).coarse)


@REG.family('sample/{0}', [((3,),), ((2, 3),), ((2, 2, 2),)])
def sample(ctx, shape):
    """periodic multilinear interpolation at any point"""
    from pycomplex.stencil.complex import StencilComplex
    ctx.fork_floors()
    h = ctx.real('h', (), 1 / 4, 4)
    C = StencilComplex.from_shape(shape, scale=h)
    n = len(shape)
    f = form(ctx, 'f', C.topology, 0)
    t = table(f)
    x = ctx.int('x', n, -4, 4)
    r = ctx.real('r', n, 0, 1)
    ctx.assume(np.all(r < 1))
    i = [int(v) for v in rows(x)]
    r = rows(r)
    p = [(a + b) * h for a, b in zip(i, r)]
    got = C.sample_0(f, np.array([p]))
    want = 0
    for J in itertools.product((0, 1), repeat=n):
        w = 1
        for a, b in zip(J, r):
            w = w * (b if a else 1 - b)
        want = want + w * t[0, tuple((a + b) % s for a, b, s in zip(i, J, shape))]
    ctx.check('one sample per point', got.shape == (1,))
    ctx.close('interpolation between the corners of the cell', got[0], want)


@ob('errors')
def errors(ctx):
    T = topology((2, 3))
    f = form(ctx, 'f', T, 1)
    ctx.expect_raise('forms of the wrong degree', Exception, lambda: T.primal[0] * f)
    ctx.expect_raise('operators of unmatched degree', Exception, lambda: T.primal[0] * T.dual[1])


@REG.family('patterns/{0}', [((3,),), ((4, 6),), ((2, 3, 4),)])
def patterns(ctx, shape):
    """colorings of the grid, binomials and smoothing kernels"""
    from pycomplex.stencil import util
    n = len(shape)
    import math
    c = plain(np.asarray(util.checkerboard(shape)))
    ctx.check('checkerboard', c.shape == tuple(shape) and all(int(c[x]) == sum(x) % 2 for x in sites(shape)))
    o = int(ctx.int('offset', (), 0, 2 ** n - 1))
    m = plain(np.asarray(util.checkerboard_2(shape, o)))
    ctx.check('every other site in every direction', m.shape == tuple(shape) and all(bool(m[x]) == (sum((v % 2) << i for i, v in enumerate(x)) == o) for x in sites(shape)))
    s = plain(np.asarray(util.smoother(n))).astype(float)
    ctx.close('smoothing kernel', s, np.array([math.prod((.25, .5, .25)[i] for i in x) for x in itertools.product(range(3), repeat=n)]).reshape((3,) * n))


@ob('binomials')
def binomials(ctx):
    from pycomplex.stencil import util
    import math
    a = int(ctx.int('n', (), 0, 6))
    k = int(ctx.int('k', (), 0, a))
    ctx.check('binomials', util.pascal(a, k) == math.comb(a, k))
