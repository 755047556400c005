"""C05: linear and logarithmic grids"""

from .common import *


def prove(pr):
    a, b, d, n = rvar('a'), rvar('b'), rvar('d'), ivar('n')
    k = ivar('_k')
    f = lambda I, nm, *x: I.call(I.module('helpers').get(nm), list(x))
    Ni, A, B, D = N(n, 'int'), N(a, 'float'), N(b, 'float'), N(d, 'float')

    def lin_int(I, kind, v):
        yield 'n points', length_is(I, v, n)
        e = elem(I, v, k).p
        yield from ranged([('evenly spaced, both ends included', ('eq', e * (n - 1), a * (n - 1) + (b - a) * k))], k, n)

    pr.verify('helpers.linear_grid', lambda I: f(I, 'linear_grid', A, B, Ni), lin_int, [gt0(n - 1)])

    def lin_one(I, kind, v):
        yield 'one point', length_is(I, v, ONE)
        yield 'the lower bound', ('eq', elem(I, v, ZERO).p, a)
    pr.verify('helpers.linear_grid', lambda I: f(I, 'linear_grid', A, B, N(1, 'int')), lin_one)

    def lin_delta(I, kind, v):
        m = I.length(v)
        e = elem(I, v, k).p
        yield from ranged([('points are lower + i*spacing', ('eq', e, a + k * d)),
                           ('no point exceeds the upper bound', ge0(b - e))], k, m)
        yield 'the next point exceeds the upper bound', gt0(a + m * d - b)
        yield 'at least the lower bound', gt0(m)
    pr.verify('helpers.linear_grid', lambda I: f(I, 'linear_grid', A, B, D), lin_delta, [gt0(d), ge0(b - a)])

    def logx(I, kind, v):
        yield 'n points', length_is(I, v, n)
        e = elem(I, v, k).p
        yield from ranged([('lower*(upper/lower)^(j/n)', ('eq', e, a * T.powr(b * T.inv(a), (k + 1) * T.inv(n)))),
                           ], k, n, [gt0(k)])
        yield 'first point is the lower bound', ('eq', elem(I, v, ZERO).p, a)
        yield 'last point is the upper bound', ('under', [gt0(n - 1)], ('eq', elem(I, v, n - 1).p, b))
    pr.verify('helpers.logx_grid', lambda I: f(I, 'logx_grid', A, B, Ni), logx, [gt0(n), gt0(a), gt0(b)])

    def logx0(I, kind, v):
        yield 'n points', length_is(I, v, n)
        yield 'starts at zero', ('eq', elem(I, v, ZERO).p, ZERO)
        e0, e1 = elem(I, v, k).p, elem(I, v, k + 1).p
        r = T.powr(b, T.inv(n))
        yield 'constant ratio once shifted by one', ('under', [gt0(k), lt0(k - n + 1)], ('eq', e1 + 1, (e0 + 1) * r))
    pr.verify('helpers.logx_grid', lambda I: f(I, 'logx_grid', N(0, 'int'), B, Ni), logx0, [gt0(n - 1), gt0(b)])
