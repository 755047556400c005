"""C01: time-correlation averages count every admissible pair exactly once"""

from .common import *

LEVELS = 'proved'


def setup(I, offsets):
    n, ng = ivar('len_x'), ivar('len_g')
    t = num_list(I, 't', n)
    skip = iN('skip')
    sep = lambda j: app('sep', j, sort='int')
    if offsets:
        off = lambda j: app('off', j, sort='int')
        grid = I.list_fn(ng, lambda j: P.Tup((N(off(j), 'int'), N(sep(j), 'int'))))
    else:
        off = lambda j: ZERO
        grid = I.list_fn(ng, lambda j: N(sep(j), 'int'))
    pairs = Pairs(ng, off, sep, ivar('skip'), n, lambda i: app('t', i))
    return grid, skip, t, pairs


FACTS = [gt0(ivar('skip'))]
NN = ('sep', 'off')


def prove(pr):

    # acf: auto correlation of a series of numbers
    def run(I):
        grid, skip, t, pairs = setup(I, False)
        x = num_list(I, 'x', ivar('len_x'))
        return I.call(I.module('correlation').get('acf'), [grid, skip, t, x])

    def post(I, kind, v):
        grid, skip, t, pairs = setup(I, False)
        n = ivar('len_x')
        mean = the_sum([n], lambda i: app('x', i)) * T.inv(n)
        dev = lambda i: app('x', i) - mean
        g, val = item(I, v, ZERO), item(I, v, ONE)
        yield from check_curve(I, pairs, g, val, lambda a, b: dev(b) * dev(a))

    pr.verify('correlation.acf', run, post, FACTS, nonneg=NN)

    # gcf: generalized correlation, f an arbitrary function of two entries
    F = P.Bi('f', lambda I, a, k: N(app('f', I.M.ident(I, a[0]) if False else a[0].p, a[1].p), 'float'))

    def run(I):
        grid, skip, t, pairs = setup(I, False)
        x = I.list_fn(ivar('len_x'), lambda j: P.Opq(app('x', j, sort='obj')))
        return I.call(I.module('correlation').get('gcf'), [F, grid, skip, t, x])

    def post(I, kind, v):
        grid, skip, t, pairs = setup(I, False)
        X = lambda j: app('x', j, sort='obj')
        g, val, c = item(I, v, ZERO), item(I, v, ONE), item(I, v, cst(2))
        yield from check_curve(I, pairs, g, val, lambda a, b: app('f', X(b), X(a)))
        k = ivar(fresh('_k'))
        L = pairs.times()
        yield from ranged([('counts are the numbers of pairs', ('eq', elem(I, c, k).p, L(sk(L, k))))], k, nsk(L))

    pr.verify('correlation.gcf', run, post, FACTS, nonneg=NN)

    def run(I):
        grid, skip, t, pairs = setup(I, True)
        x = I.list_fn(ivar('len_x'), lambda j: P.Opq(app('x', j, sort='obj')))
        return I.call(I.module('correlation').get('gcf_offset'), [F, grid, skip, t, x])

    def post(I, kind, v):
        grid, skip, t, pairs = setup(I, True)
        X = lambda j: app('x', j, sort='obj')
        g, val = item(I, v, ZERO), item(I, v, ONE)
        yield from check_curve(I, pairs, g, val, lambda a, b: app('f', X(b), X(a)))

    pr.verify('correlation.gcf_offset', run, post, FACTS, nonneg=NN)
