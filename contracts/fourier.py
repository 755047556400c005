"""
Reciprocal space: contracts of the functions of fourierspace.py that C08-C10,
C21 rely on (and that are proved here), and the abstract wave-vectors.
"""

from .common import *

PHASE = lambda p: T.expi(p)


def check_expo(pr):
    """expo_sphere: exponentials exp(i*(m-nk)*k0_j*r_j) of every component j, 0 <= m <= 2*nk"""
    NK = ivar('nk')
    for shape in ([ivar('len_p'), ivar('len_dim')], [ivar('len_f'), ivar('len_p'), ivar('len_dim')]):
        nd = len(shape)

        def run(I):
            k0 = array(I, 'k0', (shape[-1],))
            pos = array(I, 'pos', shape)
            return I.call(I.module('fourierspace').get('expo_sphere'), [k0, N(NK, 'int'), pos])

        def post(I, kind, v):
            sh = I.state(v).shape
            yield 'number of dimensions', ('ok',) if len(sh) == nd + 1 else ('fail', str(sh))
            for a, b in zip(sh, shape + [2 * NK + 1]):
                yield 'shape', ('eq', a, b)
            ks = [ivar(fresh('_k')) for _ in range(nd + 1)]
            fs = []
            for k, n in zip(ks, shape + [2 * NK + 1]):
                fs += [ge0(k), lt0(k - n)]
            yield 'exponential of each component', ('under', fs, ('eq', I.at(v, *ks), T.expi((ks[-1] - NK) * app('k0', ks[-2]) * app('pos', *ks[:-1]))))
        pr.verify('fourierspace.expo_sphere', run, post, [gt0(x) for x in shape] + [gt0(NK)])


def prove(pr):
    check_expo(pr)


# ---------------------------------------------------------------- abstract wave-vectors

NG = ivar('len_kgrid')
F = ivar('len_frames')
def _in_table(*a):
    # indices of the tabulated exponentials (C07); the first argument is the frame if the cell changes
    k = app('kvec', *a, sort='int')
    n = app('kmax', *a[:-3], sort='int')
    return [ge0(k), gt0(2 * n + 1 - k), gt0(n)]


AXW = {'kvec': _in_table, 'nvec': lambda *a: [gt0(app('nvec', *a, sort='int'))],
       'kmax': lambda *a: [gt0(app('kmax', *a, sort='int'))],
       'npart0': lambda *a: [gt0(app('npart0', *a, sort='int'))],
       'npart1': lambda *a: [gt0(app('npart1', *a, sort='int'))]}


class Waves(object):
    """The wave-vectors of a frame (i), or of all the frames (None), in groups (C07)"""

    def __init__(self, nd, i=None):
        self.nd, self.i = nd, () if i is None else (i,)

    def offset(self):
        return app('kmax', *self.i, sort='int')

    def k0(self, d):
        return app('k0', *self.i, T.to_poly(d))

    def nv(self, g):
        return app('nvec', *self.i, g, sort='int')

    def index(self, g, v, d):
        return app('kvec', *self.i, g, v, T.to_poly(d), sort='int')

    def norm(self, g):
        return app('knorm', *self.i, g)

    def dot(self, g, v, r):
        return T.addn([self.k0(d) * (self.index(g, v, d) - self.offset()) * r(cst(d)) for d in range(self.nd)])


def put(I, obj, w):
    """The wave-vectors as attributes of a correlation"""
    I.setattr(obj, 'kgrid', I.list_fn(NG, lambda g: N(w.norm(g), 'float')))
    I.setattr(obj, 'k0', I.arr_fn((cst(w.nd),), lambda d: w.k0(d), 'float'))
    I.setattr(obj, '_koffset', N(w.offset(), 'int'))
    I.setattr(obj, '_kvectors', I.list_fn(NG, lambda g: I.list_fn(w.nv(g), lambda v: P.Tup([N(w.index(g, v, d), 'int') for d in range(w.nd)]))))


def setup(nd):
    """
    Contract of _setup (C07): sets up the wave-vectors of the given frame.
    (Those of the first frame have been set up before: nothing is done then.)
    """
    def f(I, env):
        from .world import M_num
        put(I, env['self'], Waves(nd, M_num(env['sample'])))
    return f


def expo_sphere(I, env):
    """Proved in check_expo"""
    from .world import M_num
    k0, nk, pos = env['k0'], M_num(env['nk_max']), env['pos']
    I.oblige('expo_sphere: at least one wave-vector per direction', gt0(nk))
    sh = I.state(pos).shape
    I.oblige('expo_sphere: there are particles', gt0(sh[0]))
    return I.arr_fn(tuple(sh) + (2 * nk + 1,), lambda *x: T.expi((x[-1] - nk) * I.at(k0, x[-2]) * I.at(pos, *x[:-1])), 'complex')


def positions(I, s, nd):
    """Positions of the selected particles, frame by frame"""
    return I.list_fn(F, lambda i: I.arr_fn((app('npart%d' % s, i, sort='int'), cst(nd)), lambda p, d: app('r%d' % s, i, p, d), 'float'))
