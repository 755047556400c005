"""C21: the spectral density equals its definition"""

from .world import *
from .fourier import *

NPART = lambda i: app('npart0', i, sort='int')
POS = lambda i, p, d: app('r0', i, p, d)
RAD = lambda i, p: app('radius', i, p)


def prove(pr):
    check_norm(pr)
    for variable in (False, True):
        case(pr, variable)


def check_norm(pr):
    """_k_norm: norm of the wave-vector of the given indices"""
    n = ivar('ndim')
    off = ivar('offset')

    def run(I):
        k0 = array(I, 'k0', (n,))
        ik = I.arr_fn((n,), lambda d: app('ik', d, sort='int'), 'int')
        return I.call(I.module('fourierspace').get('_k_norm'), [ik, k0, N(off, 'int')])

    def post(I, kind, v):
        yield 'norm', ('eq', v.p, T.sqrt(the_sum([n], lambda d: (app('k0', d) * (app('ik', d, sort='int') - off)) ** 2)))
    pr.verify('fourierspace._k_norm', run, post, [gt0(n)])


def case(pr, variable):
    what = '%s cell: ' % ('variable' if variable else 'fixed')
    def sample(k):
        return P.Sym('sample', {'dump': lambda I: P.Bi('dump', lambda I, a, kw: dump(I, k, a[0]))}, key=k, ops={'rekey': sample})
    rad = P.Sym('radii', {}, key=None, ops={'len': lambda I: F, 'item': lambda I, k: sample(k)})

    def dump(I, i, name):
        if name not in ('particle.radius', 'radius'):
            raise P.Unsupported('dump of %s' % name)
        return I.arr_fn((NPART(i),), lambda p: RAD(i, p), 'float')

    def opened(I, a, k):
        I.oblige('the trajectory with the radii is the one given', ONE if a[0] == 'radii.xyz' else ZERO)
        return rad

    def run(I):
        th = trajectory(I)
        obj = I.call(I.module('ik').get('SpectralDensity'), [th, 'radii.xyz'], {'norigins': iN('n')})
        put(I, obj, Waves(3, ZERO if variable else None))
        I.setattr(obj, '_pos', positions(I, 0, 3))
        I.call(I.getattr(obj, '_compute'), [])
        return obj

    def post(I, kind, obj):
        grid, value = [I.getattr(obj, x) for x in ('grid', 'value')]
        g = ivar(fresh('_k'))
        st = stride(I, iN('n'))

        def term(i, v):
            w = Waves(3, i if variable else None)
            k = I.named(N(T.sqrt(T.addn([(w.k0(d) * (w.index(g, v, d) - w.offset())) ** 2 for d in range(3)])), 'float'), 100).p
            m = lambda R: 4 * var('pi', 'real') * (app('sin', k * R) - k * R * app('cos', k * R)) * T.inv(k ** 3)
            rho = the_sum([NPART(i)], lambda p: m(RAD(i, p)) * T.expi(w.dot(g, v, lambda d: POS(i, p, d))))
            return rho * T.conj(rho)
        nv = lambda m: Waves(3, m * st if variable else None).nv(g)
        nf = cnt(ZERO, F, st)
        c = the_sum([nf, nv], lambda m, v: ONE)
        av = the_sum([nf, nv], lambda m, v: term(m * st, v)) * T.inv(c)
        vol = the_sum([F], lambda i: app('volume', i)) * T.inv(F)
        yield what + 'number of wave-numbers', length_is(I, value, NG)
        yield what + 'number of wave-numbers of the grid', length_is(I, grid, NG)
        if not variable:
            yield from ranged([(what + 'wave-numbers', ('eq', item(I, grid, g).p, Waves(3).norm(g)))], g, NG)
        yield from ranged([
            (what + 'values', ('eq', item(I, value, g).p, T.re(av) * T.inv(vol)))], g, NG)
    over = {('ik', 'Trajectory'): P.Bi('Trajectory', opened),
            ('ik', 'is_cell_variable'): P.Bi('is_cell_variable', lambda I, a, k: variable)}
    pr.verify('ik.SpectralDensity._compute', run, post, FACTS + [gt0(NG)],
              contracts=dict(CONTRACTS, **{'fourierspace.expo_sphere': expo_sphere, 'fourierspace.FourierSpaceCorrelation._setup': setup(3)}),
              nonneg=NONNEG + ('npart0', 'nvec'), axioms=dict(AX, **AXW), module_overrides=over, naming=True)
