"""C08: the structure factor equals its definition"""

from .world import *
from .fourier import *
from . import kernels


def prove(pr):
    check_expo(pr)
    for cls in ('StructureFactorLegacy', 'StructureFactorFast'):
        for nd in (2, 3):
            for two in (False, True):
                for weights in (False, True):
                    for variable in (False, True):
                        case(pr, cls, nd, two, weights, variable)


def case(pr, cls, nd, two, weights, variable):
    np_ = lambda s: (lambda i: app('npart%d' % s, i, sort='int'))
    pos = lambda s: (lambda i, p, d: app('r%d' % s, i, p, d))
    what = '%dd, %s, %s weights, %s cell' % (nd, 'two groups' if two else 'one group', 'with' if weights else 'no', 'variable' if variable else 'fixed')
    over = {('sk', 'is_cell_variable'): P.Bi('is_cell_variable', lambda I, a, k: variable),
            ('atooms.trajectory.utils', 'is_cell_variable'): P.Bi('is_cell_variable', lambda I, a, k: variable),
            ('atooms.postprocessing.fourierspace_wrap', 'fourierspace_module'): kernels.module('fourierspace_module', kernels.FOURIERSPACE)}

    def run(I):
        th = trajectory(I)
        obj = I.call(I.module('sk').get(cls), [th], {'norigins': iN('n')})
        put(I, obj, Waves(nd, ZERO if variable else None))
        a = positions(I, 0, nd)
        b = positions(I, 1, nd) if two else a
        I.setattr(obj, '_pos_0', a)
        I.setattr(obj, '_pos_1', b)
        if weights:
            w = lambda s: I.list_fn(F, lambda i: I.arr_fn((np_(s)(i),), lambda p: app('w%d' % s, i, p), 'float'))
            I.setattr(obj, '_weight', True)
            w0 = w(0)
            I.setattr(obj, '_weight_0', w0)
            I.setattr(obj, '_weight_1', w(1) if two else w0)
        I.call(I.getattr(obj, '_compute'), [])
        return obj

    def post(I, kind, obj):
        grid, value, nonorm = [I.getattr(obj, x) for x in ('grid', 'value', 'value_nonorm')]
        g = ivar(fresh('_k'))
        st = stride(I, iN('n'))
        other = 1 if two else 0

        def rho(s, i, v):
            k = Waves(nd, i if variable else None)
            w = (lambda p: app('w%d' % s, i, p)) if weights else (lambda p: ONE)
            return the_sum([np_(s)(i)], lambda p: w(p) * T.expi(k.dot(g, v, lambda d: pos(s)(i, p, d))))

        def average(f):
            """over the sampled frames and the vectors of the group"""
            nv = lambda m: Waves(nd, m * st if variable else None).nv(g)
            nf = cnt(ZERO, F, st)
            c = the_sum([nf, nv], lambda m, v: ONE)
            return the_sum([nf, nv], lambda m, v: f(m * st, v)) * T.inv(c)
        s = average(lambda i, v: rho(0, i, v) * T.conj(rho(other, i, v)))
        if weights:
            s = s - average(lambda i, v: rho(0, i, v)) * T.conj(average(lambda i, v: rho(other, i, v)))
        n = [the_sum([F], lambda i: np_(x)(i)) * T.inv(F) for x in (0, other)]
        yield what + ': number of wave-numbers', length_is(I, value, NG)
        yield what + ': number of wave-numbers of the grid', length_is(I, grid, NG)
        yield from ranged([
            (what + ': wave-numbers', ('eq', item(I, grid, g).p, Waves(nd, ZERO if variable else None).norm(g))),
            (what + ': not normalized', ('eq', item(I, nonorm, g).p, T.re(s))),
            (what + ': values', ('eq', item(I, value, g).p, T.re(s) * T.inv(T.powr(n[0] * n[1], T.cst(T.Fraction(1, 2))))))], g, NG)
    pr.verify('sk.%s._compute' % cls, run, post, FACTS + [gt0(NG)],
              contracts=dict(CONTRACTS, **{'fourierspace.expo_sphere': expo_sphere, 'fourierspace.FourierSpaceCorrelation._setup': setup(nd)}),
              nonneg=NONNEG + ('npart0', 'npart1', 'nvec'), axioms=dict(AX, **AXW), module_overrides=over)
