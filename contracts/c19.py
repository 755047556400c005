"""C19: the dynamic susceptibility is the variance of the total overlap"""

from .world import *
from .kernels import OVERRIDES
from .c02 import U, the_logx

SQ = T.to_poly(__import__('fractions').Fraction(3, 4))


def prove(pr):
    A = rvar('a')
    ns = ivar('tsamples')

    def overlap(i, j):
        r2 = lambda p: the_sum([D], lambda a: (U(j, p, a) - U(i, p, a)) ** 2)
        return the_sum([NP], lambda p: lt0(r2(p) - A ** 2))

    for cls in ('Chi4SelfOverlap', 'Chi4SelfOverlapOptimized'):
        for what, requested, opts in (('requested times', True, {'norigins': iN('n')}),
                                      ('one origin as text', True, {'norigins': '1'}),
                                      ('default times', False, {'tsamples': iN('tsamples')})):
            def run(I):
                th = trajectory(I)
                args = [th] + ([num_list(I, 'tgrid', ivar('len_tgrid'))] if requested else [])
                obj = I.call(I.module('chi4t').get(cls), args, dict(opts, a=N(A, 'float')))
                I.setattr(obj, '_pos_unf', frames_of_arrays(I, 'unf'))
                I.call(I.getattr(obj, '_compute'), [])
                return obj

            def post(I, kind, obj):
                curve, n = given() if requested else the_logx(ZERO, SQ * TOT, ns)
                g = TGrid(curve, n, ZERO if opts.get('norigins') == '1' else ONE)
                st = stride(I, opts.get('norigins', N(-1, 'int')))
                k = ivar(fresh('_k'))
                off, sep = g.off(k), g.sep(k)
                origin = lambda m: off + m * st
                cn = cnt(off, F - sep, st)
                q = lambda e: gt0(cn) * the_sum([cn], lambda m: overlap(origin(m), origin(m) + sep) ** e) * T.inv(cn)
                time = (STEP(off + sep) - STEP(off)) * DT
                av, va = I.getattr(obj, 'average'), I.getattr(obj, 'variance')
                goals = []
                for name, o, f in (('susceptibility', obj, (q(2) - q(1) ** 2) * T.inv(NP)), ('average', av, q(1)), ('second moment', va, q(2))):
                    gr, v = I.getattr(o, 'grid'), I.getattr(o, 'value')
                    yield '%s, %s: number of times' % (what, name), length_is(I, gr, g.n)
                    yield '%s, %s: number of values' % (what, name), length_is(I, v, g.n)
                    goals += [('%s, %s: times' % (what, name), ('eq', item(I, gr, k).p, time)),
                              ('%s, %s: values' % (what, name), ('eq', item(I, v, k).p, f))]
                yield from ranged(goals, k, g.n)
            pr.verify('chi4t.%s._compute' % cls, run, post, FACTS + [gt0(ns - 1), gt0(ivar('len_tgrid'))], contracts=CONTRACTS,
                      nonneg=NONNEG, axioms=AX, module_overrides=OVERRIDES)
