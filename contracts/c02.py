"""C02: two-time observables equal their definitions"""

from .world import *

U = lambda i, p, a: app('unf', i, p, a)
V = lambda i, p, a: app('vel', i, p, a)
X = lambda i, p, a: app('pos', i, p, a)


def prove(pr):
    A = rvar('a')

    def msd(i, j):
        return the_sum([NP, D], lambda p, a: (U(j, p, a) - U(i, p, a)) ** 2) * T.inv(NP)

    def vacf(i, j):
        return the_sum([NP, D], lambda p, a: V(j, p, a) * V(i, p, a)) * T.inv(NP)

    def alpha2(i, j):
        r2 = lambda p: the_sum([D], lambda a: (U(j, p, a) - U(i, p, a)) ** 2)
        dr2 = the_sum([NP], lambda p: r2(p)) * T.inv(NP)
        dr4 = the_sum([NP], lambda p: r2(p) ** 2) * T.inv(NP)
        # 0 at zero elapsed time (same entry)
        return (ONE - eq0(i - j)) * (D * dr4 * T.inv((D + 2) * dr2 ** 2) - 1)

    def qst(i, j):
        r2 = lambda p: the_sum([D], lambda a: (U(j, p, a) - U(i, p, a)) ** 2)
        return the_sum([NP], lambda p: lt0(r2(p) - A ** 2)) * T.inv(NP)

    def qt(i, j):
        r2 = lambda p, q: the_sum([D], lambda a: (X(j, p, a) - X(i, q, a)) ** 2)
        return the_sum([NP, lambda p: NP], lambda p, q: lt0(r2(p, q) - A ** 2)) * T.inv(NP)

    ns = ivar('nsamples')
    two = [gt0(ns - 1)]
    half = T.to_poly(__import__('fractions').Fraction(3, 4))
    tenth = T.to_poly(__import__('fractions').Fraction(1, 10))
    table = [
        ('msd', 'MeanSquareDisplacement', '_pos_unf', 'unf', msd, {}, 'tsamples', linear(ZERO, TOT, ns)),
        ('vacf', 'VelocityAutocorrelation', '_vel', 'vel', vacf, {}, 'tsamples', linear(ZERO, tenth * TOT, ns)),
        ('alpha2', 'NonGaussianParameter', '_pos_unf', 'unf', alpha2, {}, 'nsamples', linear(ZERO, half * TOT, ns)),
        ('qt', 'SelfOverlap', '_pos_unf', 'unf', qst, {'a': N(A, 'float')}, None, None),
        ('qt', 'CollectiveOverlap', '_pos', 'pos', qt, {'a': N(A, 'float')}, None, None),
    ]
    logx = the_logx(ZERO, half * TOT, ns)
    table[3] = table[3][:6] + ('tsamples', logx)
    table[4] = table[4][:6] + ('tsamples', logx)
    for mod, cls, attr, name, f, kw, nkey, default in table:
        variants = [('requested times', True, {'norigins': iN('n')}), ('one origin as text', True, {'norigins': '1'})]
        if cls == 'MeanSquareDisplacement':
            variants.append(('no offset', True, {'no_offset': True}))
            # the time at which the square root of the displacement reaches rmax, by linear extrapolation
            rm = rvar('rmax')
            target = rm ** 2 * T.inv(msd(ZERO, F - 1)) * TOT
            variants.append(('times up to rmax', False, {'rmax': N(rm, 'float'), nkey: N(ns, 'int')}))
        if default is not None:
            variants.append(('default times', False, {nkey: N(ns, 'int')}))
        for what, requested, opts in variants:
            def run(I):
                th = trajectory(I)
                args = [th] + ([num_list(I, 'tgrid', ivar('len_tgrid'))] if requested else [])
                obj = I.call(I.module(mod).get(cls), args, dict(kw, **opts))
                I.setattr(obj, attr, frames_of_arrays(I, name))
                I.call(I.getattr(obj, '_compute'), [])
                return obj

            def post(I, kind, obj):
                curve, n = given() if requested else default
                if what == 'times up to rmax':
                    curve, n = linear(ZERO, T.minp(TOT, target), ns)
                off = ZERO if opts.get('norigins') == '1' or opts.get('no_offset') else ONE
                g = TGrid(curve, n, off)
                pairs = Pairs(g.n, g.off, g.sep, stride(I, opts.get('norigins', DEFAULTS.get(cls))), F, STEP)
                yield from check_times(I, obj, pairs, f, what + ': ')
            pr.verify('%s.%s._compute' % (mod, cls), run, post, FACTS + two + [gt0(ivar('len_tgrid')), gt0(rvar('rmax'))], contracts=CONTRACTS, nonneg=NONNEG,
                      axioms=AX)


def the_logx(a, b, n):
    nm = fresh('_g')
    return lam([nm], app('logx', a, b, n, ivar(nm))), n


# the default number of origins of the classes that have one of their own
DEFAULTS = {'SelfOverlap': N(-1, 'int'), 'CollectiveOverlap': N(-1, 'int')}
