"""C10: the coherent intermediate scattering function equals its definition"""

from .world import *
from .fourier import *

HALF = T.to_poly(__import__('fractions').Fraction(3, 4))
NT = ivar('len_tgrid')
NS = ivar('tsamples')
T0 = app('tgrid', ZERO)


def curve_zero():
    """the requested times, after time zero"""
    nm = fresh('_g')
    x = ivar(nm)
    return lam([nm], (ONE - lt0(x - 1)) * app('tgrid', x - 1)), NT + 1


def curve_log():
    nm = fresh('_g')
    return lam([nm], app('logx', ZERO, HALF * TOT, NS, ivar(nm))), NS


# name, requested?, normalize, facts, curve
GRIDS = [('time zero requested', True, True, [ge0(-T0)], given),
         ('time zero not requested', True, True, [gt0(T0)], curve_zero),
         ('not normalized', True, False, [], given),
         ('default times', False, True, [], curve_log)]

NPART = lambda s: (lambda i: app('npart%d' % s, i, sort='int'))
POS = lambda s: (lambda i, p, d: app('r%d' % s, i, p, d))
OVER = {('fkt', 'check_block_size'): P.Bi('check_block_size', lambda I, a, k: None)}


def build(I, cls, requested, norm, opts):
    th = trajectory(I)
    kw = dict(opts, normalize=norm)
    if requested:
        kw['tgrid'] = num_list(I, 'tgrid', NT)
    else:
        kw['tsamples'] = N(NS, 'int')
    return I.call(I.module('fkt').get(cls), [th], kw)


def pairs_of(curve, opts):
    c, n = curve()
    o = opts['norigins']
    off = (ZERO if o == '1' else ONE) if isinstance(o, str) else ONE - eq0(o.p - 1)
    g = TGrid(c, n, off)
    return Pairs(g.n, g.off, g.sep, stride(I_NONE, o), F, STEP)


I_NONE = None


def check(I, obj, w, pairs, corr, norm, what, nonorm=False, unit=False):
    """
    grid and values are those of the averages of corr(g, v, first, second) over
    the wave-vectors of group g and the pairs of frames
    """
    grid, value = I.getattr(obj, 'grid'), I.getattr(obj, 'value')
    L = pairs.times()
    n = nsk(L)
    g, k = ivar(fresh('_k')), ivar(fresh('_k'))
    facts = [ge0(g), lt0(g - NG), ge0(k), lt0(k - n)]
    kg, tg = I.seq_get(grid, ZERO), I.seq_get(grid, ONE)
    yield what + 'number of wave-numbers', length_is(I, kg, NG)
    yield what + 'number of times', length_is(I, tg, n)
    yield what + 'number of curves', length_is(I, value, NG)

    def average(g, d):
        s = lambda f: the_sum([w.nv(g)], lambda v: pairs.sum(lambda a, b: f(v, a, b) * eq0(pairs.dt(a, b) - d)))
        return s(lambda v, a, b: corr(g, v, a, b)) * T.inv(s(lambda v, a, b: ONE))
    yield what + 'wave-numbers', ('under', facts, ('eq', item(I, kg, g).p, w.norm(g)))
    d = sk(L, k)
    yield what + 'times', ('under', facts, ('eq', item(I, tg, k).p, d * DT))
    yield what + 'values per wave-number', ('under', facts, ('eq', I.length(I.seq_get(value, g)), n))
    av = average(g, d)
    if norm and unit:
        # 1 at the first time, which is time zero: the average itself is 1 then
        yield what + 'first value', ('under', facts, ('eq', item(I, value, g, ZERO).p, ONE))
        yield what + 'values', ('under', facts + [gt0(k)], ('eq', item(I, value, g, k).p, av))
    else:
        yield what + 'values', ('under', facts, ('eq', item(I, value, g, k).p, av * T.inv(average(g, sk(L, ZERO))) if norm else av))
    if nonorm:
        yield what + 'not normalized', ('under', facts, ('eq', item(I, I.getattr(obj, 'value_nonorm'), g, k).p, av))


def prove(pr):
    for nd in (2, 3):
        for two in (False, True):
            case(pr, nd, two, GRIDS[0], {'norigins': iN('n')})
    for g in GRIDS[1:]:
        case(pr, 3, True, g, {'norigins': iN('n')})
    case(pr, 3, False, GRIDS[0], {'norigins': '1'})


def case(pr, nd, two, grid, opts):
    name, requested, norm, facts, curve = grid
    what = '%dd, %s, %s: ' % (nd, 'two groups' if two else 'one group', name)
    other = 1 if two else 0
    w = Waves(nd)

    def run(I):
        obj = build(I, 'IntermediateScattering', requested, norm, opts)
        put(I, obj, w)
        a = positions(I, 0, nd)
        I.setattr(obj, '_pos_0', a)
        I.setattr(obj, '_pos_1', positions(I, 1, nd) if two else a)
        I.call(I.getattr(obj, '_compute'), [])
        return obj

    def rho(s, i, g, v):
        return the_sum([NPART(s)(i)], lambda p: T.expi(w.dot(g, v, lambda d: POS(s)(i, p, d))))

    def post(I, kind, obj):
        yield from check(I, obj, w, pairs_of(curve, opts), lambda g, v, a, b: T.re(rho(0, b, g, v) * T.conj(rho(other, a, g, v))), norm, what, True)
    pr.verify('fkt.IntermediateScattering._compute', run, post, FACTS + [gt0(NG), gt0(NT), gt0(NS)] + facts,
              contracts=dict(CONTRACTS, **{'fourierspace.expo_sphere': expo_sphere}),
              nonneg=NONNEG + ('npart0', 'npart1', 'nvec'), axioms=dict(AX, **AXW), module_overrides=OVER)
