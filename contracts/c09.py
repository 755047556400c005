"""C09: the self intermediate scattering function equals its definition"""

from .world import *
from .fourier import *
from . import kernels
from .c10 import build, pairs_of, check, GRIDS, OVER


def prove(pr):
    for cls in ('SelfIntermediateScatteringLegacy', 'SelfIntermediateScatteringFast'):
        for nd in (2, 3):
            case(pr, cls, nd, GRIDS[0], {'norigins': iN('n')})
    for g in GRIDS[1:]:
        case(pr, 'SelfIntermediateScatteringFast', 3, g, {'norigins': iN('n')})
    case(pr, 'SelfIntermediateScatteringFast', 3, GRIDS[0], {'norigins': '1'})


def case(pr, cls, nd, grid, opts):
    name, requested, norm, facts, curve = grid
    what = '%dd, %s: ' % (nd, name)
    w = Waves(nd)

    def run(I):
        obj = build(I, cls, requested, norm, opts)
        put(I, obj, w)
        I.setattr(obj, '_pos', I.list_fn(F, lambda i: I.arr_fn((NP, cst(nd)), lambda p, d: app('pos', i, p, d), 'float')))
        I.call(I.getattr(obj, '_compute'), [])
        return obj

    def corr(g, v, a, b):
        return T.re(the_sum([NP], lambda p: T.expi(w.dot(g, v, lambda d: app('pos', b, p, d) - app('pos', a, p, d))))) * T.inv(NP)

    def post(I, kind, obj):
        yield from check(I, obj, w, pairs_of(curve, opts), corr, norm, what, unit=True)
    over = dict(OVER)
    over[('atooms.postprocessing.fourierspace_wrap', 'fourierspace_module')] = kernels.module('fourierspace_module', kernels.FOURIERSPACE)
    pr.verify('fkt.%s._compute' % cls, run, post, FACTS + [gt0(NG), gt0(ivar('len_tgrid')), gt0(ivar('tsamples'))] + facts,
              contracts=dict(CONTRACTS, **{'fourierspace.expo_sphere': expo_sphere}),
              nonneg=NONNEG + ('nvec',), axioms=dict(AX, **AXW), module_overrides=over, naming=True)
