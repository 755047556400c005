"""C04: stride between time origins"""

import math
from fractions import Fraction
from .lib import *


class Th(object):
    filename = None

    def __init__(self, F, block, n):
        self.steps = list(range(F))
        self.block_size = block
        self._n = n

    def __len__(self):
        return len(self.steps)

    def __getitem__(self, i):
        class S(object):
            pass
        s = S()
        s.particle = [None] * self._n
        return s
    read = __getitem__


def spec(v, F, block, n):
    """From the statement of the property"""
    if v is None:
        s = math.floor(Fraction(F * n, 40000)) if block == 1 else block
    elif v == '1.0':
        s = block
    else:
        x = float(v)
        if x < 0:
            s = block
        elif x > 1:
            s = math.floor((F // block) / x) * block
        elif x == 1:
            return F
        else:
            s = math.floor(1 / x) * block
    return min(F, max(block, s))


def check_adjust_skip(params):
    from atooms.postprocessing.helpers import adjust_skip
    r = rng(params)
    for k in range(60):
        F = int(r.choice([1, 2, 5, 10, 17, 100, 1000, 1003, 100000]))
        block = int(r.choice([1, 1, 1, 2, 3, 5, 8, F]))
        n = int(r.choice([1, 3, 10, 399, 1000, 2500]))
        v = [None, -1, 1, 2, 3, 5, F, F + 1, 2 * F, 0.5, 0.3, 0.1, 0.01, 0.9, 1e-6, 1.0, 2.5, -0.5, '1', '-1', '2', '10', '0.25', '1.0', '0.07', ' 7'][r.randint(26)]
        describe(F=F, block=block, n=n, n_origins=v)
        got = adjust_skip(Th(F, block, n), v)
        want = spec(v, F, block, n)
        if got != want or isinstance(got, float):
            return 'adjust_skip(F=%d, block=%d, N=%d, n_origins=%r) is %r instead of %r' % (F, block, n, v, got, want)


def check_classes(params):
    """the skip attribute of the correlation objects"""
    import atooms.postprocessing as pp
    r = rng(params)
    D = Data(r)
    v = [None, -1, 1, 2, 3, 0.5, 0.3, '1', '-1', '0.5', '3'][r.randint(11)]
    cls = [pp.MeanSquareDisplacement, pp.VelocityAutocorrelation, pp.RadialDistributionFunction, pp.StructureFactor,
           pp.SelfOverlap, pp.Correlation][r.randint(6)]
    describe(cls=cls.__name__, v=v, steps=D.steps, n=D.n)
    if cls is pp.Correlation:
        c = cls(D.th, [0.0], norigins=v)
    elif cls is pp.StructureFactor:
        c = cls(D.th, [7.0], norigins=v)
    else:
        c = cls(D.th, norigins=v)
    want = spec(v, D.F, D.th.block_size, D.n[0])
    if c.skip != want:
        return '%s(norigins=%r).skip is %r instead of %r (steps %s, block %d)' % (cls.__name__, v, c.skip, want, D.steps, D.th.block_size)


CHECKS = [check_adjust_skip, check_classes]
