"""C01: averages over the admissible pairs"""

import numpy as np
from .lib import *


def case(r):
    F = r.randint(1, 14)
    kind = r.choice(['lin', 'irr', 'log', 'dup', 'float'])
    if kind == 'lin':
        t = [3 * k for k in range(F)]
    elif kind == 'irr':
        t = [int(x) for x in np.cumsum(r.randint(1, 6, F))]
    elif kind == 'log':
        t = [int(8 * (k // 4) + [0, 1, 2, 4][k % 4]) for k in range(F)]
    elif kind == 'dup':
        t = [int(x) for x in np.cumsum(r.randint(0, 3, F))]
    else:
        t = [0.25 * int(x) for x in np.cumsum(r.randint(1, 5, F))]
    skip = int(r.choice([1, 1, 2, 3, 4, F, F + 2]))
    sep = [int(x) for x in r.randint(0, F + 1, r.randint(1, 6))]
    if r.rand() < 0.6:
        sep = sorted(set(sep))
    off = [int(x) for x in r.randint(0, max(1, min(F, 5)), len(sep))]
    describe(F=F, t=t, skip=skip, sep=sep, off=off)
    return F, t, skip, sep, off


def same(got, ts, vals):
    return first(None if list(got[0]) == list(ts) else 'times %s instead of %s' % (list(got[0]), list(ts)),
                 tag(close(got[1], vals), 'values'))


def check_acf(params):
    from atooms.postprocessing.correlation import acf
    r = rng(params)
    F, t, skip, sep, _ = case(r)
    x = r.randn(F) + 2
    x = list(x) if r.rand() < 0.5 else x
    m = sum(x) / len(x)
    ts, v, n = averages([(0, i) for i in sep], skip, t, lambda a, b: (x[a] - m) * (x[b] - m))
    got = acf(sep, skip, t, x)
    return first(same(got, ts, v), None if dict(got[2]) == n else 'counts %s instead of %s' % (dict(got[2]), n))


def check_gcf(params):
    from atooms.postprocessing.correlation import gcf
    r = rng(params)
    F, t, skip, sep, _ = case(r)
    x = [r.randn(3, 2) for k in range(F)]
    f = lambda a, b: float(np.sum(a * 2 - b**2 * a[0, 0]))
    ts, v, n = averages([(0, i) for i in sep], skip, t, lambda a, b: f(x[a], x[b]))
    got = gcf(f, sep, skip, t, x)
    return first(same(got, ts, v), None if list(got[2]) == [n[u] for u in ts] else 'counts')


def check_gcf_offset(params):
    from atooms.postprocessing.correlation import gcf_offset
    r = rng(params)
    F, t, skip, sep, off = case(r)
    x = [r.randn(3, 2) for k in range(F)]
    if r.rand() < 0.3:
        x = np.array(x)
    calls = []

    def f(a, b):
        return float(np.sum(a * 2 - b**2 * a[0, 0]))
    grid = list(zip(off, sep))
    ts, v, n = averages(grid, skip, t, lambda a, b: f(x[a], x[b]))
    got = gcf_offset(f, grid, skip, t, x)
    return same(got, ts, v)


CHECKS = [check_acf, check_gcf, check_gcf_offset]
