"""C06: crossings, extrema, fits, analyses"""

import math
import numpy as np
from .lib import *


def curve(r, n=None):
    n = n or int(r.randint(1, 14))
    x = np.cumsum(r.uniform(0.1, 1.0, n)) + r.uniform(-2, 2)
    k = r.randint(4)
    if k == 0:
        f = np.exp(-x / 2) + 0.05 * r.randn(n)
    elif k == 1:
        f = r.randn(n)
    elif k == 2:
        f = r.randint(-2, 3, n).astype(float)
    else:
        f = np.sort(r.uniform(-1, 3, n))
    return [float(v) for v in x], [float(v) for v in f]


def crossing(x, f, star):
    s = f[0] - star
    for i in range(min(len(x), len(f))):
        if (f[i] - star) * s < 0:
            w = (star - f[i - 1]) / (f[i] - f[i - 1])
            return x[i - 1] + w * (x[i] - x[i - 1]), i
    return None, None


def compare(got, want):
    if (got is None) != (want is None):
        return '%r instead of %r' % (got, want)
    return None if got is None else close(got, want, 1e-8)


def check_feqc(params):
    from atooms.postprocessing.helpers import feqc
    r = rng(params)
    for k in range(30):
        x, f = curve(r)
        star = float(r.choice([0.0, 1 / math.e, f[0] / math.e, r.uniform(-1, 2), f[r.randint(len(f))]]))
        if r.rand() < 0.2:
            x = x + [x[-1] + 1]
        describe(x=x, f=f, star=star)
        got = feqc(x, f, star)
        want = crossing(x, f, star)
        m = first(compare(got[0], want[0]), None if got[1] == want[1] else 'index %r instead of %r' % (got[1], want[1]))
        if m:
            return 'feqc(%s, %s, %s): %s' % (x, f, star, m)


def vertex(x, f, i):
    if i == 0 or i == len(f) - 1:
        return x[i], f[i]
    m = np.array([[x[j]**2, x[j], 1] for j in (i - 1, i, i + 1)])
    a, b, c = np.linalg.solve(m, [f[j] for j in (i - 1, i, i + 1)])
    return -b / (2 * a), c - b * b / (4 * a)


def check_ifabsmm(params):
    from atooms.postprocessing.helpers import ifabsmm
    r = rng(params)
    for k in range(30):
        x, f = curve(r)
        describe(x=x, f=f)
        want = []
        flat = False
        for i in (f.index(min(f)), f.index(max(f))):
            if 0 < i < len(f) - 1 and f[i - 1] == f[i] == f[i + 1]:
                flat = True
        if flat:
            continue
        want = [vertex(x, f, f.index(min(f))), vertex(x, f, f.index(max(f)))]
        got = ifabsmm(x, f) if r.rand() < 0.5 else ifabsmm(np.array(x), np.array(f))
        m = close([list(g) for g in got], want, 1e-6, 1e-7)
        if m:
            return 'ifabsmm(%s, %s): %s' % (x, f, m)


def check_linear_fit(params):
    from atooms.postprocessing.helpers import linear_fit
    r = rng(params)
    for k in range(20):
        n = int(r.randint(2, 20))
        x = np.cumsum(r.uniform(0.1, 1.0, n)) + r.uniform(-2, 2)
        f = r.uniform(-2, 2) * x + r.uniform(-2, 2) + r.uniform(0.1, 1) * r.randn(n)
        describe(x=x.tolist(), f=f.tolist())
        x0, f0 = x.copy(), f.copy()
        if n == 2:
            f = f + 0.0
        try:
            got = linear_fit(x, f)
        except ValueError:
            if n > 2:
                raise
            continue
        p = np.polyfit(x0 - x0.mean(), f0, 1)
        m = close(got[:2], [p[0], p[1] - p[0] * x0.mean()], 1e-6, 1e-7)
        if m:
            return 'linear_fit(%s, %s): %s' % (x.tolist(), f.tolist(), m)
        res = f0 - np.polyval([got[0], got[1]], x0)
        sxx = np.sum((x0 - x0.mean())**2)
        s = np.sum(res**2) / (n - 2) if n > 2 else 0.0
        m = close(got[2:], [np.sqrt(s / sxx), np.sqrt(s / sxx * np.mean(x0**2))], 1e-5, 1e-6)
        if m:
            return 'linear_fit(%s, %s), standard errors: %s' % (x.tolist(), f.tolist(), m)
        if not (np.array_equal(x, x0) and np.array_equal(f, f0)):
            return 'linear_fit modifies its arguments'


def objects(r, cls, *args, **kw):
    D = Data(r, steps=list(range(4)), block=1, n=6)
    return D, cls(D.th, [0.0], *args, **kw)


def check_msd_analyze(params):
    import atooms.postprocessing as pp
    r = rng(params)
    sigma = float(r.choice([1.0, 0.5, 2.0]))
    D, c = objects(r, pp.MeanSquareDisplacement, sigma=sigma)
    n = int(r.randint(2, 12))
    x = np.concatenate([[0], np.cumsum(r.uniform(0.1, 1, n - 1))])
    f = np.abs(x * r.uniform(0.2, 3) + 0.1 * r.randn(n)) * sigma
    f[0] = 0
    if r.rand() < 0.2:
        f = f * 1e-3
    c.grid, c.value = [float(v) for v in x], [float(v) for v in f]
    describe(x=c.grid, f=c.value, sigma=sigma)
    up = f > sigma**2
    try:
        c.analyze()
    except ValueError:
        if up.sum() > 2:
            raise
        return None
    tau = crossing(c.grid, c.value, sigma**2)[0]
    got = [c.analysis.get('diffusive time tau_D'), c.analysis.get('diffusion coefficient D')]
    want = [tau, None]
    if up.sum() >= 2:
        want[1] = np.polyfit(x[up], f[up], 1)[0] / (2 * D.d)
    return first(tag(compare(got[0], want[0]), 'diffusive time'), None if got[1] is None and want[1] is None else
                 tag(close(got[1], want[1], 1e-6, 1e-7) if got[1] is not None and want[1] is not None else '%r instead of %r' % (got[1], want[1]), 'diffusion coefficient'))


def check_tau(params):
    import atooms.postprocessing as pp
    r = rng(params)
    cls = [pp.SelfIntermediateScattering, pp.IntermediateScattering, pp.SelfIntermediateScatteringLegacy][r.randint(3)]
    D = Data(r, steps=list(range(4)), block=1, n=6)
    c = cls(D.th, [7.0], [0.0, D.timestep])
    nk, nt = int(r.randint(1, 4)), int(r.randint(2, 10))
    t = [0.0] + [float(v) for v in np.cumsum(r.uniform(0.1, 1, nt - 1))]
    k = [float(v) for v in np.cumsum(r.uniform(0.5, 2, nk))]
    v = [[float(q) for q in r.uniform(0.3, 3) * (np.exp(-np.array(t) * r.uniform(0, 2)) + 0.02 * r.randn(nt))] for _ in k]
    c.grid, c.value = [list(k), list(t)], [list(q) for q in v]
    describe(t=t, k=k, v=v)
    c.analyze()
    db = c.analysis['relaxation times tau']
    if sorted(db) != sorted(k):
        return 'wave-numbers %s instead of %s' % (sorted(db), k)
    for i, q in enumerate(k):
        m = compare(db[q], crossing(t, v[i], v[i][0] / math.e)[0])
        if m:
            return 'tau(%s): %s' % (q, m)


def check_overlap(params):
    import atooms.postprocessing as pp
    r = rng(params)
    x, f = curve(r, int(r.randint(3, 12)))
    describe(x=x, f=f)
    D, c = objects(r, pp.SelfOverlap)
    c.grid, c.value = list(x), list(f)
    c.analyze()
    m = compare(c.analysis['tau'], crossing(x, f, 1 / math.e)[0])
    if m:
        return 'tau of the self overlap: ' + m
    i = f.index(max(f))
    if 0 < i < len(f) - 1 and f[i - 1] == f[i] == f[i + 1]:
        return None
    for cls, keys in ((pp.NonGaussianParameter, ('t_star', 'a2_star')), (pp.Chi4SelfOverlap, ('peak time tau_star', 'peak height chi4_star'))):
        D, c = objects(r, cls)
        c.grid, c.value = list(x), list(f)
        c.analyze()
        j = f.index(min(f))
        if 0 < j < len(f) - 1 and f[j - 1] == f[j] == f[j + 1]:
            continue
        m = close([c.analysis[q] for q in keys], vertex(x, f, i), 1e-6, 1e-7)
        if m:
            return 'peak of %s: %s' % (cls.__name__, m)


CHECKS = [check_feqc, check_ifabsmm, check_linear_fit, check_msd_analyze, check_tau, check_overlap]
