"""C02: two-time observables"""

import numpy as np
from .lib import *


def pick_norigins(r):
    return [None, None, -1, -1, 1, 2, 3, 0.5, '1', '2', '-1', '0.5'][r.randint(12)]


def pick_times(r, D, frac=1.0):
    """A time grid given by the user, or None"""
    T = D.steps[-1] - D.steps[0]
    k = r.randint(4)
    if k == 0:
        return None
    n = r.randint(1, 8)
    t = sorted(r.uniform(0, T * 1.05, n)) if k == 1 else sorted(int(x) for x in r.randint(0, T + 1, n))
    if r.rand() < 0.7:
        t = [0.0] + list(t)
    return [float(x) * D.timestep for x in t]


def setup(r, **kw):
    species = ('A', 'B') if r.rand() < 0.5 else ('A',)
    D = Data(r, species=species, **kw)
    sp = None
    if len(species) > 1 and r.rand() < 0.7:
        sp = species[r.randint(2)]
        if len(D.sel(0, sp)) in (0, D.d):
            sp = None
    return D, sp


def result(c, sp):
    from atooms.postprocessing.helpers import filter_species
    if sp is not None:
        c.add_filter(filter_species, sp)
    c.compute()
    return c


def expect(D, c, times, offset, no, sp, f, what):
    """Compare grid and value of c with the averages of f(later frame, earlier frame)"""
    if any(abs((t / D.timestep) % 1 - 0.5) < 1e-6 for t in times):
        return None     # half way between two steps: depends on rounding errors
    grid = t_grid(D.steps, D.th.block_size, D.timestep, times, offset)
    skip = skip_of(no, D.F, D.th.block_size, D.n[0])
    ts, v, _ = averages(grid, skip, D.steps, f)
    return first(tag(close(c.grid, [t * D.timestep for t in ts]), what + ' times'), tag(close(c.value, v), what + ' values'))


def linear(n, t):
    return [t * i / (n - 1) for i in range(n)]


def check_msd(params):
    import atooms.postprocessing as pp
    r = rng(params)
    D, sp = setup(r)
    no, t = pick_norigins(r), pick_times(r, D)
    fix, nooff = bool(r.rand() < 0.3), bool(r.rand() < 0.2)
    ts = int(r.choice([30, 5, 12]))
    describe(steps=D.steps, sp=sp, norigins=no, times=t, fix_cm=fix, no_offset=nooff, n=D.n[0])
    c = result(pp.MeanSquareDisplacement(D.th, None if t is None else list(t), norigins=no, fix_cm=fix, no_offset=nooff, tsamples=ts), sp)
    x = []
    for f in range(D.F):
        cm = (D.mass[f][:, None] * D.unf[f]).sum(0) / D.mass[f].sum() if fix else 0
        x.append((D.unf[f] - cm)[D.sel(f, sp)])
    if t is None:
        t = linear(ts, D.th.total_time)
    return expect(D, c, t, no != '1' and not nooff, no, sp, lambda b, a: np.mean(np.sum((x[b] - x[a])**2, axis=1)), 'msd')


def check_vacf(params):
    import atooms.postprocessing as pp
    r = rng(params)
    D, sp = setup(r)
    no, t = pick_norigins(r), pick_times(r, D)
    ts = int(r.choice([30, 5, 12]))
    describe(steps=D.steps, sp=sp, norigins=no, times=t, n=D.n[0])
    c = result(pp.VelocityAutocorrelation(D.th, None if t is None else list(t), norigins=no, tsamples=ts), sp)
    v = [D.vel[f][D.sel(f, sp)] for f in range(D.F)]
    if t is None:
        t = linear(ts, D.th.total_time * 0.1)
    return expect(D, c, t, no != '1', no, sp, lambda b, a: np.mean(np.sum(v[b] * v[a], axis=1)), 'vacf')


def check_alpha2(params):
    import atooms.postprocessing as pp
    r = rng(params)
    D, sp = setup(r)
    no, t = pick_norigins(r), pick_times(r, D)
    ts = int(r.choice([30, 5, 12]))
    describe(steps=D.steps, sp=sp, norigins=no, times=t, n=D.n[0])
    c = result(pp.NonGaussianParameter(D.th, None if t is None else list(t), norigins=no, nsamples=ts), sp)
    x = [D.unf[f][D.sel(f, sp)] for f in range(D.F)]
    d = D.d

    def f(b, a):
        if a == b:
            return 0.0
        r2 = np.sum((x[b] - x[a])**2, axis=1)
        return d * np.mean(r2**2) / ((d + 2) * np.mean(r2)**2) - 1
    if t is None:
        t = linear(ts, D.th.total_time * 0.75)
    return expect(D, c, t, no != '1', no, sp, f, 'alpha2')


def check_qst(params):
    import atooms.postprocessing as pp
    r = rng(params)
    D, sp = setup(r)
    no, t = pick_norigins(r), pick_times(r, D)
    t = t or [0.0, D.timestep * (D.steps[1] - D.steps[0]), D.th.total_time / 2]
    a = float(r.choice([0.3, 1.0, 2.0])) * D.side[0].min() / 6
    describe(steps=D.steps, sp=sp, norigins=no, times=t, n=D.n[0], a=a)
    c = result(pp.SelfOverlap(D.th, list(t), norigins=no, a=a), sp)
    x = [D.unf[f][D.sel(f, sp)] for f in range(D.F)]
    return expect(D, c, t, no != '1', no, sp, lambda b, s: np.mean(np.sqrt(np.sum((x[b] - x[s])**2, axis=1)) < a), 'qst')


def check_qt(params):
    import atooms.postprocessing as pp
    r = rng(params)
    D, sp = setup(r)
    no, t = pick_norigins(r), pick_times(r, D)
    t = t or [0.0, D.timestep * (D.steps[1] - D.steps[0]), D.th.total_time / 2]
    a = float(r.choice([0.3, 1.0, 2.0])) * D.side[0].min() / 4
    describe(steps=D.steps, sp=sp, norigins=no, times=t, n=D.n[0], a=a)
    c = result(pp.CollectiveOverlap(D.th, list(t), norigins=no, a=a), sp)
    x = [D.pos[f][D.sel(f, sp)] for f in range(D.F)]

    def f(b, s):
        dd = np.sqrt(((x[b][:, None, :] - x[s][None, :, :])**2).sum(-1))
        return (dd < a).sum() / float(len(x[b]))
    return expect(D, c, t, no != '1', no, sp, f, 'qt')


CHECKS = [check_msd, check_vacf, check_alpha2, check_qst, check_qt]
