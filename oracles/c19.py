"""C19: dynamic susceptibility"""

import numpy as np
from .lib import *
from .c09 import norigins_for, pick_sp


def go(params, cls_name):
    import atooms.postprocessing as pp
    from atooms.postprocessing.helpers import filter_species
    r = rng(params)
    species = ('A', 'B') if r.rand() < 0.5 else ('A',)
    D = Data(r, species=species, stepsize=float(r.choice([0.03, 0.1])))
    sp = pick_sp(r, D, species)
    T = D.steps[-1] - D.steps[0]
    default = bool(r.rand() < 0.15)
    t = sorted(int(x) for x in r.randint(0, T + 1, r.randint(1, 7)))
    t = [float(x) * D.timestep for x in t]
    no = norigins_for(r)
    if no is None:
        no = -1
    a = float(r.uniform(0.05, 0.5))
    describe(cls=cls_name, d=D.d, n=D.n[0], steps=D.steps, sp=sp, norigins=no, times=t, a=a, default=default)
    kw = {}
    if default:
        kw['tsamples'] = int(r.randint(3, 9))
    c = getattr(pp, cls_name)(D.th, None if default else list(t), norigins=no, a=a, **kw)
    if default:
        n, T = kw['tsamples'], D.th.total_time * 0.75
        xx = T**(1.0 / n)
        t = [0.0] + [xx**(i + 1) - 1 for i in range(1, n)]
        if any(abs((x / D.timestep) % 1 - 0.5) < 1e-6 for x in t):
            return None
    if sp is not None:
        c.add_filter(filter_species, sp)
    c.compute()
    x = [D.unf[f][D.sel(f, sp)] for f in range(D.F)]
    grid = t_grid(D.steps, D.th.block_size, D.timestep, t, no != '1')
    skip = skip_of(no, D.F, D.th.block_size, D.n[0])
    times, chi, m1, m2 = [], [], [], []
    for off, i in grid:
        q = [float((((x[k + i] - x[k])**2).sum(1) < a**2).sum()) for k in origins(off, i, D.F, skip)]
        times.append((D.steps[off + i] - D.steps[off]) * D.timestep)
        A = np.mean(q) if q else 0.0
        A2 = np.mean(np.array(q)**2) if q else 0.0
        m1.append(A), m2.append(A2), chi.append((A2 - A * A) / len(x[0]))
    w = cls_name
    return first(tag(close(c.grid, times), w + ' times'), tag(close(c.value, chi), w + ' values'),
                 tag(close(c.average.value, m1), w + ' average'), tag(close(c.variance.value, m2), w + ' variance'),
                 tag(close(c.average.grid, times), w + ' average times'), tag(close(c.variance.grid, times), w + ' variance times'))


def check_chi4(params):
    return go(params, 'Chi4SelfOverlap')


def check_chi4_fast(params):
    return go(params, 'Chi4SelfOverlapOptimized')


CHECKS = [check_chi4, check_chi4_fast]
