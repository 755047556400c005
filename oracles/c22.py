"""C22: inputs are not modified, computing again gives the same result"""

import numpy as np
from .lib import *


def cases(r, D):
    import atooms.postprocessing as pp
    k0 = float(2 * np.pi / min(D.side[0]))
    av = sorted({D.steps[i] - D.steps[0] for i in range(D.F)})
    T = sorted({0.0} | {float(av[i]) * D.timestep for i in r.choice(len(av), min(3, len(av)), replace=False)})
    if r.rand() < 0.4 and len(T) > 1:
        T = T[1:]
    K = sorted(float(x) for x in r.uniform(k0, 2 * k0, r.randint(1, 3)))
    kk = {'nk': int(r.choice([1, 3, 20])), 'dk': float(r.choice([0.2, 0.6]))}
    no = [-1, 2, None, 0.5][r.randint(4)]
    fix = bool(r.rand() < 0.3)
    out = [
        (pp.MeanSquareDisplacement, {'tgrid': T, 'norigins': no, 'fix_cm': fix}),
        (pp.VelocityAutocorrelation, {'tgrid': T, 'norigins': no}),
        (pp.NonGaussianParameter, {'tgrid': T, 'norigins': no}),
        (pp.SelfOverlap, {'tgrid': T, 'norigins': no, 'a': 0.4}),
        (pp.CollectiveOverlap, {'tgrid': T, 'norigins': no, 'a': 0.4}),
        (pp.Chi4SelfOverlap, {'tgrid': T, 'norigins': no, 'a': 0.4}),
        (pp.Chi4SelfOverlapOptimized, {'tgrid': T, 'norigins': no, 'a': 0.4}),
        (pp.IntermediateScattering, dict(kk, kgrid=K, tgrid=T, norigins=no, fix_cm=fix)),
        (pp.SelfIntermediateScatteringLegacy, dict(kk, kgrid=K, tgrid=T, norigins=no, fix_cm=fix)),
        (pp.SelfIntermediateScatteringFast, dict(kk, kgrid=K, tgrid=T, norigins=no, fix_cm=fix)),
        (pp.StructureFactorLegacy, dict(kk, kgrid=K, norigins=no)),
        (pp.StructureFactorFast, dict(kk, kgrid=K, norigins=no)),
        (pp.RadialDistributionFunctionLegacy, {'dr': 0.25, 'norigins': no}),
        (pp.RadialDistributionFunctionFast, {'dr': 0.25, 'norigins': no}),
    ]
    if D.d == 3:
        out.append((pp.BondAngleDistribution, {'dtheta': 20.0, 'norigins': no, 'rcut': [[1.5] * D.n_species] * D.n_species}))
    # defaults for the grids
    u = r.rand()
    if u < 0.25:
        for _, k in out:
            k.pop('tgrid', None)
    return out


def copy_args(kw):
    return {k: (list(v) if isinstance(v, list) and k != 'rcut' else v) for k, v in kw.items()}


def result(c):
    g = c.grid
    if len(g) and np.ndim(g[0]) == 1:
        return [np.array(x, dtype=float) for x in g] + [np.array(c.value, dtype=float)]
    return [np.array(g, dtype=float), np.array(c.value, dtype=float)]


def same(a, b, rtol=1e-9):
    if len(a) != len(b):
        return 'other grids'
    for x, y in zip(a, b):
        m = close(x, y, rtol, 1e-9)
        if m:
            return m


def check_again(params):
    from atooms.postprocessing.helpers import filter_species
    r = rng(params)
    D = Data(r, species=('A', 'B'), nmin=8, nmax=12, cellvar=bool(r.rand() < 0.15))
    if any(len(D.sel(f, s)) in (0, D.d) for f in range(D.F) for s in 'AB'):
        return None
    lst = cases(r, D)
    cls, kw = lst[params.get('round', 0) % len(lst)]
    two = cls.nbodies == 2
    nf = int(r.randint(0, cls.nbodies + 1))
    weight = 'StructureFactor' in cls.__name__ and r.rand() < 0.4
    describe(cls=cls.__name__, kw=kw, filters=nf, n=D.n, d=D.d, steps=D.steps, weight=bool(weight))
    if weight:
        for f in range(D.F):
            for p in D.th._system[f].particle:
                p.charge = float(r.randn())
    unf, D.th.cache = bool(r.rand() < 0.3), bool(r.rand() < 0.4)
    if unf:
        for f in range(D.F):
            for i, p in enumerate(D.th._system[f].particle):
                p.position_unfolded = D.unf[f][i].copy()
    describe(cls=cls.__name__, kw=kw, filters=nf, n=D.n, d=D.d, steps=D.steps, weight=bool(weight), unfolded=unf, cache=D.th.cache)
    args = copy_args(kw)

    def new():
        c = cls(D.th, **args)
        for s in ['A', 'B'][:nf]:
            c.add_filter(filter_species, s)
        if weight:
            c.add_weight(field='charge', fluctuations=True)
        return c
    before = D.snapshot()
    c = new()
    c.compute()
    one = result(c)
    m = same_snapshot(before, D.snapshot())
    if m:
        return '%s: %s' % (cls.__name__, m)
    for k, v in kw.items():
        if isinstance(v, list) and not np.array_equal(args[k], v):
            return '%s: the list %s given by the user changed from %s to %s' % (cls.__name__, k, v, args[k])
    # other computations in between must not matter
    if r.rand() < 0.5:
        other, okw = lst[r.randint(len(lst))]
        other(D.th, **copy_args(okw)).compute()
    np.random.seed(int(r.randint(1000)))
    import random
    random.seed(int(r.randint(1000)))
    c2 = new()
    c2.compute()
    m = same(result(c2), one)
    if m:
        return '%s: another object gives different results: %s' % (cls.__name__, m)
    c.compute()
    # with irregular frames the elapsed times of one entry of the time grid differ, and the times reported by the
    # first computation are the ones requested to the second
    m = same(result(c), one) if D.kind != 'irregular' else None
    if m:
        return '%s: computing again gives different results: %s' % (cls.__name__, m)
    m = same_snapshot(before, D.snapshot())
    if m:
        return '%s: %s' % (cls.__name__, m)


def check_kernels(params):
    """Inputs of the compiled kernels"""
    r = rng(params)
    from atooms.postprocessing import realspace_wrap as rs
    mod = attr(rs, 'compute')
    d = int(r.choice([2, 3]))
    n, m = int(r.randint(3, 9)), int(r.randint(3, 9))
    L = r.uniform(2, 4, d)
    x = np.asfortranarray((r.rand(d, n) - 0.5) * L[:, None])
    y = np.asfortranarray((r.rand(d, m) - 0.5) * L[:, None])
    z = np.asfortranarray(x + 0.3 * r.randn(d, n))
    keep = [a.copy() for a in (x, y, z, L)]
    ids0, ids1 = np.ones(n, dtype=np.int32), np.ones(m, dtype=np.int32)
    describe(d=d, n=n, m=m)
    calls = [('gr_self', lambda f: f('C', x, L, 0.2, np.zeros(8, dtype=np.int64), np.zeros(8))),
             ('self_overlap', lambda f: f(x, z, np.array(0.2))),
             ('self_overlap', lambda f: f(x, z, 0.2)),
             ]
    done = 0
    for name, call in calls:
        f = getattr(mod, name, None)
        if f is None:
            continue
        try:
            call(f)
        except Exception:
            continue
        done += 1
        for a, b, w in zip((x, y, z, L), keep, ('positions', 'other positions', 'displaced positions', 'sides')):
            if not np.array_equal(a, b):
                return '%s modified the %s' % (name, w)


CHECKS = [check_again, check_kernels]
