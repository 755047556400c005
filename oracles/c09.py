"""C09: self intermediate scattering function"""

import math
import numpy as np
from .lib import *


def times_for(r, D):
    T = D.steps[-1] - D.steps[0]
    n = r.randint(1, 5)
    t = sorted(set(int(x) for x in r.randint(1, T + 1, n)))
    if r.rand() < 0.5:
        t = [0] + t
    return [float(x) * D.timestep for x in t]


def norigins_for(r):
    return [None, -1, -1, -1, 2, 3, 0.5, '1', 1, '2', '-1'][r.randint(11)]


def half_way(D, times):
    return any(abs((t / D.timestep) % 1 - 0.5) < 1e-6 for t in times)


def pick_sp(r, D, species):
    if len(species) == 1 or r.rand() < 0.3:
        return None
    sp = species[r.randint(len(species))]
    return None if len(D.sel(0, sp)) in (0, D.d) else sp


def set_vectors(r, c, k0, d):
    """Assign wave-vectors by hand (positive, negative, null components)"""
    m = 3
    c.kvectors = [[list(r.randint(-m, m + 1, d) * k0) for j in range(r.randint(1, 4))] for g in range(r.randint(1, 3))]


def cm_of(D, f):
    return (D.mass[f][:, None] * D.unf[f]).sum(0) / D.mass[f].sum()


def check_values(params, cls_name, big=False):
    import atooms.postprocessing as pp
    from atooms.postprocessing.helpers import filter_species
    r = rng(params)
    species = ('A', 'B') if r.rand() < 0.6 else ('A',)
    kw = {'n': int(r.randint(18, 70))} if big else {}
    if big:
        kw['steps'], kw['block'] = [0, 2, 3, 7], 1
    D = Data(r, species=species, **kw)
    sp = pick_sp(r, D, species)
    t = times_for(r, D)
    no = norigins_for(r)
    fix = bool(r.rand() < 0.25)
    norm = bool(r.rand() < 0.7)
    k0 = 2 * math.pi / D.side[0]
    kg = sorted(float(x) for x in r.uniform(min(k0), 2.5 * min(k0), r.randint(1, 3)))
    mb = [64.0, 1e-3, 1e-4, 1e-6][r.randint(4)]
    assign = bool(r.rand() < 0.3)
    describe(cls=cls_name, d=D.d, n=D.n[0], steps=D.steps, sp=sp, norigins=no, times=t, fix_cm=fix, normalize=norm, kgrid=kg,
             side=D.side[0].tolist(), lookup_mb=mb, assign=assign)
    nk = int(r.choice([1, 4, 8]))
    t_in, kg_in = list(t), list(kg)
    c = getattr(pp, cls_name)(D.th, kg_in, t_in, nk=nk, dk=0.4, norigins=no, fix_cm=fix, normalize=norm, lookup_mb=mb)
    if sp is not None:
        c.add_filter(filter_species, sp)
    if assign:
        set_vectors(r, c, k0, D.d)
    c.compute()
    kv = [[np.array(v) for v in g] for g in c.kvectors]
    x = [(D.unf[f] - (cm_of(D, f) if fix else 0))[D.sel(f, sp)] for f in range(D.F)]
    tt = list(t)
    if norm and tt[0] > 0:
        tt = [0.0] + tt
    grid = t_grid(D.steps, D.th.block_size, D.timestep, tt, str(no) != '1')
    skip = skip_of(no, D.F, D.th.block_size, D.n[0])
    out = []
    for g in kv:
        ts, v, _ = averages(grid, skip, D.steps, lambda b, a: np.mean([np.cos((x[b] - x[a]) @ k).mean() for k in g]))
        out.append(v)
    return first(
        tag(close(c.grid[0], [np.mean([np.linalg.norm(k) for k in g]) for g in kv]), 'wave-numbers'),
        tag(close(c.grid[1], [s * D.timestep for s in ts]), 'times'),
        tag(close(c.value, out, 1e-7, 1e-8), cls_name + ' values'),
        'value larger than one' if np.abs(np.array(c.value)).max() > 1 + 1e-9 else None,
        'not one at zero time' if ts[0] == 0 and abs(np.array(c.value)[:, 0] - 1).max() > 1e-9 else None)


def check_legacy(params):
    return check_values(params, 'SelfIntermediateScatteringLegacy')


def check_fast(params):
    return check_values(params, 'SelfIntermediateScatteringFast')


def check_blocks_legacy(params):
    return check_values(params, 'SelfIntermediateScatteringLegacy', True)


def check_blocks_fast(params):
    return check_values(params, 'SelfIntermediateScatteringFast', True)


CHECKS = [check_legacy, check_fast, check_blocks_legacy, check_blocks_fast]
