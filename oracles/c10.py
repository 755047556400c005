"""C10: coherent intermediate scattering function"""

import math
import numpy as np
from .lib import *
from .c09 import times_for, norigins_for, set_vectors, cm_of


def check_values(params):
    import atooms.postprocessing as pp
    from atooms.postprocessing.helpers import filter_species
    r = rng(params)
    mode = ['all', 'one', 'two', 'same'][r.randint(4)]
    nvar = bool(r.rand() < 0.25)
    D = Data(r, species=('A', 'B'), nvar=nvar, nmin=7, nmax=14)
    a = None if mode == 'all' else 'A'
    b = {'all': None, 'one': 'A', 'two': 'B', 'same': 'A'}[mode]
    sel0 = [D.sel(f, a) for f in range(D.F)]
    sel1 = [D.sel(f, b) for f in range(D.F)]
    for f in range(D.F):
        if len(sel0[f]) in (0, D.d) or len(sel1[f]) in (0, D.d):
            return None
    t = times_for(r, D)
    no = norigins_for(r)
    fix = bool(r.rand() < 0.25) and not nvar
    norm = bool(r.rand() < 0.6)
    k0 = 2 * math.pi / D.side[0]
    kg = sorted(float(x) for x in r.uniform(min(k0), 2.5 * min(k0), r.randint(1, 3)))
    assign = bool(r.rand() < 0.3)
    nk = int(r.choice([1, 4, 100]))
    describe(d=D.d, n=D.n, steps=D.steps, mode=mode, norigins=no, times=t, fix_cm=fix, normalize=norm, kgrid=kg, assign=assign)
    c = pp.IntermediateScattering(D.th, list(kg), list(t), nk=nk, dk=0.4, norigins=no, fix_cm=fix, normalize=norm)
    if a is not None:
        c.add_filter(filter_species, a)
    if mode in ('two', 'same'):
        c.add_filter(filter_species, b)
    if assign:
        set_vectors(r, c, k0, D.d)
    c.compute()
    kv = [[np.array(v) for v in g] for g in c.kvectors]
    # folding and the wave-vectors of the cell make a shift by a vector of the lattice irrelevant; with a fixed
    # center of mass the positions are shifted by half a cell, a common phase
    x = [D.unf[f] - (cm_of(D, f) if fix else 0) for f in range(D.F)]
    tt = list(t)
    if norm and tt[0] > 0:
        tt = [0.0] + tt
    grid = t_grid(D.steps, D.th.block_size, D.timestep, tt, str(no) != '1')
    skip = skip_of(no, D.F, D.th.block_size, D.n[0])
    raw = []
    for g in kv:
        def f(later, earlier):
            v = []
            for k in g:
                r0 = np.exp(1j * (x[later][sel0[later]] @ k)).sum()
                r1 = np.exp(1j * (x[earlier][sel1[earlier]] @ k)).sum()
                v.append((r0 * np.conj(r1)).real)
            return np.mean(v)
        ts, v, _ = averages(grid, skip, D.steps, f)
        raw.append(v)
    raw = np.array(raw)
    if norm and (np.abs(raw[:, 0]) < 1e-3).any():
        return None
    val = raw / raw[:, :1] if norm else raw
    return first(
        tag(close(c.grid[0], [np.mean([np.linalg.norm(k) for k in g]) for g in kv]), 'wave-numbers'),
        tag(close(c.grid[1], [s * D.timestep for s in ts]), 'times'),
        tag(close(c.value_nonorm, raw, 1e-6, 1e-7), 'non-normalized values'),
        tag(close(c.value, val, 1e-5, 1e-6), 'values'))


CHECKS = [check_values]
