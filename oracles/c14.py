"""C14: bond-angle distribution"""

import math
import numpy as np
from .lib import *


def min_image(dx, L):
    return dx - np.rint(dx / L) * L


def check_values(params):
    import atooms.postprocessing as pp
    from atooms.postprocessing.helpers import filter_species
    r = rng(params)
    species = [('A',), ('A', 'B'), ('C', 'A', 'B')][r.randint(3)]
    mode = 'all' if len(species) == 1 else ['all', 'one', 'two', 'two', 'rev'][r.randint(5)]
    D = Data(r, species=species, nmin=9, nmax=20, kind=['linear', 'irregular'][r.randint(2)], walk=False)
    ids = sorted(set(D.spe[0]))
    a = {'all': None, 'one': 'A', 'two': 'A', 'rev': 'B'}[mode]
    b = {'all': None, 'one': 'A', 'two': 'B', 'rev': 'A'}[mode]
    sel0 = [D.sel(f, a) for f in range(D.F)]
    sel1 = [D.sel(f, b) for f in range(D.F)]
    for f in range(D.F):
        if len(sel0[f]) in (0, D.d) or len(sel1[f]) in (0, D.d):
            return None
    dth = [4.0, 5, 7.0, 30, 13.0, 50.0][r.randint(6)]
    rc = r.uniform(0.3, 0.5, (len(ids), len(ids))) * min(D.side[0])
    no = [None, -1, 2, 1, 0.5][r.randint(5)]
    aslist = bool(r.rand() < 0.5)
    describe(d=D.d, n=D.n[0], species=species, mode=mode, dtheta=dth, rcut=rc.tolist(), norigins=no, side=D.side[0].tolist())
    c = pp.BondAngleDistribution(D.th, norigins=no, dtheta=dth, rcut=rc.tolist() if aslist else rc.copy())
    if a is not None:
        c.add_filter(filter_species, a)
    if mode in ('two', 'rev'):
        c.add_filter(filter_species, b)
    c.compute()
    nb = int(180 / float(dth)) + 1
    hist = np.zeros(nb)
    for f in range(0, D.F, skip_of(no, D.F, D.th.block_size, D.n[0])):
        L = D.side[f]
        for i in sel0[f]:
            v = []
            for j in sel1[f]:
                w = min_image(D.pos[f][j] - D.pos[f][i], L)
                q = math.sqrt((w * w).sum())
                cut = rc[ids.index(D.spe[f][i]), ids.index(D.spe[f][j])]
                if abs(q - cut) < 1e-9:
                    return None
                if 0 < q < cut:
                    v.append(w / q)
            for s in range(len(v)):
                for t in range(len(v)):
                    if s != t:
                        th = math.degrees(math.acos(max(-1., min(1., (v[s] * v[t]).sum())))) / dth
                        if abs(th - round(th)) < 1e-6:
                            return None
                        hist[int(math.floor(th))] += 1
    hist = hist[:-1]
    if hist.sum() == 0:
        return None
    return first(tag(close(c.grid, dth * (np.arange(nb - 1) + 0.5)), 'grid'),
                 tag(close(c.value, hist / hist.sum() / dth), 'values'),
                 tag(close(np.sum(c.value) * dth, 1.0), 'normalization'))


CHECKS = [check_values]
