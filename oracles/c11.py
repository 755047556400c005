"""C11: radial distribution function"""

import math
import numpy as np
from .lib import *


def min_image(dx, L):
    return dx - np.rint(dx / L) * L


def pair_distances(x, y, L, same):
    """distances of the unordered pairs of one group, or of all the pairs of two groups"""
    out = []
    for i in range(len(x)):
        o = y[i + 1:] if same else y
        if len(o):
            out.append(np.sqrt((min_image(o - x[i], L)**2).sum(1)))
    return np.concatenate(out) if out else np.zeros(0)


def spec(D, sel0, sel1, same, dr, frames, nbins):
    """g(r) of the first nbins bins, or None if rounding decides"""
    d = D.d
    counts = np.zeros(nbins)
    for f in frames:
        r = pair_distances(D.pos[f][sel0[f]], D.pos[f][sel1[f]], D.side[f], same)
        q = r / dr
        if (np.abs(q - np.rint(q)) < 1e-7).any():
            return None
        for b in np.floor(q).astype(int):
            if b < nbins:
                counts[b] += 1
    counts /= len(frames)
    edges = dr * np.arange(nbins + 1)
    shell = math.pi * (edges[1:]**2 - edges[:-1]**2) if d == 2 else 4 * math.pi / 3 * (edges[1:]**3 - edges[:-1]**3)
    n0, n1 = len(sel0[0]), len(sel1[0])
    norm = n0 * n1 / np.prod(D.side[0]) * shell
    if same:
        norm = norm / 2
    return counts / norm


def go(params, cls_name, linked):
    import atooms.postprocessing as pp
    from atooms.postprocessing.helpers import filter_species
    r = rng(params)
    mode = ['all', 'one', 'two', 'same'][r.randint(4)]
    d = int(r.choice([2, 3]))
    kw = {}
    if linked:
        kw = {'side': r.uniform(4, 7, d) if r.rand() < 0.7 else np.ones(d) * r.uniform(4, 6)}
    D = Data(r, d=d, species=('A', 'B'), nmin=8, nmax=30 if linked else 16, kind=['linear', 'irregular', 'log'][r.randint(3)],
             walk=False, **kw)
    a = None if mode == 'all' else 'A'
    b = {'all': None, 'one': 'A', 'two': 'B', 'same': 'A'}[mode]
    sel0 = [D.sel(f, a) for f in range(D.F)]
    sel1 = [D.sel(f, b) for f in range(D.F)]
    for f in range(D.F):
        if len(sel0[f]) in (0, d) or len(sel1[f]) in (0, d):
            return None
    dr = float(r.choice([0.04, 0.1, 0.3, 0.23]))
    if not linked and r.rand() < 0.1:
        dr = 0.0013
    rmax = -1.0
    if linked:
        rmax = float(min(D.side[0]) / r.uniform(3.6, 4.8))
    elif r.rand() < 0.4:
        rmax = float(r.uniform(0.3, 0.5) * min(D.side[0]))
    no = [None, -1, 2, 1, 0.5][r.randint(5)]
    describe(cls=cls_name, d=d, n=D.n[0], side=D.side[0].tolist(), mode=mode, dr=dr, rmax=rmax, norigins=no, steps=D.steps)
    c = getattr(pp, cls_name)(D.th, norigins=no, dr=dr, rmax=rmax)
    if a is not None:
        c.add_filter(filter_species, a)
    if mode in ('two', 'same'):
        c.add_filter(filter_species, b)
    c.compute()
    limit = rmax if rmax > 0 else min(D.side[0]) / 2
    nb = int(math.floor(limit / dr + 0.5))
    if abs(limit / dr + 0.5 - round(limit / dr + 0.5)) < 1e-7:
        return None
    same = mode in ('all', 'one')
    frames = list(range(0, D.F, skip_of(no, D.F, D.th.block_size, D.n[0])))
    g = spec(D, sel0, sel1, same, dr, frames, nb)
    if g is None:
        return None
    grid = dr * (np.arange(nb) + 0.5)
    val = np.array(c.value, dtype=float)
    m = tag(close(c.grid, grid), cls_name + ' grid')
    if m:
        return m
    return tag(close(val, g, 1e-9, 1e-9), cls_name + ' values')


def check_legacy(params):
    return go(params, 'RadialDistributionFunctionLegacy', False)


def check_fast(params):
    return go(params, 'RadialDistributionFunctionFast', False)


def check_linked(params):
    return go(params, 'RadialDistributionFunctionFast', True)


def check_grid(params):
    """a grid of distances given by the user"""
    import atooms.postprocessing as pp
    r = rng(params)
    d = int(r.choice([2, 3]))
    D = Data(r, d=d, species=('A',), nmin=8, nmax=14, kind='linear', walk=False)
    dr = float(r.choice([0.1, 0.3, 0.21]))
    n = int(r.randint(3, 12))
    describe(d=d, dr=dr, n=n)
    sel = [D.sel(f, None) for f in range(D.F)]
    for name in ('RadialDistributionFunctionLegacy',):
        c = getattr(pp, name)(D.th, rgrid=[dr / 2 + dr * i for i in range(n)], norigins=-1)
        c.compute()
        limit = min(D.side[0]) / 2
        if abs(limit / dr + 0.5 - round(limit / dr + 0.5)) < 1e-7:
            return None
        nb = min(n, int(math.floor(limit / dr + 0.5)))
        g = spec(D, sel, sel, True, dr, list(range(D.F)), nb)
        if g is None:
            return None
        m = first(tag(close(c.grid, dr * (np.arange(nb) + 0.5)), 'grid'), tag(close(c.value, g), 'values'))
        if m:
            return name + ': ' + m


CHECKS = [check_legacy, check_fast, check_linked, check_grid]
