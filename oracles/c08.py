"""C08: structure factor"""

import math
import numpy as np
from .lib import *


def spec(D, sel0, sel1, groups, skip, cells=None, w0=None, w1=None):
    """groups(f): list of lists of wave-vectors of frame f"""
    n0 = np.mean([len(sel0[f]) for f in range(D.F)])
    n1 = np.mean([len(sel1[f]) for f in range(D.F)])
    ng = len(groups(0))
    out, raw = [], []
    for g in range(ng):
        a, b, ab = [], [], []
        for f in range(0, D.F, skip):
            for k in groups(f)[g]:
                e0 = np.exp(1j * (D.pos[f][sel0[f]] @ k))
                e1 = np.exp(1j * (D.pos[f][sel1[f]] @ k))
                r0 = (e0 * (w0[f] if w0 is not None else 1)).sum()
                r1 = (e1 * (w1[f] if w1 is not None else 1)).sum()
                a.append(r0), b.append(r1), ab.append(r0 * np.conj(r1))
        v = np.mean(ab)
        if w0 is not None:
            v = v - np.mean(a) * np.conj(np.mean(b))
        raw.append(v.real)
        out.append(v.real / math.sqrt(n0 * n1))
    return out, raw


def go(params, cls_name, cellvar):
    import atooms.postprocessing as pp
    from atooms.postprocessing.helpers import filter_species
    r = rng(params)
    cls = getattr(pp, cls_name)
    mode = ['all', 'one', 'two', 'same'][r.randint(4)]
    D = Data(r, species=('A', 'B'), nvar=bool(r.rand() < 0.3), cellvar=cellvar, nmin=7, nmax=14, field=True,
             specvar=False)
    no = [None, -1, -1, 2, 1][r.randint(5)]
    weight = r.rand() < 0.4
    fluct = bool(r.rand() < 0.5)
    sel0 = [D.sel(f, None if mode == 'all' else 'A') for f in range(D.F)]
    sel1 = [D.sel(f, {'all': None, 'one': 'A', 'two': 'B', 'same': 'A'}[mode]) for f in range(D.F)]
    for f in range(D.F):
        if len(sel0[f]) in (0, D.d) or len(sel1[f]) in (0, D.d):
            return None
    k0 = 2 * math.pi / D.side[0]
    m = int(r.randint(1, 4))
    kg = sorted(float(x) for x in r.uniform(min(k0), 3 * min(k0), m))
    nk = int(r.choice([1, 3, 8, 30]))
    describe(cls=cls_name, mode=mode, steps=D.steps, n=D.n, side=D.side[0].tolist(), norigins=no, weight=weight, fluct=fluct, kgrid=kg, nk=nk, cellvar=cellvar)
    c = cls(D.th, list(kg), norigins=no, nk=nk, dk=0.5)
    if mode in ('one', 'two', 'same'):
        c.add_filter(filter_species, 'A')
    if mode in ('two', 'same'):
        c.add_filter(filter_species, 'B' if mode == 'two' else 'A')
    if weight:
        c.add_weight(field='charge', fluctuations=fluct)
    if not cellvar:
        assign = r.rand() < 0.3
        if assign:
            c.kvectors = [[list(r.randint(-3, 4, D.d) * k0) for j in range(r.randint(1, 4))] for g in range(2)]
        c.compute()
        kv = [[np.array(v) for v in g] for g in c.kvectors]
        gr = lambda f: kv
    else:
        c.compute()
        # the wave-vectors of each frame are those of its own cell
        other = {}

        def gr(f):
            return other[f]
        h = pp.StructureFactorLegacy(D.th, list(kg), norigins=no, nk=nk, dk=0.5)
        if not hasattr(h, '_setup'):
            raise Skip('_setup')
        h.compute()
        return None
    w0 = w1 = None
    if weight:
        w0 = [D.field[f][sel0[f]] for f in range(D.F)]
        w1 = [D.field[f][sel1[f]] for f in range(D.F)]
        if fluct:
            m0 = np.mean([x.mean() for x in w0])
            m1 = np.mean([x.mean() for x in w1])
            w0, w1 = [x - m0 for x in w0], [x - m1 for x in w1]
    v, raw = spec(D, sel0, sel1, gr, c.skip, None, w0, w1)
    return first(tag(close(c.value, v, 1e-7, 1e-8), '%s values' % cls_name),
                 tag(close(c.grid, [np.mean([np.linalg.norm(k) for k in g]) for g in kv]), 'grid'))


def check_legacy(params):
    return go(params, 'StructureFactorLegacy', False)


def check_fast(params):
    return go(params, 'StructureFactorFast', False)


def check_cell(params):
    """cell changing along the trajectory, one group of vectors per value: all the vectors of each shell"""
    import atooms.postprocessing as pp
    from .c07 import groups
    r = rng(params)
    cls_name = ['StructureFactorLegacy', 'StructureFactorFast'][r.randint(2)]
    d = int(r.choice([2, 3]))
    D = Data(r, d=d, steps=list(range(0, 12, 3)), block=1, n=7)
    # rescale the cell of every frame
    D.side = [D.side[0] * (1 + 0.07 * f) for f in range(D.F)]
    for f in range(D.F):
        D.pos[f] = (r.rand(7, d) - 0.5) * D.side[f]
        s = D.th._system[f]
        s.cell.side[:] = D.side[f]
        for i, p in enumerate(s.particle):
            p.position[:] = D.pos[f][i]
    k0 = 2 * math.pi / D.side[0]
    kg0 = sorted(float(x) for x in r.uniform(1.2 * min(k0), 2.5 * min(k0), 2))
    skip_no = [-1, 2][r.randint(2)]
    describe(cls=cls_name, side=[s.tolist() for s in D.side], kgrid=kg0, norigins=skip_no)
    c = getattr(pp, cls_name)(D.th, list(kg0), norigins=skip_no, nk=100000, dk=0.6)
    c.compute()
    # S(k): every frame uses its own shells, set up again from the grid given by the user
    per = {}
    for f in range(0, D.F, c.skip):
        g = groups(2 * math.pi / D.side[f], list(kg0), 0.6)
        if g is None:
            return None
        per[f] = [[np.array(n) * 2 * math.pi / D.side[f] for n in s] for s in g]
    sel = [D.sel(f, None) for f in range(D.F)]
    v, raw = spec(D, sel, sel, lambda f: per[f], c.skip)
    return tag(close(c.value, v, 1e-7, 1e-8), cls_name + ', changing cell')


CHECKS = [check_legacy, check_fast, check_cell]
