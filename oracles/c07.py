"""C07: wave-vectors"""

import itertools
import math
import random
import numpy as np
from .lib import *


def all_vectors(k0, kmax):
    n = [int(kmax / k) + 2 for k in k0]
    return np.array(list(itertools.product(*[range(-m, m + 1) for m in n])))


def groups(k0, kgrid, dk):
    """The groups of wave-vectors before the draw (sets of integer tuples), or None if rounding decides"""
    dk = [dk] * len(kgrid)
    for attempt in range(200):
        ns = all_vectors(k0, kgrid[-1] + dk[-1])
        norm = np.sqrt(((ns * k0)**2).sum(1))
        out = [set() for _ in kgrid]
        for n, q in zip(ns, norm):
            if abs(q - (kgrid[-1] + dk[-1])) < 1e-9:
                return None
            for i, k in enumerate(kgrid):
                if abs(abs(q - k) - dk[i]) < 1e-9:
                    return None
                if abs(q - k) < dk[i]:
                    # the search extends up to the tolerance of the last value
                    if q <= kgrid[-1] + dk[-1]:
                        out[i].add(tuple(int(v) for v in n))
                    break
        if all(out):
            return out
        dk = [x * 1.2 if not g else x for x, g in zip(dk, out)]
    return None


def classes():
    import atooms.postprocessing as pp
    return [pp.StructureFactorLegacy, pp.StructureFactorFast, pp.SelfIntermediateScattering, pp.IntermediateScattering,
            pp.SelfIntermediateScatteringLegacy]


def build(cls, D, kgrid, nk, dk, **kw):
    if 'Structure' in cls.__name__:
        return cls(D.th, kgrid, nk=nk, dk=dk, **kw)
    return cls(D.th, kgrid, [0.0, D.timestep * (D.steps[1] - D.steps[0])], nk=nk, dk=dk, **kw)


def norms(group):
    return [math.sqrt(sum(x * x for x in v)) for v in group]


def check_groups(params):
    r = rng(params)
    d = int(r.choice([2, 3]))
    D = Data(r, d=d, steps=[0, 1, 2], block=1, n=6, side=r.uniform(2, 4, d) * (1 if r.rand() < 0.5 else np.array([1., 1.7, 0.8])[:d]))
    k0 = 2 * math.pi / D.side[0]
    kmax = float(r.uniform(1.5, 4.5)) * min(k0)
    m = int(r.randint(1, 5))
    kgrid = sorted(float(x) for x in r.uniform(0.6 * min(k0), kmax, m))
    if r.rand() < 0.25:
        # overlapping shells: a vector goes to the first one only
        kgrid = sorted(kgrid + [k + 0.05 for k in kgrid])
    dk = float(r.choice([0.1, 0.3, 0.01, 0.6]))
    nk = int(r.choice([1, 3, 8, 10000, 10000]))
    cls = classes()[r.randint(5)]
    given = list(kgrid)
    if r.rand() < 0.3:
        r.shuffle(given)
    first_k0 = r.rand() < 0.2
    if first_k0:
        given, kgrid = [-1.0] + given, sorted([float(min(k0))] + kgrid)
        if kgrid[0] != min(k0):
            return None
    describe(cls=cls.__name__, side=D.side[0].tolist(), kgrid=given, dk=dk, nk=nk)
    full = groups(k0, kgrid, dk)
    if full is None:
        return None
    c = build(cls, D, list(given), nk, dk)
    random.seed(int(r.randint(1000)))
    c.compute()
    kv = c.kvectors
    what = '%s(kgrid=%s, nk=%d, dk=%s), cell %s: ' % (cls.__name__, given, nk, dk, D.side[0].tolist())
    if len(kv) != len(kgrid):
        return what + '%d groups instead of %d' % (len(kv), len(kgrid))
    for i, g in enumerate(kv):
        ints = []
        for v in g:
            n = np.array(v) / k0
            if len(v) != d or np.abs(n - np.rint(n)).max() > 1e-6:
                return what + 'vector %s does not fit the cell' % (v,)
            ints.append(tuple(int(x) for x in np.rint(n)))
        if len(set(ints)) != len(ints):
            return what + 'repeated vectors in group %d' % i
        if not set(ints) <= full[i]:
            return what + 'vectors %s of group %d are not in the shell of %s' % (sorted(set(ints) - full[i])[:3], i, kgrid[i])
        if len(ints) != min(nk, len(full[i])):
            return what + '%d vectors in group %d instead of %d' % (len(ints), i, min(nk, len(full[i])))
        m = close(c.kgrid[i], np.mean(norms(g)))
        if m:
            return what + 'wave-number of group %d: %s' % (i, m)
    grid = c.grid if 'Structure' in cls.__name__ else c.grid[0]
    return tag(close(grid, c.kgrid), what + 'grid')


def check_draw(params):
    """the draw depends only on cell, grid and options"""
    from atooms.postprocessing.helpers import filter_species
    r = rng(params)
    D = Data(r, steps=[0, 1, 2], block=1, n=8, species=('A', 'B'))
    k0 = 2 * math.pi / D.side[0]
    kgrid = sorted(float(x) for x in r.uniform(min(k0), 3 * min(k0), 3))
    nk = int(r.choice([1, 2, 4]))
    cls = classes()[r.randint(5)]
    describe(cls=cls.__name__, side=D.side[0].tolist(), kgrid=kgrid, nk=nk)
    out = []
    for k in range(3):
        random.seed(int(r.randint(10000)))
        np.random.seed(k)
        c = build(cls, D, list(kgrid), nk, 0.4)
        if k == 1:
            c.add_filter(filter_species, 'A')
        if k == 2 and c.nbodies == 2:
            c.add_filter(filter_species, 'A')
            c.add_filter(filter_species, 'B')
        c.compute()
        out.append(c.kvectors)
    for o in out[1:]:
        if [np.array(g).tolist() for g in o] != [np.array(g).tolist() for g in out[0]]:
            return '%s: the wave-vectors drawn differ between two objects with the same cell, grid and options' % cls.__name__


def check_assigned(params):
    r = rng(params)
    D = Data(r, steps=[0, 1, 2], block=1, n=6)
    k0 = 2 * math.pi / D.side[0]
    cls = classes()[r.randint(5)]
    low, high = [(-4, 5), (0, 4), (-6, 2), (-5, 0)][r.randint(4)]
    want, given = [], []
    for g in range(r.randint(1, 4)):
        w, q = [], []
        for j in range(r.randint(1, 5)):
            n = r.randint(low, high, D.d)
            if not n.any():
                n[0] = 1 if high > 1 else -1
            w.append(n)
            q.append(list((n + r.uniform(-0.3, 0.3, D.d)) * k0))
        want.append(w)
        given.append(q if r.rand() < 0.5 else [np.array(x) for x in q])
    kg = [float(np.mean([np.linalg.norm(n * k0) for n in w])) for w in want]
    describe(cls=cls.__name__, want=[[n.tolist() for n in w] for w in want])
    c = build(cls, D, [5.0], 4, 0.1)
    c.kvectors = given
    for when in ('assigned', 'computed'):
        got = c.kvectors
        if len(got) != len(want):
            return when + ': wrong number of groups'
        for i, (g, w) in enumerate(zip(got, want)):
            m = close(g, [n * k0 for n in w])
            if m:
                return '%s: group %d: %s' % (when, i, m)
        m = close(c.kgrid, kg)
        if m:
            return '%s: kgrid: %s' % (when, m)
        if when == 'assigned':
            c.compute()
    # values for the assigned vectors, from the definition
    if 'Structure' in cls.__name__:
        v = []
        for w in want:
            acc = [abs(np.exp(1j * D.pos[f] @ (n * k0)).sum())**2 / D.n[f] for f in range(0, D.F, c.skip) for n in w]
            v.append(np.mean(acc))
        return tag(close(c.value, v, 1e-7), 'values for the assigned vectors')


def check_report(params):
    r = rng(params)
    D = Data(r, steps=[0, 1, 2], block=1, n=6)
    k0 = 2 * math.pi / D.side[0]
    kgrid = sorted(float(x) for x in r.uniform(min(k0), 3 * min(k0), 3))
    c = build(classes()[0], D, kgrid, 5, 0.4)
    c.compute()
    kv = c.kvectors
    rows = [l.split() for l in c.report(verbose=True).splitlines() if l.strip() and not l.startswith('#')]
    n = len(kv)
    for i, row in enumerate(rows[:n]):
        q = norms(kv[i])
        m = first(close(float(row[0]), c.kgrid[i]), close(float(row[1]), np.mean(q), 1e-4, 2e-6), close(float(row[2]), np.std(q), 1e-4, 2e-6),
                  None if int(row[3]) == len(q) else 'number of vectors')
        if m:
            return 'report, line %d: %s' % (i, m)
    flat = [v for g in kv for v in g]
    if len(rows) - n != len(flat):
        return 'report: %d vectors instead of %d' % (len(rows) - n, len(flat))
    for row, v in zip(rows[n:], flat):
        m = close([float(x) for x in row[1:]], v, 1e-6)
        if m:
            return 'report: vector: ' + m


def check_default(params):
    """default grids: linear from kmin (or the smallest wave-number) to kmax"""
    import atooms.postprocessing as pp
    r = rng(params)
    D = Data(r, steps=[0, 1], block=1, n=6, cubic=bool(r.rand() < 0.5))
    k0 = 2 * math.pi / D.side[0]
    kmin = float(r.choice([-1.0, 1.2 * min(k0)]))
    kmax = float(r.uniform(2.5, 3.5)) * min(k0)
    ks = int(r.randint(2, 6))
    start = kmin if kmin > 0 else float(min(k0))
    kgrid = [start + (kmax - start) * i / (ks - 1) for i in range(ks)]
    describe(side=D.side[0].tolist(), kmin=kmin, kmax=kmax, ksamples=ks)
    full = groups(k0, kgrid, 0.1)
    if full is None:
        return None
    c = pp.StructureFactor(D.th, None, nk=10000, kmin=kmin, kmax=kmax, ksamples=ks, dk=0.1)
    c.compute()
    for i, g in enumerate(c.kvectors):
        ints = {tuple(int(x) for x in np.rint(np.array(v) / k0)) for v in g}
        if ints != full[i]:
            return 'group %d of the default grid: %d vectors instead of %d' % (i, len(ints), len(full[i]))


CHECKS = [check_groups, check_draw, check_assigned, check_report, check_default]
