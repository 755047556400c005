"""Generators and comparisons shared by the oracles"""

import copy
import os
import shutil
import tempfile
import contextlib

import numpy as np

LAST = None      # description of the last case


class Skip(Exception):
    """The entry point the case needs is not there (renamed private helper, ...)"""


def rng(params):
    return np.random.RandomState(params['seed'] % (2**31 - 1))


def describe(**kw):
    global LAST
    LAST = kw


def close(a, b, rtol=1e-9, atol=1e-10):
    """None if equal, or a message"""
    try:
        a = np.asarray(a, dtype=complex if np.iscomplexobj(a) else float)
        b = np.asarray(b, dtype=complex if np.iscomplexobj(b) else float)
    except (ValueError, TypeError) as e:
        return 'not numbers: %s' % e
    if a.shape != b.shape:
        return 'shape %s instead of %s' % (a.shape, b.shape)
    if a.size == 0:
        return None
    nan = np.isnan(a) & np.isnan(b)
    bad = ~(np.isclose(a, b, rtol=rtol, atol=atol) | nan)
    if bad.any():
        i = tuple(int(x) for x in np.argwhere(bad)[0])
        return 'entry %s is %r instead of %r (%d of %d differ)' % (i, a[i], b[i], bad.sum(), a.size)
    return None


def first(*messages):
    for m in messages:
        if m:
            return m
    return None


def tag(msg, what):
    return None if msg is None else '%s: %s' % (what, msg)


def steps_of(r, kind=None, nmax=12):
    """Steps of the frames and block size"""
    kind = kind if kind is not None else r.choice(['linear', 'linear', 'linear1', 'log', 'log', 'logtrunc', 'irregular', 'single'])
    if kind == 'linear':
        n = r.randint(4, nmax + 1)
        d = r.randint(1, 6)
        s0 = int(r.choice([0, 0, 7]))
        return [int(s0 + d * i) for i in range(n)], 1, kind
    if kind == 'linear1':
        n = r.randint(4, nmax + 1)
        return list(range(n)), 1, kind
    if kind in ('log', 'logtrunc'):
        base = [[0, 1, 2, 4], [0, 1, 2, 4, 8], [0, 1, 3], [0, 2, 5]][r.randint(4)]
        period = [8, 16, 7, 12][[[0, 1, 2, 4], [0, 1, 2, 4, 8], [0, 1, 3], [0, 2, 5]].index(base)]
        nb = r.randint(2, 4)
        s = [b + period * k for k in range(nb) for b in base]
        if r.rand() < 0.5:
            s.append(period * nb)
        return [int(x) for x in s], len(base), kind
    if kind == 'irregular':
        n = r.randint(4, nmax + 1)
        s = np.cumsum([0] + list(r.randint(1, 6, n - 1)))
        return [int(x) for x in s], 1, kind
    if kind == 'single':
        # one non-periodic block
        n = r.randint(4, 7)
        return [0] + [2**i for i in range(n - 1)], n, kind
    raise ValueError(kind)


class Data(object):
    """Raw data of a trajectory, and the trajectory itself"""

    def __init__(self, r, n=None, d=None, steps=None, block=None, side=None, species=('A',), walk=None, nvar=False,
                 cellvar=False, specvar=False, field=False, masses=True, inside=False, timestep=None, nmin=None, cubic=None,
                 species_prob=None, kind=None, shuffle=True, radii=True, nmax=9, stepsize=None):
        from atooms.trajectory import TrajectoryRam
        from atooms.system import System, Particle, Cell
        d = d or int(r.choice([2, 3]))
        if n is None:
            n = r.randint(nmin or (d + 1 + len(species)), nmax + 1)
        kind_ = 'given'
        if steps is None:
            steps, block, kind_ = steps_of(r, kind)
        self.steps, self.block, self.kind = steps, block, kind_
        F = len(steps)
        self.F, self.d = F, d
        self.timestep = timestep if timestep is not None else float(r.choice([1.0, 0.5, 0.002, 2.0]))
        if side is None:
            cubic = (r.rand() < 0.4) if cubic is None else cubic
            side = np.ones(d) * r.uniform(2., 6.) if cubic else r.uniform(2., 6., d)
        self.side = [np.array(side, dtype=float) * ((1 + 0.15 * r.rand(d)) if (cellvar and f > 0) else 1) for f in range(F)]
        self.n = [n if not nvar else int(max(d + 1 + len(species), n + r.randint(-1, 3))) for f in range(F)]
        stepsize = stepsize if stepsize is not None else float(r.choice([0.05, 0.2, 0.4]))
        self.unf, self.pos, self.vel, self.spe, self.mass, self.rad, self.field = [], [], [], [], [], [], []
        spe0 = None
        x0 = None
        self.wide = (walk is None and not nvar)
        for f in range(F):
            L = self.side[f]
            nf = self.n[f]
            if x0 is None or nvar or walk is False:
                x = (r.rand(nf, d) - 0.5) * L
            else:
                x = self.unf[-1] + r.uniform(-1, 1, (nf, d)) * stepsize * L
            self.unf.append(x)
            x0 = x
            self.pos.append(x - np.floor(x / L + 0.5) * L)
            self.vel.append(r.randn(nf, d))
            if spe0 is None or nvar or specvar:
                while True:
                    sp = [species[i] for i in r.choice(len(species), nf, p=species_prob)]
                    if all(sp.count(a) not in (0, d) for a in species) or len(species) == 1 or nf < len(species):
                        break
                    if nf <= 2 * len(species) and all(sp.count(a) > 0 for a in species) and r.rand() < 0.02:
                        break
                spe0 = sp
            self.spe.append(list(spe0))
            self.mass.append(r.uniform(0.5, 2., nf) if (masses and (f == 0 or nvar)) else (np.ones(nf) if not masses else self.mass[-1]))
            self.rad.append(r.uniform(0.3, 0.7, nf) if radii else np.ones(nf) * 0.5)
            self.field.append(r.randn(nf))
        self.n_species = len(species)
        th = TrajectoryRam()
        for f in range(F):
            s = System()
            s.particle = [Particle(position=self.pos[f][i].copy(), velocity=self.vel[f][i].copy(), species=self.spe[f][i],
                                   mass=float(self.mass[f][i]), radius=float(self.rad[f][i])) for i in range(self.n[f])]
            if field:
                for i, p in enumerate(s.particle):
                    p.charge = float(self.field[f][i])
            s.cell = Cell(side=self.side[f].copy())
            th.write(s, steps[f])
        th.timestep = self.timestep
        # frames may be cached, as in the programming interface
        th.cache = bool(r.rand() < 0.3)
        self.th = th
        describe(n=self.n, d=d, steps=steps, block=block, side=self.side[0].tolist(), timestep=self.timestep, kind=kind_)

    def sel(self, f, species):
        """Indices of the particles of a species, in order"""
        return [i for i in range(self.n[f]) if species is None or self.spe[f][i] == species]

    def snapshot(self):
        return snapshot(self.th)


def snapshot(th):
    out = []
    for i in range(len(th.steps)):
        s = th._system[i] if hasattr(th, '_system') and not th.cache else th[i]
        out.append((np.array([p.position for p in s.particle]), np.array([p.velocity for p in s.particle]),
                    [str(p.species) for p in s.particle], np.array(s.cell.side), [p.mass for p in s.particle],
                    [p.radius for p in s.particle], np.array([getattr(p, 'position_unfolded', 0.0) for p in s.particle])))
    return out


def same_snapshot(a, b):
    if len(a) != len(b):
        return 'number of frames changed'
    for f, (x, y) in enumerate(zip(a, b)):
        for k, what in enumerate(['positions', 'velocities', 'species', 'cell', 'masses', 'radii', 'unfolded positions']):
            if len(x[k]) != len(y[k]) or not all(np.array_equal(u, v) for u, v in zip(x[k], y[k])):
                return '%s of frame %d changed' % (what, f)
    return None


@contextlib.contextmanager
def scratch():
    """A scratch directory, also the current one, removed at the end"""
    d = tempfile.mkdtemp(prefix='vp-oracle-')
    old = os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def origins(off, i, F, skip):
    """Admissible first entries of a grid entry (offset, separation)"""
    out = []
    k = off
    while k + i <= F - 1:
        out.append(k)
        k += skip
    return out


def averages(grid, skip, steps, f):
    """Mean over the admissible pairs of each elapsed time"""
    acc = {}
    for off, i in grid:
        for k in origins(off, i, len(steps), skip):
            acc.setdefault(steps[k + i] - steps[k], []).append(f(k + i, k))
    ts = sorted(acc)
    return ts, [sum(acc[t]) / len(acc[t]) for t in ts], {t: len(acc[t]) for t in ts}


def nearest(templates, entries):
    """Entries selected by templates (ties to the smaller)"""
    out = set()
    for t in templates:
        best = None
        for e in sorted(entries):
            if best is None or abs(e - t) < abs(best - t):
                best = e
        out.add(best)
    return sorted(out)


def half_even(x):
    return int(round(x))


def t_grid(steps, block, timestep, times, offset=True):
    """Internal time grid: pairs (offset, separation) sorted by elapsed time"""
    av = {}
    for off in range(block if offset else 1):
        for i in range(off, len(steps) - off):
            av.setdefault(steps[i] - steps[off], (off, i - off))
    want = {half_even(t / timestep) for t in times}
    return [av[s] for s in nearest(want, list(av))]


def skip_of(n_origins, F, block, npart):
    """Stride between origins"""
    v = n_origins
    if v is None:
        s = int(F * npart / 40000.) if block == 1 else block
    elif v == '1.0':
        s = block
    else:
        v = float(v)
        if v < 0:
            s = block
        elif v > 1:
            s = int((F // block) / v) * block
        elif v == 1:
            s = F
        else:
            s = int(1 / v) * block
    return min(F, max(block, s))


def attr(obj, name):
    """A private name of the code; the case is skipped when it is gone"""
    try:
        return getattr(obj, name)
    except AttributeError:
        raise Skip(name)
