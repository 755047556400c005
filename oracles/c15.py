"""C15: arrays hold exactly the selected particles"""

import copy
import numpy as np
from .lib import *

SPECIES = ('B', 'A', 'C')


def probe(nbodies, phasespace):
    """A correlation function that records the arrays it works on"""
    from atooms.postprocessing.correlation import Correlation

    class Probe(Correlation):
        def _compute(self):
            names = ['_pos', '_vel', '_ids', '_pos_unf']
            if self.nbodies == 2:
                names = [n + s for n in names for s in ('_0', '_1')]
            self.seen = {n: [np.array(a) for a in attr(self, n)] for n in names}
            self.same = self.nbodies == 2 and self._pos_0 is self._pos_1
            self.grid, self.value = [0.0], [0.0]
    Probe.nbodies, Probe.phasespace = nbodies, phasespace
    Probe.symbol, Probe.short_name = 'p', 'p(x)'
    return Probe


def condition(r):
    """(callable condition on particle i of frame f of the data, text)"""
    k = r.randint(5)
    if k == 0:
        return (lambda D, f, i: D.spe[f][i] == 'A'), 'species == "A"'
    if k == 1:
        return (lambda D, f, i: D.rad[f][i] > 0.5), 'radius > 0.5'
    if k == 2:
        return (lambda D, f, i: D.mass[f][i] <= 1.0 and D.spe[f][i] != 'B'), 'mass <= 1.0 and species != "B"'
    if k == 3:
        return (lambda D, f, i: D.mass[f][i] < 0.9 or D.rad[f][i] < 0.45), 'mass < 0.9 or radius < 0.45'
    return (lambda D, f, i: True), 'mass > 0'


def a_filter(r):
    from atooms.postprocessing.helpers import filter_species
    k = r.randint(3)
    if k == 0:
        return (lambda D, f, i: D.spe[f][i] == SPECIES[1]), (filter_species, (SPECIES[1],), {})
    if k == 1:
        return (lambda D, f, i: True), (filter_species, (None,), {})
    cut = float(r.uniform(0.8, 1.6))

    def by_mass(system, limit=None):
        s = copy.copy(system)
        s.particle = [p for p in system.particle if p.mass < limit]
        return s
    return (lambda D, f, i: D.mass[f][i] < cut), (by_mass, (), {'limit': cut})


def okay(D, sels):
    return all(len(x) not in (0, D.d) for s in sels for x in s)


def want(D, name, sel, ids, fix):
    out = []
    for f in range(D.F):
        if name == '_pos':
            a = D.pos[f]
        elif name == '_vel':
            a = D.vel[f]
        elif name == '_ids':
            a = np.array([ids.index(x) for x in D.spe[f]])
        else:
            a = D.unf[f]
            if fix:
                a = a - (D.mass[f][:, None] * a).sum(0) / D.mass[f].sum()
        out.append(a[sel[f]])
    return out


def check_arrays(params):
    r = rng(params)
    nb = int(r.choice([1, 2]))
    spaces = ['pos', 'vel', 'ids', 'pos-unf']
    ps = [spaces[i] for i in r.permutation(4)[:r.randint(1, 5)]]
    fix = bool(r.rand() < 0.3)
    if fix and 'pos' in ps:
        ps = [p for p in ps if p != 'pos'] or ['pos-unf']
    nf = int(r.randint(0, nb + 1))
    if 'pos-unf' in ps and nf < 2:
        ps = ['pos-unf']       # unfolding cannot go backwards, no class of the package reads other arrays along with it
    nvar = bool(r.rand() < 0.3) and 'pos-unf' not in ps and not fix
    D = Data(r, species=SPECIES, nmin=9, nmax=16, nvar=nvar, specvar=bool(r.rand() < 0.3))
    fs = [a_filter(r) for _ in range(nf)]
    sels = [[[i for i in range(D.n[f]) if fn(D, f, i)] for f in range(D.F)] for fn, _ in fs] or \
        [[list(range(D.n[f])) for f in range(D.F)]]
    if not okay(D, sels):
        return None
    as_text = len(ps) == 1 and r.rand() < 0.5
    describe(nbodies=nb, phasespace=ps, filters=nf, n=D.n, fix_cm=fix, steps=D.steps)
    c = probe(nb, ps[0] if as_text else ps)(D.th, None, norigins=-1, fix_cm=fix)
    for _, (cbk, a, k) in fs:
        c.add_filter(cbk, *a, **k)
    before = D.snapshot()
    c.compute()
    ids = sorted(set(D.spe[0]))
    if set(ids) != set(s for f in D.spe for s in f):
        return None
    names = {'pos': '_pos', 'vel': '_vel', 'ids': '_ids', 'pos-unf': '_pos_unf'}
    for p in spaces:
        for s, suffix in enumerate([''] if nb == 1 else ['_0', '_1']):
            got = c.seen[names[p] + suffix]
            if p not in ps:
                if got:
                    return '%s%s is filled although it is not requested' % (p, suffix)
                continue
            w = want(D, names[p], sels[min(s, len(sels) - 1)], ids, fix)
            if len(got) != len(w):
                return '%s%s: %d frames instead of %d' % (p, suffix, len(got), len(w))
            for f in range(D.F):
                m = close(got[f], w[f], 1e-8, 1e-8)
                if m:
                    return '%s%s, frame %d: %s' % (p, suffix, f, m)
    return same_snapshot(before, D.snapshot())


def check_fix_cm(params):
    """folded positions relative to the center of mass of the whole system, up to a common shift"""
    r = rng(params)
    nb = int(r.choice([1, 2, 2]))
    D = Data(r, species=SPECIES, nmin=9, nmax=16)
    nf = int(r.randint(0, nb + 1))
    fs = [a_filter(r) for _ in range(nf)]
    sels = [[[i for i in range(D.n[f]) if fn(D, f, i)] for f in range(D.F)] for fn, _ in fs] or \
        [[list(range(D.n[f])) for f in range(D.F)]]
    if not okay(D, sels):
        return None
    describe(nbodies=nb, filters=nf, n=D.n[0], steps=D.steps)
    c = probe(nb, ['pos'])(D.th, None, norigins=-1, fix_cm=True)
    for _, (cbk, a, k) in fs:
        c.add_filter(cbk, *a, **k)
    c.compute()
    ref = None
    for s, suffix in enumerate([''] if nb == 1 else ['_0', '_1']):
        got = c.seen['_pos' + suffix]
        if len(got) != D.F:
            return 'wrong number of frames'
        w = want(D, '_pos_unf', sels[min(s, len(sels) - 1)], None, True)
        for f in range(D.F):
            if got[f].shape != w[f].shape:
                return 'frame %d: shape %s instead of %s' % (f, got[f].shape, w[f].shape)
            q = (got[f] - w[f]) / D.side[f]
            if ref is None:
                ref = q[0]
            q = q - ref
            if np.abs(q - np.rint(q)).max() > 1e-6:
                return 'frame %d: not the positions relative to the center of mass' % f


def check_filter(params):
    """filters by condition"""
    from atooms.postprocessing import Filter
    r = rng(params)
    nb = int(r.choice([1, 2, 2]))
    D = Data(r, species=SPECIES, nmin=9, nmax=16, nvar=bool(r.rand() < 0.3))
    fa, ta = condition(r)
    fb, tb = condition(r)
    everything = lambda D, f, i: True
    if nb == 1:
        text, fns = ta, [fa]
    elif r.rand() < 0.4:
        text, fns = ta, [fa, everything]
    else:
        text, fns = ta + ',' + tb, [fa, fb]
    sels = [[[i for i in range(D.n[f]) if fn(D, f, i)] for f in range(D.F)] for fn in fns]
    if not okay(D, sels):
        return None
    describe(nbodies=nb, condition=text, n=D.n)
    before = D.snapshot()
    c = Filter(probe(nb, ['pos', 'vel'])(D.th, None, norigins=-1), text)
    c.compute()
    for p in ('_pos', '_vel'):
        for s, suffix in enumerate([''] if nb == 1 else ['_0', '_1']):
            got, w = c.seen[p + suffix], want(D, p, sels[s], None, False)
            if len(got) != len(w):
                return 'wrong number of frames'
            for f in range(D.F):
                m = close(got[f], w[f])
                if m:
                    return 'condition %r, %s%s frame %d: %s' % (text, p, suffix, f, m)
    return same_snapshot(before, D.snapshot())


def check_unfolded(params):
    """unfolded positions stored in the trajectory are used as such"""
    r = rng(params)
    D = Data(r, species=SPECIES, nmin=9, nmax=14)
    fix = bool(r.rand() < 0.5)
    shift = r.randn(D.F, D.d) * 3
    for f in range(D.F):
        D.unf[f] = D.unf[f] + r.randint(-2, 3, (D.n[f], D.d)) * D.side[f]
        for i, p in enumerate(D.th._system[f].particle):
            p.position_unfolded = D.unf[f][i].copy()
    fn, (cbk, a, k) = a_filter(r)
    filt = bool(r.rand() < 0.7)
    sel = [[i for i in range(D.n[f]) if not filt or fn(D, f, i)] for f in range(D.F)]
    if not okay(D, [sel]):
        return None
    describe(n=D.n[0], fix_cm=fix, filt=filt)
    c = probe(1, ['pos-unf'])(D.th, None, norigins=-1, fix_cm=fix)
    if filt:
        c.add_filter(cbk, *a, **k)
    w = want(D, '_pos_unf', sel, None, fix)
    c.compute()
    for f in range(D.F):
        m = close(c.seen['_pos_unf'][f], w[f], 1e-8, 1e-8)
        if m:
            return 'frame %d: %s' % (f, m)


def check_limit(params):
    """no more filters than bodies; filtering by species"""
    from atooms.postprocessing.helpers import filter_species
    r = rng(params)
    D = Data(r, species=SPECIES, nmin=9)
    nb = int(r.choice([1, 2]))
    c = probe(nb, ['pos'])(D.th, None)
    describe(nbodies=nb)
    for k in range(nb):
        c.add_filter(filter_species, 'A')
    for k in range(2):
        try:
            c.add_filter(filter_species, 'B')
        except ValueError:
            pass
        else:
            return '%d filters are accepted by a correlation of %d bodies' % (nb + 1 + k, nb)
    f = int(r.randint(D.F))
    s = D.th[f]
    n0 = [id(p) for p in s.particle]
    for sp in SPECIES + (None, 'Z'):
        q = filter_species(s, sp)
        w = [p for p in s.particle if sp is None or p.species == sp]
        if len(q.particle) != len(w) or any(a is not b and not np.array_equal(a.position, b.position) for a, b in zip(q.particle, w)):
            return 'filter_species(%r) keeps other particles' % sp
    if [id(p) for p in s.particle] != n0:
        return 'filter_species modifies the frame'


CHECKS = [check_arrays, check_filter, check_fix_cm, check_unfolded, check_limit]
