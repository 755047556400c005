"""C16: partial correlations"""

import numpy as np
from .lib import *


def stub(nbodies, symmetric, log):
    from atooms.postprocessing.correlation import Correlation

    class Stub(Correlation):
        symbol, short_name, long_name = 'st', 'st(x)', 'stub'
        phasespace = ['pos']
        _symmetric = symmetric

        def __init__(self, trajectory, *args, **kwargs):
            Correlation.__init__(self, trajectory, None, norigins=-1)
            self.got = (args, kwargs)
            log.append(('new', self))

        def _compute(self):
            log.append(('compute', self))
            if self.nbodies == 1:
                a = [np.array(x) for x in self._pos]
                self.arrays = (a,)
            else:
                self.arrays = ([np.array(x) for x in self._pos_0], [np.array(x) for x in self._pos_1])
            self.grid = [float(len(log)), 1.0]
            self.value = [float(sum(x.sum() for a in self.arrays for x in a)), 0.5]

        def analyze(self):
            log.append(('analyze', self))
            self.analysis['x'] = len(log)

        def write(self):
            log.append(('write', self))

        def read(self):
            log.append(('read', self))

        def add_weight(self, *args, **kwargs):
            log.append(('weight', self, args, kwargs))
    Stub.nbodies = nbodies
    return Stub


SP = ['B', 'A', 'C', 'D']


def check_members(params):
    from atooms.postprocessing.partial import Partial
    r = rng(params)
    ns = int(r.randint(1, 4))
    species = [SP[i] for i in r.permutation(4)[:ns]]
    nb = int(r.choice([1, 2]))
    sym = bool(r.rand() < 0.6)
    D = Data(r, species=tuple(SP), n=int(r.randint(14, 22)), kind='linear', nmax=30)
    if any(len(D.sel(f, s)) in (0, D.d) for f in range(D.F) for s in SP):
        return None
    log = []
    args, kwargs = (int(r.randint(10)), 'z'), {'dr': float(r.rand()), 'opt': None}
    describe(species=species, nbodies=nb, symmetric=sym)
    p = Partial(stub(nb, sym, log), list(species), D.th, *args, **kwargs)
    keys = list(species) if nb == 1 else [(a, b) for a in species for b in species]
    if set(p.partial) != set(keys) or len(p.partial) != len(keys):
        return 'members %s instead of %s' % (sorted(map(str, p.partial)), keys)
    if len(set(map(id, p.partial.values()))) != len(keys):
        return 'members share one object'
    for k in keys:
        c = p.partial[k]
        if c.got != (args, kwargs):
            return 'member %s built with %s' % (k, c.got)
        if c.trajectory is not D.th:
            return 'other trajectory'
        t = str(k) if nb == 1 else '%s-%s' % k
        if c.tag != t or t not in c.tag_description:
            return 'member %s is tagged %r (%r)' % (k, c.tag, c.tag_description)
    # paths and weights
    p.output_path = 'x/{symbol}.{tag}'
    if any(c.output_path != 'x/{symbol}.{tag}' for c in p.partial.values()) or p.output_path != 'x/{symbol}.{tag}':
        return 'output path does not reach every member'
    n0 = len(log)
    W = object()
    fl = bool(r.rand() < 0.5)
    p.add_weight(trajectory=W, field='q', fluctuations=fl)
    seen = {}
    for e in log[n0:]:
        a = dict(zip(('trajectory', 'field', 'fluctuations'), e[2]))
        a.update(e[3])
        seen[id(e[1])] = seen.get(id(e[1]), []) + [a]
    for k in keys:
        if seen.get(id(p.partial[k])) != [{'trajectory': W, 'field': 'q', 'fluctuations': fl}]:
            return 'weight of %s: %s' % (k, seen.get(id(p.partial[k])))
    # compute
    del log[:]
    old = {k: p.partial[k].analysis for k in keys}
    for k in keys:
        p.partial[k].analysis['own'] = str(k)
    p.compute()
    done = [e[1] for e in log if e[0] == 'compute']
    for k in keys:
        c = p.partial[k]
        n = sum(1 for x in done if x is c)
        mirror = nb == 2 and sym and species.index(k[1]) < species.index(k[0])
        if n != (0 if mirror else 1):
            return 'member %s computed %d times' % (k, n)
        if mirror:
            o = p.partial[(k[1], k[0])]
            if list(o.grid) != list(c.grid) or list(o.value) != list(c.value) or c.analysis != o.analysis:
                return 'member %s does not take the results of %s' % (k, (k[1], k[0]))
            continue
        pair = (k,) if nb == 1 else k
        for g, s in enumerate(pair):
            for f in range(D.F):
                m = close(c.arrays[g][f], D.pos[f][D.sel(f, s)])
                if m:
                    return 'member %s, group %d, frame %d: %s' % (k, g, f, m)
    # each is written once with the results
    del log[:]
    p.write()
    if sorted(id(e[1]) for e in log if e[0] == 'write') != sorted(id(p.partial[k]) for k in keys):
        return 'not every member is written once'
    del log[:]
    p.do()
    for k in keys:
        c = p.partial[k]
        ev = [e[0] for e in log if e[1] is c]
        mirror = nb == 2 and sym and species.index(k[1]) < species.index(k[0])
        w = ['analyze', 'write'] if mirror else ['compute', 'analyze', 'write']
        if ev != w:
            return 'member %s: %s instead of %s' % (k, ev, w)


def check_values(params):
    """members equal the correlation with the filters"""
    import atooms.postprocessing as pp
    from atooms.postprocessing.partial import Partial
    from atooms.postprocessing.helpers import filter_species
    r = rng(params)
    D = Data(r, species=('A', 'B'), nmin=8, nmax=14, cubic=True)
    if any(len(D.sel(f, s)) in (0, D.d) for f in range(D.F) for s in ('A', 'B')):
        return None
    sp = ['A', 'B'] if r.rand() < 0.5 else ['B', 'A']
    k0 = float(2 * np.pi / min(D.side[0]))
    T = [0.0, D.timestep * (D.steps[1] - D.steps[0])]
    cls, kw = [(pp.MeanSquareDisplacement, {'tgrid': T, 'norigins': -1}),
               (pp.StructureFactorLegacy, {'kgrid': [k0], 'nk': 3, 'norigins': -1}),
               (pp.RadialDistributionFunctionLegacy, {'dr': 0.3, 'norigins': -1}),
               (pp.IntermediateScattering, {'kgrid': [k0], 'tgrid': T, 'nk': 3, 'normalize': False}),
               (pp.SelfOverlap, {'tgrid': T, 'a': 0.4}),
               (pp.SelfIntermediateScattering, {'kgrid': [k0], 'tgrid': T})][r.randint(6)]
    describe(cls=cls.__name__, species=sp, n=D.n[0], d=D.d)
    fresh = lambda v: {k: (list(x) if isinstance(x, list) else x) for k, x in v.items()}
    p = Partial(cls, sp, D.th, **fresh(kw))
    p.compute()
    for k, c in p.partial.items():
        o = cls(D.th, **fresh(kw))
        pair = (k,) if cls.nbodies == 1 else k
        if len(pair) == 2 and sp.index(pair[0]) > sp.index(pair[1]):
            pair = (pair[1], pair[0])
        o.add_filter(filter_species, pair[0])
        if len(pair) == 2 and pair[0] != pair[1]:
            o.add_filter(filter_species, pair[1])
        o.compute()
        m = first(tag(close(np.hstack([np.ravel(x) for x in c.grid]), np.hstack([np.ravel(x) for x in o.grid])), 'grid'),
                  tag(close(c.value, o.value, 1e-6, 1e-7), 'value'))
        if m:
            return '%s of %s: %s' % (cls.__name__, k, m)


CHECKS = [check_members, check_values]
