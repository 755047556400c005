"""C17: weights"""

import numpy as np
from .lib import *
from .c15 import a_filter, probe, okay, SPECIES


def check_weights(params):
    r = rng(params)
    nb = int(r.choice([1, 2, 2]))
    D = Data(r, species=SPECIES, nmin=9, nmax=16, field=True, nvar=bool(r.rand() < 0.3), specvar=bool(r.rand() < 0.2))
    other = bool(r.rand() < 0.5)
    fluct = bool(r.rand() < 0.5)
    field = ['charge', 'my_field'][r.randint(2)]
    W = None
    vals = D.field
    if other:
        from atooms.trajectory import TrajectoryRam
        from atooms.system import System, Particle, Cell
        vals = [r.randn(D.n[f]) for f in range(D.F)]
        W = TrajectoryRam()
        for f in range(D.F):
            s = System()
            s.particle = [Particle(position=np.zeros(D.d)) for i in range(D.n[f])]
            for i, p in enumerate(s.particle):
                setattr(p, field, float(vals[f][i]))
            s.cell = Cell(side=D.side[f].copy())
            W.write(s, D.steps[f])
    else:
        for f in range(D.F):
            for i, p in enumerate(D.th._system[f].particle):
                setattr(p, field, float(vals[f][i]))
    nf = int(r.randint(0, nb + 1))
    fs = [a_filter(r) for _ in range(nf)]
    sels = [[[i for i in range(D.n[f]) if fn(D, f, i)] for f in range(D.F)] for fn, _ in fs] or \
        [[list(range(D.n[f])) for f in range(D.F)]]
    if not okay(D, sels):
        return None
    describe(nbodies=nb, filters=nf, other=other, fluct=fluct, field=field, n=D.n)
    c = probe(nb, ['pos'])(D.th, None, norigins=-1)
    fs_first = bool(r.rand() < 0.5)
    if fs_first:
        for _, (cbk, a, k) in fs:
            c.add_filter(cbk, *a, **k)
    c.add_weight(trajectory=W, field=field, fluctuations=fluct)
    if not fs_first:
        for _, (cbk, a, k) in fs:
            c.add_filter(cbk, *a, **k)
    for attempt in range(2):
        c.compute()
        for g, name in enumerate(['_weight'] if nb == 1 else ['_weight_0', '_weight_1']):
            got = attr(c, name)
            sel = sels[min(g, len(sels) - 1)]
            w = [vals[f][sel[f]] for f in range(D.F)]
            if fluct:
                m = np.mean([x.mean() for x in w])
                w = [x - m for x in w]
            if got is None or len(got) != D.F:
                return '%s holds %s' % (name, got)
            for f in range(D.F):
                m = close(got[f], w[f])
                if m:
                    return '%s, frame %d, computation %d: %s' % (name, f, attempt + 1, m)
    if 'my field' not in c.tag_description and field == 'my_field':
        return 'the description does not tell the field'


def check_refused(params):
    r = rng(params)
    D = Data(r, species=SPECIES, nmin=9, field=True)
    c = probe(int(r.choice([1, 2])), ['pos'])(D.th, None, norigins=-1)
    describe(n=D.n[0])
    c.add_weight()
    c.compute()
    if attr(c, '_weight') is not None:
        return 'a weight is attached without field and trajectory'
    from atooms.trajectory import TrajectoryRam
    W = TrajectoryRam()
    drop = int(r.randint(D.F))
    shift = bool(r.rand() < 0.5)
    for f in range(D.F):
        if shift:
            W.write(D.th[f], D.steps[f] + (1 if f == drop and f == D.F - 1 else 0) + (1 if f >= drop and drop < D.F - 1 else 0))
        elif f != drop:
            W.write(D.th[f], D.steps[f])
    for kw in ({'trajectory': W, 'field': 'charge'}, {'trajectory': D.th}):
        d = probe(2, ['pos'])(D.th, None, norigins=-1)
        try:
            d.add_weight(**kw)
        except ValueError:
            continue
        return 'accepted: %s' % sorted(kw)
    # a field that does not exist
    E = Data(rng(params), species=SPECIES, nmin=9, field=True)
    d = probe(1, ['pos'])(E.th, None, norigins=-1)
    try:
        d.add_weight(field='no_such_field')
        d.compute()
    except (AttributeError, ValueError, KeyError):
        return None
    return 'a field that does not exist is accepted'


CHECKS = [check_weights, check_refused]
