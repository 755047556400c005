"""
C22: inputs are not modified and computing again gives the same result.

The contracts of the other properties are proved here of a second computation
on the same object, starting from the state the first one left, with frame
conditions on the inputs.
"""

import importlib

from . import phase
from .common import *
from .phase import D

# Contracts to prove again and the attributes put back between the two
# computations: the wave-vectors by FourierSpaceCorrelation.compute itself (see
# `wavevectors` below); the grid, where _compute starts from the one the user
# asks for and reports another (the snapped times or the bins up to half the
# smallest side)
WAVES = ('kgrid', 'k0', '_kvectors', '_koffset')
TWICE = [('c02', ('grid',)), ('c19', ()), ('c08', WAVES), ('c09', ()), ('c10', ()), ('c14', ()), ('c21', ()), ('c11', ('grid',))]


class Again(object):
    """The prover, but calls of the methods under contract are repeated"""

    def __init__(self, pr, names, restored=()):
        self.pr, self.names, self.restored = pr, names, restored

    def __getattr__(self, name):
        return getattr(self.pr, name)

    def lemma(self, *a, **k):
        # proved for the property they belong to
        pass

    def verify(self, qual, run, post, *a, prepare=None, **k):
        if qual.split('.')[-1] not in self.names:
            return

        def twice(I):
            call, busy = I.call, []

            def repeat(f, args, kw=None):
                if busy or not isinstance(f, P.Bound) or getattr(f.fn, 'name', None) not in self.names:
                    return call(f, args, kw)
                busy.append(f)
                try:
                    I.freeze()
                    old = []
                    for name in self.restored:
                        try:
                            old.append((name, I.getattr(f.obj, name)))
                        except P.PyExc:
                            pass
                    call(f, args, kw)
                    for name, value in old:
                        I.setattr(f.obj, name, value)
                    return call(f, args, kw)
                finally:
                    busy.pop()
            I.call = repeat
            try:
                return run(I)
            finally:
                del I.call

        def framed(I):
            I.framed = True
            if prepare:
                prepare(I)
        self.pr.verify(qual, twice, post, *a, prepare=framed, **k)


def branch(pr, jobs):
    """Prove the jobs in as many processes and collect what they did in `pr`"""
    import os
    import pickle
    children = []
    for job in jobs:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                try:
                    job()
                    out = [getattr(pr, name) for name in STATE], None
                except BaseException as e:
                    import traceback
                    out = None, traceback.format_exc()
                with os.fdopen(w, 'wb') as f:
                    pickle.dump(out, f)
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        children.append((pid, r))
    errors = []
    for pid, r in children:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        if not data:
            errors.append('a prover ended early')
            continue
        out, error = pickle.loads(data)
        if error:
            errors.append(error)
            continue
        for name, value in zip(STATE, out):
            mine = getattr(pr, name)
            if isinstance(mine, list):
                mine.extend(value)
            elif isinstance(mine, set):
                mine.update(value)
            else:
                setattr(pr, name, mine + value)
    if errors:
        raise RuntimeError('\n'.join(errors))


class Frames(Again):
    """The arrays are set up twice; the frames of the trajectory must stay the same"""

    def verify(self, qual, run, post, *a, **k):
        def posts(I, kind, v):
            for goal in post(I, kind, v):
                yield goal
            for goal in unchanged(I):
                yield goal
        Again.verify(self, qual, run, posts, *a, **k)


def unchanged(I):
    """Frames of the trajectory: particles and their attributes"""
    sid, pid, lid = I.ghost
    f, m, x = [ivar(fresh('_k')) for _ in range(3)]
    lst = I.getattr(P.Ref(sid, [f]), 'particle')
    fs = [ge0(f), lt0(f - phase.F), ge0(m), lt0(m - phase.NPART(f)), ge0(x), lt0(x - D)]
    yield 'frames: number of particles', ('under', fs, length_is(I, lst, phase.NPART(f)))
    p = I.seq_get(lst, m)
    yield 'frames: order of the particles', ('under', fs, ('eq', I.getattr(p, 'index').p, m))
    yield 'frames: species', ('under', fs, ('eq', I.getattr(p, 'species').p, app('species', f, m, sort='obj')))
    yield 'frames: mass', ('under', fs, ('eq', I.getattr(p, 'mass').p, app('mass', f, m)))
    for name in ('position', 'velocity', 'position_unfolded'):
        if name in I.heap[pid].d['attrs']:
            yield 'frames: ' + name, ('under', fs, ('eq', I.at(I.getattr(p, name), x), app(name, f, m, x)))


STATE = ('obls', 'functions', 'inlined', 'contracts_used', 'assumed', 'unsupported', 'paths')


class Kernels(Again):
    """Arrays given to the kernels, but those of the results"""

    def verify(self, qual, run, post, *a, prepare=None, **k):
        if qual.split('.')[0] not in ('realspace', 'fourierspace'):
            return

        def framed(I):
            I.framed, I.results = True, RESULTS
            if prepare:
                prepare(I)
        self.pr.verify(qual, run, post, *a, prepare=framed, **k)


RESULTS = ('hist', 'bins', 'found', 'dist', 'index', 'rho')


def again(pr, mod, restored):
    importlib.import_module('contracts.' + mod).prove(Again(pr, ('_compute',), restored))


def frames(pr):
    importlib.import_module('contracts.c15').prove(Frames(pr, ('_setup_arrays',)))


def kernels(pr):
    importlib.import_module('contracts.c12').prove(Kernels(pr, ()))
    from .fourier import check_expo
    check_expo(Kernels(pr, ()))


def wavevectors(pr):
    """The wave-vectors of the first frame are put back after a computation"""
    names = ('kgrid', 'k0', '_kvectors', '_koffset')
    junk = lambda nm: P.Opq(app(nm, sort='obj'), 'any')

    def run(I):
        obj = bare(I, 'fourierspace', 'FourierSpaceCorrelation', **{x: junk('old' + x) for x in names})

        def setup(I, env):
            for x in names:
                I.setattr(obj, x, junk('first' + x))

        def compute(I, env):
            for x in names:
                I.oblige('wave-vectors of the first frame are set up', T.eq0(I.getattr(obj, x).p - app('first' + x, sort='obj')))
                I.setattr(obj, x, junk('last' + x))
        I.contracts['fourierspace.FourierSpaceCorrelation._setup'] = setup
        I.contracts['correlation.Correlation.compute'] = compute
        I.call(I.getattr(obj, 'compute'), [])
        return obj

    def post(I, kind, obj):
        for x in names:
            yield 'wave-vectors of the first frame are restored: ' + x, ('eq', I.getattr(obj, x).p, app('first' + x, sort='obj'))
    pr.verify('fourierspace.FourierSpaceCorrelation.compute', run, post)


def prove(pr):
    branch(pr, [lambda: frames(pr), lambda: kernels(pr), lambda: wavevectors(pr)] + [lambda m=m, r=r: again(pr, m, r) for m, r in TWICE])
