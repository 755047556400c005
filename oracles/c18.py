"""C18: output files and updates"""

import os
import numpy as np
from .lib import *


def stub(log, two=False):
    from atooms.postprocessing.correlation import Correlation

    class Stub(Correlation):
        symbol, short_name, long_name = 'st', ('S(k,t)' if two else 'S(t)'), 'stub function'
        phasespace = ['pos']

        def __init__(self, trajectory, grid=None, value=None, analysis=None, **kw):
            Correlation.__init__(self, trajectory, grid, norigins=-1, **kw)
            self.payload = grid, value, analysis or {}

        def _compute(self):
            log.append(('compute', self, os.path.exists(self._output_file)))
            g, v, a = self.payload
            self.grid = [list(x) for x in g] if two else list(g)
            self.value = [list(x) for x in v] if two else list(v)

        def analyze(self):
            log.append(('analyze', self, list(np.ravel(self.value))))
            self.analysis.update(self.payload[2])
    return Stub


def trajectory_file(r, path, n=4, species=('A',)):
    with open(path, 'w') as fh:
        for f in range(3):
            fh.write('%d\nstep:%d columns:id,pos dt:0.5 cell:3,3,3\n' % (n, f))
            for i in range(n):
                fh.write('%s %s\n' % (species[i % len(species)], ' '.join('%.4f' % x for x in r.rand(3) - 0.5)))


def numbers(r, n):
    """Numbers of all sizes"""
    out = []
    for _ in range(n):
        u = r.rand()
        out.append(0.0 if u < 0.1 else float(r.choice([-1, 1]) * r.rand() * 10.0 ** r.randint(-8, 9)))
    return out


def rows(path):
    return [tuple(float(x) for x in l.split()) for l in open(path) if l.strip() and not l.startswith('#')]


def six(x):
    return float('%.5e' % x)


def check_write(params):
    """one row per grid point, in order"""
    from atooms.trajectory import TrajectoryXYZ
    r = rng(params)
    two = bool(r.rand() < 0.5)
    with scratch():
        name = str(r.choice(['t.xyz', 'sub/dir/t.xyz', './t.xyz']))
        if os.path.dirname(name):
            os.makedirs(os.path.dirname(name), exist_ok=True)
        trajectory_file(r, name)
        log = []
        n, m = int(r.randint(1, 6)), int(r.randint(1, 6))
        grid = [numbers(r, n), numbers(r, m)] if two else numbers(r, n)
        value = [numbers(r, m) for _ in range(n)] if two else numbers(r, n)
        template = [None, '{trajectory.filename}.pp.{symbol}.{tag}', 'out/{symbol}/{tag}.x', '{long_name}.{tag}',
                    'a/{tag_description}.{symbol}.dat'][r.randint(5)]
        with TrajectoryXYZ(name) as th:
            c = stub(log, two)(th, grid, value, {'alpha beta': 1.5, 'none': None})
            tag = str(r.choice(['', 'A', 'x_y']))
            c.tag = tag
            c.tag_description = 'the red ones'
            if template:
                c.output_path = template
            describe(two=two, n=n, m=m, template=template, tag=tag, name=name)
            if r.rand() < 0.5:
                c.comments = '# a comment\n'
            c.do()
            path = (template or '{trajectory.filename}.pp.{symbol}.{tag}').format(
                trajectory=th, symbol='st', tag=tag, long_name='stub_function', tag_description='the_red_ones', short_name='S')
            # punctuation repeated or at the ends of the name is dropped
            d, b = os.path.split(path)
            for q in '._-':
                b = b.replace(q + q, q).strip(q)
            path = os.path.join(d, b)
        if not os.path.isfile(path):
            return 'no file %s' % path
        got = rows(path)
        text = open(path).read()
    want = [(six(x), six(y), six(value[i][j])) for i, x in enumerate(grid[0]) for j, y in enumerate(grid[1])] if two \
        else [(six(x), six(value[i])) for i, x in enumerate(grid)]
    if len(got) != len(want):
        return '%d rows instead of %d' % (len(got), len(want))
    m_ = close(got, want, 2e-6, 1e-300)
    if m_:
        return m_
    if [e[0] for e in log] != ['compute', 'analyze']:
        return 'order %s' % [e[0] for e in log]
    if '# alpha beta: 1.5\n' not in text:
        return 'analysis is not in the file'


def check_update(params):
    """read back, or computed, analyzed and written"""
    from atooms.trajectory import TrajectoryXYZ
    r = rng(params)
    two = bool(r.rand() < 0.3)
    state = ['missing', 'newer', 'older', 'same'][r.randint(4)]
    update = bool(r.rand() < 0.7)
    with scratch():
        trajectory_file(r, 't.xyz')
        log = []
        n = int(r.randint(2, 6))
        grid = [numbers(r, n), numbers(r, 2)] if two else numbers(r, n)
        value = [numbers(r, 2) for _ in range(n)] if two else numbers(r, n)
        how = str(r.choice(['do', 'do', 'call'])) if not update else 'do'
        describe(two=two, state=state, update=update, how=how)
        with TrajectoryXYZ('t.xyz') as th:
            c = stub(log, two)(th, grid, value)
            path = c._output_file if hasattr(c, '_output_file') else 't.xyz.pp.st'
            t0 = 1500000000 + int(r.randint(1000))
            # more rows than columns, otherwise reading a transposed file is ambiguous
            old = [(1.0 * (i + 1), 7.0 - i) + ((3.0,) if two else ()) for i in range(5)]
            if state != 'missing':
                with open(path, 'w') as fh:
                    fh.write('# title: old\n')
                    fh.writelines(' '.join('%g' % x for x in o) + '\n' for o in old)
                dt = {'newer': [1, 1000], 'older': [-1, -1000], 'same': [0, 0]}[state][r.randint(2)]
                if state == 'newer' and r.rand() < 0.3:
                    dt = 0.01
                elif state == 'older' and r.rand() < 0.3:
                    dt = -0.01
                os.utime(path, (t0 + dt, t0 + dt))
            os.utime('t.xyz', (t0, t0))
            if how == 'do':
                c.do(update=update)
            else:
                c()
            kept = update and state == 'newer'
            got = rows(path)
            if kept:
                if log:
                    return 'computed although the file is newer: %s' % [e[0] for e in log]
                if got != old:
                    return 'newer file was overwritten'
                if not two:
                    return first(tag(close(c.grid, [o[0] for o in old]), 'grid read'), tag(close(c.value, [o[1] for o in old]), 'values read'))
                return None
            if [e[0] for e in log] != ['compute', 'analyze']:
                return 'events %s instead of compute, analyze' % [e[0] for e in log]
            if len(got) != (n * 2 if two else n):
                return 'file was not rewritten (%d rows)' % len(got)
            if not two:
                return first(tag(close(c.grid, grid), 'grid'), tag(close(c.value, value), 'values'))


def check_partial(params):
    """everything is recomputed as soon as one file needs it"""
    from atooms.trajectory import TrajectoryXYZ
    from atooms.postprocessing.partial import Partial
    r = rng(params)
    sp = ['A', 'B', 'C'][:int(r.randint(1, 4))]
    nb = int(r.choice([1, 2]))
    with scratch():
        trajectory_file(r, 't.xyz', 15, sp)
        log = []
        S = stub(log)
        S.nbodies = nb
        S._symmetric = bool(r.rand() < 0.5)
        grid, value = [0.0, 1.0, 2.0], numbers(r, 3)
        with TrajectoryXYZ('t.xyz') as th:
            p = Partial(S, sp, th, grid, value)
            keys = list(p.partial)
            t0 = 1500000000
            states = ['newer'] * len(keys)
            if r.rand() < 0.6:
                for i in range(len(keys)):
                    if r.rand() < 0.4:
                        states[i] = ['older', 'missing', 'same'][r.randint(3)]
            paths = ['t.xyz.pp.st.' + p.partial[k].tag for k in keys]
            describe(species=sp, nbodies=nb, states=states)
            for path, s in zip(paths, states):
                if s != 'missing':
                    with open(path, 'w') as fh:
                        fh.writelines('%g 5\n' % i for i in range(4))
                    dt = {'newer': 10, 'older': -10, 'same': 0}[s]
                    os.utime(path, (t0 + dt, t0 + dt))
            os.utime('t.xyz', (t0, t0))
            update = bool(r.rand() < 0.8)
            p.do(update=update)
            kept = update and all(s == 'newer' for s in states)
            for k, path in zip(keys, paths):
                got = rows(path)
                c = p.partial[k]
                if kept:
                    if log or len(got) != 4 or list(c.grid) != [0, 1, 2, 3] or list(c.value) != [5] * 4:
                        return 'files are newer but %s was not just read' % (k,)
                else:
                    if len(got) != 3 or list(c.grid) != grid or list(c.value) != value:
                        return '%s was not recomputed and rewritten' % (k,)


CHECKS = [check_write, check_update, check_partial]
