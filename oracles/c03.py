"""C03: requested times and available step differences"""

import numpy as np
from .lib import *


class Th(object):
    def __init__(self, steps, block, dt):
        self.steps, self.block_size, self.timestep = steps, block, dt

    def __len__(self):
        return len(self.steps)


def check_t_grid(params):
    from atooms.postprocessing.helpers import setup_t_grid
    r = rng(params)
    for k in range(15):
        steps, block, kind = steps_of(r, nmax=25)
        dt = float(r.choice([1.0, 0.5, 0.002, 0.1, 3.0]))
        T = steps[-1] - steps[0]
        n = r.randint(1, 10)
        times = [float(x) for x in r.uniform(0, 1.3 * T, n)] if r.rand() < 0.5 else [float(x) for x in r.randint(0, T + 4, n)]
        if r.rand() < 0.3:
            times = list(np.array(times))
        times = [t * dt for t in times]
        offset = bool(r.rand() < 0.6)
        describe(steps=steps, block=block, dt=dt, times=times, offset=offset)
        got = [tuple(int(x) for x in p) for p in setup_t_grid(Th(steps, block, dt), list(times), offset=offset)]
        what = 'setup_t_grid(steps=%s, block=%d, timestep=%s, %s, offset=%s) is %s: ' % (steps, block, dt, times, offset, got)
        F = len(steps)
        for o, i in got:
            if not (0 <= o < F and 0 <= o + i < F):
                return what + 'the frames of %s do not exist' % ((o, i),)
            if (not offset and o != 0) or not 0 <= o < max(1, block):
                return what + 'wrong offset in %s' % ((o, i),)
        d = [steps[o + i] - steps[o] for o, i in got]
        if any(x >= y for x, y in zip(d, d[1:])):
            return what + 'times are not sorted and distinct'
        # available step differences (the forward pairs of frames used by the code)
        av = set()
        for o in range(block if offset else 1):
            for i in range(o, F - o):
                av.add(steps[i] - steps[o])
        want = nearest({half_even(t / dt) for t in times}, av)
        if d != want:
            return what + 'step differences %s instead of %s' % (d, want)


def check_templated(params):
    try:
        from atooms.postprocessing.helpers import _templated
    except ImportError:
        return None
    r = rng(params)
    for k in range(30):
        entry = sorted({int(x) for x in r.randint(0, 60, r.randint(1, 15))})
        template = [int(x) for x in r.randint(-5, 70, r.randint(0, 10))]
        if r.rand() < 0.4:
            entry = [x / 2. + 0.25 for x in entry]
        describe(entry=entry, template=template)
        got = list(_templated(list(entry), list(template)))
        want = nearest(template, entry)
        if got != want:
            return '_templated(%s, %s) is %s instead of %s' % (entry, template, got, want)
        got = list(_templated(list(entry), list(template), True))
        want = sorted(nearest([t], entry)[0] for t in template)
        if got != want:
            return '_templated(%s, %s, True) is %s instead of %s' % (entry, template, got, want)


CHECKS = [check_t_grid, check_templated]
