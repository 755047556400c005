"""C05: grids"""

import math
from .lib import *


def check_linear_int(params):
    from atooms.postprocessing.helpers import linear_grid
    r = rng(params)
    for k in range(30):
        a = float(r.choice([0.0, 1.0, -2.0, r.uniform(-5, 5), 7]))
        b = a + float(r.choice([0.0, 1.0, 10.0, r.uniform(0, 20)]))
        n = int(r.choice([1, 2, 3, 4, 7, 10, 60, 101]))
        describe(a=a, b=b, n=n)
        got = linear_grid(a, b, n)
        want = [a] if n == 1 else [a + (b - a) * i / (n - 1) for i in range(n)]
        m = close(got, want)
        if m:
            return 'linear_grid(%r, %r, %r): %s' % (a, b, n, m)


def check_linear_float(params):
    from atooms.postprocessing.helpers import linear_grid
    r = rng(params)
    for k in range(30):
        a = float(r.choice([0.0, 1.0, -2.0, r.uniform(-5, 5)]))
        # away from rounding: the upper bound is not on the grid, or exactly representable
        h = float(r.choice([0.5, 0.25, 2.0, r.uniform(0.05, 3)]))
        m = r.randint(0, 30)
        frac = r.uniform(0.05, 0.95) if h not in (0.5, 0.25, 2.0) or a not in (0.0, 1.0, -2.0) or r.rand() < 0.5 else 0.0
        b = a + h * (m + frac)
        describe(a=a, b=b, h=h)
        got = linear_grid(a, b, h)
        want = [a + i * h for i in range(m + 1)]
        msg = close(got, want)
        if msg:
            return 'linear_grid(%r, %r, %r): %s' % (a, b, h, msg)


def check_logx(params):
    from atooms.postprocessing.helpers import logx_grid
    r = rng(params)
    for k in range(30):
        n = int(r.choice([1, 2, 3, 5, 10, 60]))
        if r.rand() < 0.5:
            x1 = float(r.choice([1.0, 0.1, r.uniform(1e-3, 10)]))
            x2 = x1 * float(r.choice([10.0, 1000., r.uniform(1.5, 1e4)]))
            want = [x1] + [x1 * (x2 / x1)**(j / n) for j in range(2, n + 1)]
            describe(x1=x1, x2=x2, n=n)
            got = logx_grid(x1, x2, n)
            m = close(got, want)
            if m:
                return 'logx_grid(%r, %r, %r): %s' % (x1, x2, n, m)
        else:
            x2 = float(r.choice([10.0, 1000., r.uniform(1.5, 1e4)]))
            describe(x1=0, x2=x2, n=n)
            got = logx_grid(0.0, x2, n)
            m = None
            if len(got) != n or got[0] != 0:
                m = 'start or length'
            else:
                q = [x2**(j / n) - 1 for j in range(2, n + 1)]
                ratio = [(got[i + 1] + 1) / (got[i] + 1) for i in range(1, n - 1)]
                m = close(ratio, [x2**(1.0 / n)] * len(ratio)) or (n > 1 and close(got[1:], q)) or None
            if m:
                return 'logx_grid(0, %r, %r): %s' % (x2, n, m)


CHECKS = [check_linear_int, check_linear_float, check_logx]
