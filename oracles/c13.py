"""C13: linked cells"""

import numpy as np
from .lib import *


def near(a, b, L, per):
    d = b - a
    d = np.where(per, d - np.rint(d / L) * L, d)
    return np.sqrt((d * d).sum(-1))


def conf(r, d, L, n):
    x = (r.rand(n, d) - 0.5) * L
    if r.rand() < 0.3:
        # particles on the lower face, and very close to the upper one
        i, k = r.randint(n), r.randint(d)
        x[i, k] = -L[k] / 2
        i, k = r.randint(n), r.randint(d)
        x[i, k] = np.nextafter(L[k] / 2, 0) if r.rand() < 0.5 else L[k] / 2 * (1 - 1e-12)
    return x


def judge(neigh, nn, x, y, L, per, rc, one):
    n = len(x)
    got = [list(neigh[i][:nn[i]]) for i in range(n)]
    for i in range(n):
        if len(set(got[i])) != len(got[i]):
            return 'particle %d lists a neighbour twice' % i
        if any(j < 0 or j >= len(y) for j in got[i]):
            return 'neighbour out of range'
        if one and i in got[i]:
            return 'particle %d lists itself' % i
    count = {}
    for i in range(n):
        for j in got[i]:
            key = (min(i, j), max(i, j)) if one else (i, j)
            count[key] = count.get(key, 0) + 1
    for i in range(n):
        dist = near(x[i], y, L, per)
        for j in range(len(y)):
            if one and j <= i:
                continue
            if dist[j] < rc * (1 - 1e-9):
                if count.get((i, j), 0) != 1:
                    return 'pair (%d, %d) at distance %g < %g is listed %d times' % (i, j, dist[j], rc, count.get((i, j), 0))
    if any(v > 1 for v in count.values()):
        return 'a pair is listed more than once'


def far(neigh, nn, x, y, box, per, ncell, one):
    """along non-periodic directions the subcells do not wrap around"""
    for i in range(len(x)):
        for j in neigh[i][:nn[i]]:
            for k in range(len(box)):
                if not per[k] and abs(x[i, k] - y[j, k]) > 2 * box[k] / ncell[k] * (1 + 1e-9):
                    return 'particles %d and %d are not in adjacent subcells along the non-periodic direction %d' % (i, j, k)


def check_lists(params):
    from atooms.postprocessing.linkedcells import LinkedCells
    r = rng(params)
    d = int(r.choice([2, 3]))
    L = r.uniform(3, 6, d)
    rc = float(min(L) / r.uniform(3.0, 5.5))
    per = np.array([True] * d) if r.rand() < 0.6 else r.rand(d) < 0.5
    arr = bool(r.rand() < 0.5)
    lc = LinkedCells(rcut=rc)
    describe(d=d, side=L.tolist(), rcut=rc, periodic=per.tolist(), as_array=arr)
    one = bool(r.rand() < 0.5)
    passing = bool(per.all() and r.rand() < 0.5)
    newton = True
    # several calls on the same object, the cell may change
    for call in range(r.randint(1, 4)):
        if call and r.rand() < 0.7:
            f = r.uniform(1.0, 2.0 if r.rand() < 0.3 else 1.4, d)
            if r.rand() < 0.5:
                L *= f
            else:
                L = L * f
        if call and r.rand() < 0.3:
            one = not one
        if call and r.rand() < 0.3 and not passing:
            per = r.rand(d) < 0.5
        n, m = int(r.randint(2, 60)), int(r.randint(1, 60))
        x = conf(r, d, L, n)
        y = x if one else conf(r, d, L, m)
        kw = {} if passing else {'periodic': per}
        keep = x.copy(), y.copy(), L.copy()
        res = lc.compute(L, x, None if one else y, as_array=arr, **kw)
        neigh, nn = (res[0], res[1]) if arr else (res, [len(v) for v in res])
        m = first(judge(neigh, nn, x, y, L, per, rc, one),
                  far(neigh, nn, x, y, L, per, (L / rc).astype(int), one),
                  None if np.array_equal(keep[0], x) and np.array_equal(keep[1], y) and np.array_equal(keep[2], L) else 'inputs modified')
        if m:
            return 'call %d: %s' % (call + 1, m)


CHECKS = [check_lists]
