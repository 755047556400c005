"""C12: compiled kernels"""

import math
import numpy as np
from .lib import *


def kern():
    from atooms.postprocessing.realspace_wrap import compute
    return compute


def image(dx, L):
    """nearest image along each direction, for differences smaller than 3/2 of the side"""
    out = dx.copy()
    big = np.abs(dx) > L / 2
    out[big] -= (np.sign(dx) * L)[big]
    return out


def positions(r, n, d, L, far=True):
    x = (r.rand(n, d) - 0.5) * L
    if far and r.rand() < 0.5:
        x = x * 1.5 * 0.999       # differences up to 3/2 of the side
    if r.rand() < 0.2 and n > 1:
        x[0] = x[n - 1]
    return x


def dists(x, y, L):
    return np.array([[math.sqrt((image(b - a, L)**2).sum()) for b in y] for a in x]).reshape(len(x), len(y))


def case(r):
    d = int(r.choice([2, 3]))
    L = r.uniform(1, 4, d)
    n, m = int(r.randint(1, 14)), int(r.randint(1, 14))
    x, y = positions(r, n, d, L), positions(r, m, d, L)
    dr = float(r.choice([0.1, 0.35, 0.03]))
    nb = int(r.randint(1, 40))
    describe(n=n, m=m, d=d, side=L.tolist(), dr=dr, nbins=nb)
    return d, L, x, y, dr, nb


def binned(q, nb):
    out = np.zeros(nb, dtype=int)
    for v in q:
        if abs(v - round(v)) < 1e-8 and round(v) != 0:
            return None
        b = int(math.floor(v))
        if b < nb:
            out[b] += 1
    return out


def lists(r, n, m, selfterm):
    """random neighbour lists, the rest of the array is never to be read"""
    nn = r.randint(0, m + 1, n) if not selfterm else np.array([r.randint(0, m) for _ in range(n)])
    cols = max(1, int(nn.max()))
    neigh = np.full((n, cols), 10**6, dtype=int)
    for i in range(n):
        pool = [j for j in range(m) if not selfterm or j != i]
        k = min(int(nn[i]), len(pool))
        nn[i] = k
        neigh[i, :k] = r.permutation(pool)[:k]
    return neigh, nn.astype(int)


def fenced(n, dtype, r):
    """an array with guard cells around"""
    big = np.full(n + 40, 7, dtype=dtype)
    return big, big[20:20 + n]


def run_hist(r, call, q, dr, nb, inputs, what):
    """hist and bins are set whatever they hold, inputs and guards stay"""
    spec = binned(q / dr, nb)
    if spec is None:
        return None
    hb, hist = fenced(nb, int, r)
    bb, bins = fenced(nb, float, r)
    hist[:] = r.randint(0, 1000, nb)
    bins[:] = r.rand(nb)
    keep = [a.copy() for a in inputs]
    call(hist, bins)
    return first(
        tag(close(hist, spec), what + ': counts'), tag(close(bins, dr * (np.arange(nb) + 0.5)), what + ': bins'),
        None if (hb[:20] == 7).all() and (hb[20 + nb:] == 7).all() and (bb[:20] == 7).all() and (bb[20 + nb:] == 7).all()
        else what + ': write out of bounds',
        None if all(np.array_equal(a, b) for a, b in zip(keep, inputs)) else what + ': inputs modified')


def check_self(params):
    r = rng(params)
    d, L, x, y, dr, nb = case(r)
    D = dists(x, x, L)
    iu = np.triu_indices(len(x), 1)
    return run_hist(r, lambda h, b: kern().gr_self_c(x, L, dr, h, b), D[iu], dr, nb, [x, L], 'gr_self_c')


def check_distinct(params):
    r = rng(params)
    d, L, x, y, dr, nb = case(r)
    return run_hist(r, lambda h, b: kern().gr_distinct_c(x, y, L, dr, h, b), dists(x, y, L).ravel(), dr, nb, [x, y, L], 'gr_distinct_c')


def check_neighbors_self(params):
    r = rng(params)
    d, L, x, y, dr, nb = case(r)
    neigh, nn = lists(r, len(x), len(x), True)
    D = dists(x, x, L)
    q = np.array([D[i, neigh[i, k]] for i in range(len(x)) for k in range(nn[i])])
    return run_hist(r, lambda h, b: kern().gr_neighbors_self_c('C', x, neigh, nn, L, dr, h, b), q, dr, nb, [x, L, neigh, nn], 'gr_neighbors_self_c')


def check_neighbors_distinct(params):
    r = rng(params)
    d, L, x, y, dr, nb = case(r)
    neigh, nn = lists(r, len(x), len(y), False)
    D = dists(x, y, L)
    q = np.array([D[i, neigh[i, k]] for i in range(len(x)) for k in range(nn[i])])
    return run_hist(r, lambda h, b: kern().gr_neighbors_distinct_c('C', x, y, neigh, nn, L, dr, h, b), q, dr, nb,
                    [x, y, L, neigh, nn], 'gr_neighbors_distinct_c')


def check_neighbors(params):
    r = rng(params)
    d, L, x, y, dr, nb = case(r)
    nsp = int(r.randint(1, 4))
    ids = r.randint(0, nsp, len(y)).astype(np.int32)
    rcut = r.uniform(0.2, 2.0, nsp)
    nn = np.array(0, dtype=np.int32)
    big, neigh = fenced(len(y), np.int32, r)
    yt = np.asfortranarray(y.T)
    keep = [a.copy() for a in (x, yt, ids, rcut, L)]
    kern().neighbors('C', L, x[0], yt, ids, rcut, nn, neigh)
    q = dists(x[:1], y, L)[0]
    if (abs(q - rcut[ids]) < 1e-9).any():
        return None
    spec = [j for j in range(len(y)) if q[j] < rcut[ids[j]]]
    return first(
        None if int(nn) == len(spec) and list(neigh[:int(nn)]) == spec else 'neighbors: %s instead of %s' % (list(neigh[:int(nn)]), spec),
        None if (big[:20] == 7).all() and (big[20 + len(y):] == 7).all() else 'neighbors: write out of bounds',
        None if all(np.array_equal(a, b) for a, b in zip(keep, (x, yt, ids, rcut, L))) else 'neighbors: inputs modified')


def check_pbc(params):
    r = rng(params)
    d = int(r.choice([1, 2, 3]))
    L = r.uniform(1, 4, d)
    x = r.uniform(-1.49, 1.49, d) * L
    describe(x=x.tolist(), side=L.tolist())
    y = x.copy()
    kern().pbc(y, L)
    z = x.copy()
    kern().pbch(z, L, L / 2)
    s = image(x, L)
    return first(tag(close(y, s), 'pbc'), tag(close(z, s), 'pbch'),
                 None if (abs(y) <= L / 2 * (1 + 1e-12)).all() else 'not the nearest image')


def check_overlap(params):
    r = rng(params)
    d = int(r.choice([1, 2, 3]))
    n = int(r.randint(1, 15))
    x = r.rand(n, d)
    y = x + r.uniform(-0.3, 0.3, (n, d))
    a2 = float(r.uniform(0.01, 0.15))
    describe(n=n, d=d, a2=a2)
    kx, ky = x.copy(), y.copy()
    q = kern().self_overlap(x, y, np.array(a2))
    s = int((((x - y)**2).sum(1) < a2).sum())
    return first(tag(close(q, s), 'self_overlap'), None if np.array_equal(x, kx) and np.array_equal(y, ky) else 'inputs modified')


def check_surface(params):
    r = rng(params)
    d = int(r.choice([2, 3]))
    n = int(r.randint(1, 15))
    L = r.uniform(1, 4, d)
    x = (r.rand(n, d) - 0.5) * L
    delta = float(r.uniform(0.05, 0.5))
    describe(n=n, d=d, delta=delta)
    m = np.asarray(kern().on_surface_c(x, L, delta)) != 0
    return tag(close(m.astype(int), (np.abs(x) > L / 2 - delta).any(1).astype(int)), 'on_surface_c')


def check_angle(params):
    r = rng(params)
    d, L, x, y, dr, nb = case(r)
    dt = float(r.choice([4.0, 7.0, 30.0]))
    nbins = int(180 / dt) + 1 if r.rand() < 0.7 else int(r.randint(1, 20))
    neigh = r.permutation(len(y))[:r.randint(0, len(y) + 1)].astype(np.int32)
    yt = np.asfortranarray(y.T)
    big, hist = fenced(nbins, np.int32, r)
    hist[:] = 99
    kern().bond_angle(x[0], yt, neigh, L, dt, hist)
    spec = np.zeros(nbins, dtype=int)
    for j in neigh:
        for k in neigh:
            if j == k:
                continue
            a, b = image(x[0] - y[j], L), image(x[0] - y[k], L)
            p = math.sqrt((a * a).sum()) * math.sqrt((b * b).sum())
            if p == 0:
                continue
            th = math.degrees(math.acos(max(-1, min(1, (a * b).sum() / p))))
            if abs(th / dt - round(th / dt)) < 1e-6:
                return None
            m = int(math.floor(th / dt))
            if m < nbins:
                spec[m] += 1
    return first(tag(close(hist, spec), 'bond_angle'), None if (big[:20] == 7).all() and (big[20 + nbins:] == 7).all() else 'write out of bounds')


def guard2(n, m, dtype, order='C'):
    """n x m array inside a larger buffer"""
    big = np.full(n * m + 80, 7, dtype=dtype)
    return big, big[40:40 + n * m].reshape((n, m), order=order)


def guards(big, n):
    return (big[:40] == 7).all() and (big[40 + n:] == 7).all()


def check_edge(params):
    """distances that rounding puts in the bin after the last one"""
    r = rng(params)
    d = int(r.choice([2, 3]))
    L = np.full(d, 1000.)
    dr, nb, s = [(0.275, 165, 45.375), (0.1, 3, 0.30000000000000004), (0.7, 9, 6.3)][r.randint(3)]
    which = int(r.randint(8))
    describe(which=which, dr=dr, nbins=nb, distance=s)
    for s in (np.nextafter(s, 0), s, np.nextafter(s, 1e9)):
        x = np.zeros((2, d))
        x[1, 0] = s
        neigh, nn = np.array([[1], [0]]), np.array([1, 0])
        big, hist = guard2(1, nb, int)
        bins = np.zeros(nb)
        hist[:] = 5
        h = hist[0]
        f = lambda a: np.asfortranarray(a.T)
        k = kern()
        [lambda: k.gr_self_c(x, L, dr, h, bins), lambda: k.gr_distinct_c(x[:1], x[1:], L, dr, h, bins),
         lambda: k.gr_self(f(x), L, dr, h, bins), lambda: k.gr_distinct(f(x[:1]), f(x[1:]), L, dr, h, bins),
         lambda: k.gr_neighbors_self_c('C', x, neigh, nn, L, dr, h, bins),
         lambda: k.gr_neighbors_distinct_c('C', x[:1], x, neigh[:1], nn[:1], L, dr, h, bins),
         lambda: k.gr_neighbors_self('C', f(x), neigh, nn, L, dr, h, bins),
         lambda: k.gr_neighbors_distinct('C', f(x[:1]), f(x), neigh[:1], nn[:1], L, dr, h, bins)][which]()
        if not guards(big, nb):
            return 'write past the end of the histogram (kernel %d)' % which
        if h.sum() > 1 or (h[:-1] != 0).any() or (s < dr * nb * (1 - 1e-12) and h.sum() != 1):
            return 'pair at distance %r counted in %s' % (s, np.nonzero(h)[0])
    return None


def check_transposed(params):
    """kernels for arrays of shape (d, n)"""
    r = rng(params)
    d, L, x, y, dr, nb = case(r)
    f = lambda a: np.asfortranarray(a.T)
    a, b = f(x), f(y)
    iu = np.triu_indices(len(x), 1)
    Ds, Dd = dists(x, x, L), dists(x, y, L)
    ns, ms = lists(r, len(x), len(x), True)
    nd, md = lists(r, len(x), len(y), False)
    gs, gd = np.asfortranarray(ns), np.asfortranarray(nd)
    qs = np.array([Ds[i, ns[i, k]] for i in range(len(x)) for k in range(ms[i])])
    qd = np.array([Dd[i, nd[i, k]] for i in range(len(x)) for k in range(md[i])])
    k = kern()
    return first(
        run_hist(r, lambda h, c: k.gr_self(a, L, dr, h, c), Ds[iu], dr, nb, [a, L], 'gr_self'),
        run_hist(r, lambda h, c: k.gr_distinct(a, b, L, dr, h, c), Dd.ravel(), dr, nb, [a, b, L], 'gr_distinct'),
        run_hist(r, lambda h, c: k.gr_neighbors_self('C', a, gs, ms, L, dr, h, c), qs, dr, nb, [a, L, gs, ms], 'gr_neighbors_self'),
        run_hist(r, lambda h, c: k.gr_neighbors_distinct('C', a, b, gd, md, L, dr, h, c), qd, dr, nb, [a, b, L, gd, md],
                 'gr_neighbors_distinct'))


def check_lists(params):
    """lists of neighbours of all the particles"""
    r = rng(params)
    d, L, x, y, dr, nb = case(r)
    nsp = int(r.randint(1, 4))
    ids = r.randint(0, nsp, len(x)).astype(np.int32)
    rcut = r.uniform(0.2, 1.5, (nsp, nsp))
    rcut = np.asfortranarray(rcut + rcut.T)
    f = lambda a: np.asfortranarray(a.T)
    D = dists(x, x, L)
    if (abs(D - rcut[np.ix_(ids, ids)]) < 1e-9).any():
        return None
    close_by = D < rcut[np.ix_(ids, ids)]
    n = len(x)
    big, neigh = guard2(n, n, np.int32, 'F')
    nn = np.zeros(n, dtype=np.int32)
    kern().neighbors_list('C', L, f(x), ids + 1, rcut, nn, neigh)
    got = [sorted(neigh[i, :nn[i]]) for i in range(n)]
    spec = [[j for j in range(n) if j != i and close_by[i, j]] for i in range(n)]
    return first(None if guards(big, n * n) else 'neighbors_list: write out of bounds',
                 None if got == spec else 'neighbors_list: %s instead of %s' % (got, spec))


def check_lists_distinct(params):
    """lists of neighbours among other particles"""
    r = rng(params)
    d, L, x, y, dr, nb = case(r)
    nsp = int(r.randint(1, 4))
    n, m = len(x), len(y)
    ids = r.randint(0, nsp, max(n, m)).astype(np.int32)
    rcut = r.uniform(0.2, 1.5, (nsp, nsp))
    rcut = np.asfortranarray(rcut + rcut.T)
    f = lambda a: np.asfortranarray(a.T)
    D = dists(x, y, L)
    R = rcut[np.ix_(ids[:n], ids[:m])]
    if (abs(D - R) < 1e-9).any():
        return None
    big, neigh = guard2(n, m, np.int32, 'F')
    nb_, nn = fenced(n, np.int32, r)
    kern().neighbors_list_distinct('C', L, f(x), f(y), ids + 1, rcut, nn, neigh)
    spec = [[j for j in range(m) if D[i, j] < R[i, j]] for i in range(n)]
    got = [sorted(neigh[i, :nn[i]]) for i in range(n)]
    return first(None if guards(big, n * m) and (nb_[:20] == 7).all() and (nb_[20 + n:] == 7).all()
                 else 'neighbors_list_distinct: write out of bounds',
                 None if got == spec else 'neighbors_list_distinct: %s instead of %s' % (got, spec))


CHECKS = [check_self, check_distinct, check_neighbors_self, check_neighbors_distinct, check_neighbors, check_pbc, check_overlap,
          check_surface, check_angle, check_edge, check_transposed, check_lists, check_lists_distinct]
