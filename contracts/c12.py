"""
C12: the compiled kernels.

The Fortran text is translated at every run (vc/fortran.py); each routine is
verified for any number of particles, dimensions, bins and species.
"""

from .common import *
from . import fkern

ND, NBINS = ivar('ndims'), ivar('len_hist')
DR = rvar('dr')
N1, N2 = ivar('len_pos1'), ivar('len_pos2')
SIDE = lambda d: app('side', d)


def image(u, side):
    """The kernels subtract one side at most"""
    return u - lt0(side * T.inv(cst(2)) - fkern.vabs(u)) * side * fkern.sgn(u)


def square(x, y):
    return the_sum([ND], lambda d: image(x(d) - y(d), SIDE(d)) ** 2)


def folding(pos1, pos2, axis, names=('pos1', 'pos2')):
    """
    Definition of sqdist(i, j): the square distance of the images of particle i of
    the first set, particle j of the second one, along each direction
    """
    def fold(I, p):
        one = fkern.indices_of(p, names[0], axis)
        two = fkern.indices_of(p, names[1], axis) if names[1] != names[0] else one
        for i in one:
            for j in two:
                if (i is not j or len(one) == 1) and p is square(pos1(i), pos2(j)):
                    return sqdist(i, j, names[0] == names[1])
    return fold


def sqdist(i, j, same):
    if same and T.to_poly(i).key > T.to_poly(j).key:
        i, j = j, i
    return app('sqdist', i, j)


def binned(r, b):
    """In the bin b, counted from zero"""
    return eq0(T.floor(r * T.inv(DR)) - b)


def prove(pr):
    for name in ('gr_self_c', 'gr_self', 'gr_distinct_c', 'gr_distinct'):
        hist(pr, name)
    for name in ('gr_neighbors_self_c', 'gr_neighbors_self', 'gr_neighbors_distinct_c', 'gr_neighbors_distinct'):
        listed(pr, name)
    finder(pr)
    periodic(pr)
    overlap(pr)
    surface(pr)
    angles(pr)
    fourier(pr)
    lemmas(pr)


def implies(cond, goal):
    return ONE - cond * (ONE - goal)


def listed(pr, name):
    """Histogram of the distances of the neighbours listed"""
    same, c = '_self' in name, name.endswith('_c')
    nmax = ivar('max_neighbors')
    sh = (lambda n: (n, ND)) if c else (lambda n: (ND, n))
    at = (lambda nm: lambda i: lambda d: app(nm, i, d)) if c else (lambda nm: lambda i: lambda d: app(nm, d, i))
    other, n2 = ('pos1', N1) if same else ('pos2', N2)
    fs = [gt0(ND), ge0(N1), ge0(N2), gt0(NBINS), gt0(DR), ge0(nmax)]
    # the lists given: at most nmax neighbours, not more than there are particles, which exist
    ax = {'number': lambda i: [ge0(app('number', i, sort='int')), le0(app('number', i, sort='int') - nmax), le0(app('number', i, sort='int') - n2)]}

    for offset, first in (('C', 0), ('F', 1)):
        ax['neigh'] = lambda i, k: [ge0(app('neigh', i, k, sort='int') - first), lt0(app('neigh', i, k, sort='int') - n2 - first)]

        def run(I):
            x = array(I, 'pos1', sh(N1))
            y = [] if same else [array(I, 'pos2', sh(N2))]
            side = array(I, 'side', (ND,))
            h, b = array(I, 'hist', (NBINS,)), array(I, 'bins', (NBINS,))
            ng, num = array(I, 'neigh', (N1, nmax), 'int', 'int'), array(I, 'number', (N1,), 'int', 'int')
            fkern.FOLD[:] = [folding(at('pos1'), at(other), 0 if c else 1, ('pos1', other))]
            fkern.call(I, 'realspace', name, [offset, x] + y + [ng, num, side, N(DR, 'float'), h, b])
            return P.Tup([h, b])

        def post(I, kind, v):
            h, bins = v.items
            b = ivar(fresh('_b'))
            I.facts += [ge0(b), lt0(b - NBINS)]
            what = ' (indices from %d)' % first
            yield 'bin centers' + what, ('eq', I.at(bins, b), b * DR + DR * T.inv(cst(2)))
            r = lambda i, k: T.sqrt(sqdist(i, app('neigh', i, k, sort='int') - first, same))
            yield 'pairs in the bin' + what, ('eq', I.at(h, b), the_sum([N1, lambda i: app('number', i, sort='int')], lambda i, k: binned(r(i, k), b)))
        pr.verify('realspace.' + name, run, post, fs, axioms=ax, nonneg=('number',))


def finder(pr):
    """All and only the particles closer than the cutoff of their species, in order"""
    nsp, room = ivar('n_species'), ivar('len_neigh')
    fs = [gt0(ND), ge0(N2), gt0(nsp), ge0(room - N2)]
    for offset, first in (('C', 0), ('F', 1)):
        ids = lambda j: app('ids', j, sort='int')
        ax = {'ids': lambda j: [ge0(ids(j) - first), lt0(ids(j) - first - nsp)]}
        close = lambda j: lt0(app('sqdist', j) - app('rcut', ids(j) - first) ** 2)

        def fold(I, p):
            for j in fkern.indices_of(p, 'pos2', 1):
                if p is square(lambda d: app('center', d), lambda d: app('pos2', d, j)):
                    return app('sqdist', j)

        def run(I):
            fkern.FOLD[:] = [fold]
            ng = array(I, 'found', (room,), 'int', 'int')
            nn = fkern.call(I, 'realspace', 'neighbors', [offset, array(I, 'side', (ND,)), array(I, 'center', (ND,)), array(I, 'pos2', (ND, N2)),
                                                          array(I, 'ids', (N2,), 'int', 'int'), array(I, 'rcut', (nsp,)), N(ivar('nn'), 'int'), ng])
            return P.Tup([nn, ng])

        def post(I, kind, v):
            nn, ng = v.items
            total = the_sum([N2], close)
            what = ' (indices from %d)' % first
            yield 'number of neighbours' + what, ('eq', I.M.num(nn), total)
            k = ivar(fresh('_k'))
            nm = fresh('_j')
            I.facts += [ge0(k), lt0(k - total)]
            yield 'neighbours' + what, ('eq', I.at(ng, k), T.sel(N2, lam([nm], close(ivar(nm))), k) + first)
        pr.verify('realspace.neighbors', run, post, fs, axioms=ax)


def periodic(pr):
    fs = [gt0(ND)]
    for name in ('pbc', 'pbch'):
        def run(I):
            fkern.FOLD[:] = []
            d = array(I, 'dist', (ND,))
            h = [I.arr_fn((ND,), lambda k: SIDE(k) * T.inv(cst(2)))] if name == 'pbch' else []
            fkern.call(I, 'realspace', name, [d, array(I, 'side', (ND,))] + h)
            return d

        def post(I, kind, d):
            k = ivar(fresh('_k'))
            I.facts += [ge0(k), lt0(k - ND)]
            yield 'nearest image', ('eq', I.at(d, k), image(app('dist', k), SIDE(k)))
        pr.verify('realspace.' + name, run, post, fs)

    def run(I):
        fkern.FOLD[:] = []
        ix = array(I, 'index', (ND, N1), 'int', 'int')
        fkern.call(I, 'realspace', 'bin_in_cell', [array(I, 'pos1', (ND, N1)), I.arr_fn((ND,), lambda k: SIDE(k) * T.inv(cst(2))), array(I, 'cell', (ND,)), ix])
        return ix

    def post(I, kind, ix):
        k, p = ivar(fresh('_k')), ivar(fresh('_p'))
        I.facts += [ge0(k), lt0(k - ND), ge0(p), lt0(p - N1)]
        yield 'subcell of a particle', ('eq', I.at(ix, k, p), fkern.trunc((app('pos1', k, p) + SIDE(k) * T.inv(cst(2))) * T.inv(app('cell', k))))
    pr.verify('realspace.bin_in_cell', run, post, fs + [ge0(N1)])


def overlap(pr):
    a2 = rvar('a_square')

    def run(I):
        fkern.FOLD[:] = []
        return fkern.call(I, 'realspace', 'self_overlap', [array(I, 'pos1', (N1, ND)), array(I, 'pos2', (N1, ND)), N(a2, 'float')])

    def post(I, kind, q):
        sq = lambda i: the_sum([ND], lambda d: (app('pos1', i, d) - app('pos2', i, d)) ** 2)
        yield 'particles displaced by less than a', ('eq', I.M.num(q), the_sum([N1], lambda i: lt0(sq(i) - a2)))
    pr.verify('realspace.self_overlap', run, post, [gt0(ND), ge0(N1)])


def surface(pr):
    delta = rvar('delta')
    for name in ('on_surface', 'on_surface_c'):
        c = name.endswith('_c')

        def run(I):
            fkern.FOLD[:] = []
            return fkern.call(I, 'realspace', name, [array(I, 'pos1', (N1, ND) if c else (ND, N1)), array(I, 'side', (ND,)), N(delta, 'float')])

        def post(I, kind, m):
            p = ivar(fresh('_p'))
            I.facts += [ge0(p), lt0(p - N1)]
            x = lambda d: app('pos1', p, d) if c else app('pos1', d, p)
            far = lambda d: lt0(SIDE(d) * T.inv(cst(2)) - delta - fkern.vabs(x(d)))
            yield 'mask of all the particles', ('eq', I.state(m).shape[0], N1)
            yield 'close to the surface', ('eq', I.at(m, p), ONE - eq0(the_sum([ND], far)))
        pr.verify('realspace.' + name, run, post, [gt0(ND), ge0(N1)])


def angles(pr):
    """Ordered pairs of different neighbours, binned by their angle"""
    n, dth = ivar('n_neighbors'), rvar('dtheta')
    pi = rvar('pi')
    fs = [gt0(ND), ge0(N2), ge0(n), gt0(NBINS), gt0(dth), gt0(pi)]
    neigh = lambda j: app('neigh', j, sort='int')
    ax = {'neigh': lambda j: [ge0(neigh(j)), lt0(neigh(j) - N2)]}
    vec = lambda j: lambda d: image(app('center', d) - app('pos2', d, j), SIDE(d))

    def fold(I, p):
        js = fkern.indices_of(p, 'pos2', 1)
        for i in js:
            for j in js:
                if p is the_sum([ND], lambda d: vec(i)(d) * vec(j)(d)):
                    return app('sqdist', i) if i is j else dot(i, j)

    def angle(I, p):
        """Definition of angle(i, j): that of the cosine, between -1 and 1"""
        js = [j for n in ('dot', 'sqdist') for j in fkern.indices_of(p, n, 0)]
        for i in js:
            for j in js:
                if i is not j and I.known(eq0(p - clip(cosine(i, j))), 10.0):
                    return app('angle', *sorted((T.to_poly(i), T.to_poly(j)), key=lambda x: x.key))

    def cosine(i, j):
        return dot(i, j) * T.inv(T.sqrt(app('sqdist', i)) * T.sqrt(app('sqdist', j)))

    def dot(i, j):
        i, j = T.to_poly(i), T.to_poly(j)
        return app('dot', *((i, j) if i.key <= j.key else (j, i)))

    def angles_of(i, j):
        return app('angle', *sorted((T.to_poly(i), T.to_poly(j)), key=lambda x: x.key))

    def run(I):
        fkern.FOLD[:] = [fold]
        fkern.ACOS[:] = [angle]
        h = array(I, 'hist', (NBINS,), 'int', 'int')
        fkern.call(I, 'realspace', 'bond_angle', [array(I, 'center', (ND,)), array(I, 'pos2', (ND, N2)), array(I, 'neigh', (n,), 'int', 'int'),
                                                  array(I, 'side', (ND,)), N(dth, 'float'), h])
        return h

    def post(I, kind, h):
        b = ivar(fresh('_b'))
        I.facts += [ge0(b), lt0(b - NBINS)]

        def one(j, k):
            i, l = neigh(j), neigh(k)
            prod = T.sqrt(app('sqdist', i)) * T.sqrt(app('sqdist', l))
            theta = angles_of(i, l) * 180 * T.inv(pi)
            return (ONE - eq0(i - l)) * (ONE - eq0(prod)) * eq0(T.floor(theta * T.inv(dth)) - b)
        yield 'pairs of neighbours in the bin', ('eq', I.at(h, b), the_sum([n, n], one))
    pr.verify('realspace.bond_angle', run, post, fs, axioms=ax, nonneg=('acos', 'angle'))


def clip(c):
    """Between -1 and 1"""
    return c + lt0(c + 1) * (-1 - c) + gt0(c - 1) * (1 - c)


def fourier(pr):
    npart, nk, nvec, nt = ivar('npart'), ivar('nkgrid'), ivar('nvec'), ivar('nsteps')
    t1, t2 = ivar('t1'), ivar('t2')
    ik = lambda *a: app('ik', *a, sort='int')
    ax = {'ik': lambda *a: [gt0(ik(*a)), le0(ik(*a) - nk)]}
    fs = [ge0(npart), gt0(nk), ge0(nvec), gt0(nt), gt0(t1), gt0(t2), le0(t1 - nt), le0(t2 - nt)]
    ph = lambda *a: app('phase', *a)

    def run(I):
        fkern.FOLD[:] = []
        rho = array(I, 'rho', (nvec,), 'complex')
        e = I.arr_fn((npart, cst(3), nk), lambda p, d, k: T.expi(ph(p, d, k)), 'complex')
        fkern.call(I, 'fourierspace', 'sk_bare', [e, array(I, 'ik', (cst(3), nvec), 'int', 'int'), rho])
        return rho

    def post(I, kind, rho):
        v = ivar(fresh('_v'))
        I.facts += [ge0(v), lt0(v - nvec)]
        yield 'Fourier component of the density', ('eq', I.at(rho, v), the_sum([npart], lambda p: T.expi(T.addn(
            [ph(p, cst(d), ik(cst(d), v) - 1) for d in range(3)]))))
    pr.verify('fourierspace.sk_bare', run, post, fs, axioms=ax)
    for name, dims in (('fskt_kernel_2d', (2,)), ('fskt_kernel_3d', (3,)), ('fskt_kernel_nd', (1, 2, 3, 4))):
        for nd in dims:
            def run(I):
                fkern.FOLD[:] = []
                e = I.arr_fn((nt, npart, cst(nd), nk), lambda t, p, d, k: T.expi(ph(t, p, d, k)), 'complex')
                return fkern.call(I, 'fourierspace', name, [e, N(t1, 'int'), N(t2, 'int'), array(I, 'ik', (cst(nd),), 'int', 'int')])

            def post(I, kind, v):
                spec = the_sum([npart], lambda p: T.expi(T.addn([ph(t1 - 1, p, cst(d), ik(cst(d)) - 1) - ph(t2 - 1, p, cst(d), ik(cst(d)) - 1)
                                                                 for d in range(nd)])))
                yield '%dd: self correlation' % nd, ('eq', I.M.num(v), spec)
            pr.verify('fourierspace.' + name, run, post, fs, axioms=ax)


def lemmas(pr):
    u, l, t, a = rvar('u'), rvar('l'), rvar('shift'), rvar('a')
    half = T.inv(cst(2))
    img = u - l * lt0(l * half - u) + l * lt0(u + l * half)
    # the shift is a multiple of the side
    for case, f in (('', eq0(t)), (' (right)', eq0(t - l)), (' (left)', eq0(t + l)), (' (beyond, right)', ge0(t - l * 2)), (' (beyond, left)', le0(t + l * 2))):
        fs = [gt0(l), f, lt0(u - l * 3 * half), gt0(u + l * 3 * half), ge0(a - u + t), ge0(a + u - t)]
        pr.lemma('nearest image: no other image is closer' + case, le0(img - a) * le0(-img - a), fs)
    r, b = rvar('r'), ivar('b')
    pr.lemma('bin: distances from b dr to (b + 1) dr', ('eq', binned(r, b), ge0(r - b * DR) * lt0(r - (b + 1) * DR)), [gt0(DR), ge0(r)])
    pr.lemma('bin: smaller than the largest distance', lt0(r - DR * NBINS), [gt0(DR), ge0(b), lt0(b - NBINS), lt0(r - (b + 1) * DR)])


def hist(pr, name):
    same, c = 'self' in name, name.endswith('_c')
    sh = (lambda n: (n, ND)) if c else (lambda n: (ND, n))
    at = (lambda nm: lambda i: lambda d: app(nm, i, d)) if c else (lambda nm: lambda i: lambda d: app(nm, d, i))
    fs = [gt0(ND), ge0(N1), ge0(N2), gt0(NBINS), gt0(DR)]
    pos1, pos2 = at('pos1'), at('pos2')

    def run(I):
        x = array(I, 'pos1', sh(N1))
        y = [] if same else [array(I, 'pos2', sh(N2))]
        side = array(I, 'side', (ND,))
        h, b = array(I, 'hist', (NBINS,)), array(I, 'bins', (NBINS,))
        fkern.FOLD[:] = [folding(pos1, pos1 if same else pos2, 0 if c else 1, ('pos1', 'pos1' if same else 'pos2'))]
        fkern.call(I, 'realspace', name, [x] + y + [side, N(DR, 'float'), h, b])
        return P.Tup([h, b])

    def post(I, kind, v):
        h, bins = v.items
        b = ivar(fresh('_b'))
        I.facts += [ge0(b), lt0(b - NBINS)]
        yield 'bin centers', ('eq', I.at(bins, b), b * DR + DR * T.inv(cst(2)))
        r = lambda i, j: T.sqrt(sqdist(i, j, same))
        one = lambda i, j: binned(r(i, j), b) * lt0(r(i, j) - DR * NBINS)
        if same:
            spec = the_sum([N1, lambda i: N1 - 1 - i], lambda i, m: one(i, i + m + 1))
        else:
            spec = the_sum([N1, N2], one)
        yield 'pairs in the bin', ('eq', I.at(h, b), spec)
    pr.verify('realspace.' + name, run, post, fs)
