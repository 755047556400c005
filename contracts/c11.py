"""
C11: the radial distribution function.

The frames have the same numbers of particles and the same cell, periodic in
all directions.  The kernels that fill the histograms are their contracts
(C12); the neighbours of the linked cells are abstract: the histogram of the
pairs they list is that of all the pairs in the bins below their cutoff (C13).
"""

from .world import *

N0, N1 = ivar('len_group0'), ivar('len_group1')
DR, RMAX, VOL = rvar('dr'), rvar('rmax'), rvar('volume')
NB = ivar('len_bins')
SIDE = lambda d: app('side', d)
PI = None


def sides(nd):
    return [SIDE(cst(d)) for d in range(nd)]


def facts(nd):
    return [gt0(F), gt0(SKIP), gt0(N0 - 1), gt0(N1 - 1), gt0(DR), gt0(VOL), gt0(NB - 1)] + [gt0(s) for s in sides(nd)]


def distance(nd, x, y):
    """Distance to the nearest image"""
    def comp(d):
        u = x(d) - y(d)
        return u - app('rint', u * T.inv(SIDE(cst(d))), sort='int') * SIDE(cst(d))
    return T.sqrt(T.addn([comp(d) ** 2 for d in range(nd)]))


def pos(g):
    return lambda f, p, d: app('pos%d' % g, f, p, T.to_poly(d))


def within(r, b):
    """Distance r in the bin b"""
    return ge0(r - b * DR) * lt0(r - (b + 1) * DR)


def count(nd, same, fast, f, b):
    """Pairs of frame f in the bin b"""
    x, y = pos(0), pos(0 if same else 1)
    if fast:
        return app('npairs', f, b)
    r = lambda i, j: distance(nd, lambda d: y(f, j, d), lambda d: x(f, i, d))
    if same:
        return mk_pairs(lambda i, j: within(r(i, j), b), N0)
    return the_sum([N0, N1], lambda i, j: within(r(i, j), b))


def mk_pairs(f, n):
    """Sum over the pairs i < j < n"""
    return the_sum([n - 1, lambda i: n - i - 1], lambda i, m: f(i, i + m + 1))


def cell(nd):
    def side(I):
        return array(I, 'side', (cst(nd),))
    return lambda I: P.Sym('cell', {'side': side, 'volume': lambda I: N(VOL, 'float'),
                                    'periodic': lambda I: I.arr_fn((cst(nd),), lambda d: ONE, 'bool')}, key=ONE)


def the_trajectory(nd):
    def fr(I, i, attrs=None):
        return P.Sym('frame', {'cell': cell(nd), 'number_of_dimensions': lambda I: N(cst(nd), 'int'),
                               'particle': lambda I: I.list_fn(N0, lambda p: P.Opq(app('particle', i, p, sort='obj')))},
                     key=T.to_poly(i), ops={'rekey': lambda k: fr(I, k)})
    return fr


def positions(I, name, n, nd):
    f, p, a = fresh('_f'), fresh('_p'), fresh('_a')
    oid = I.new_oid()
    I.heap[oid] = P.St('arr', (f,), shape=(n, cst(nd)), names=(p, a), body=app(name, ivar(f), ivar(p), ivar(a)), dtype='float')
    return I.list_fn(F, lambda k: P.Ref(oid, [k]))


def shell(nd, b):
    from vc import models as M
    lo, hi = b * DR, (b + 1) * DR
    pi = rvar('pi')
    return pi * (hi ** 2 - lo ** 2) if nd == 2 else cst(4) * pi * (hi ** 3 - lo ** 3) * T.inv(cst(3))


def kernels(nd, same):
    def sizes(I, a, n):
        s = I.state(a).shape
        I.oblige('kernel: number of particles', eq0(s[0] - n))
        I.oblige('kernel: dimensions', eq0(s[1] - nd))

    def check_side(I, box):
        for d in range(nd):
            I.oblige('kernel: side of the cell', eq0(I.at(box, cst(d)) - SIDE(cst(d))))

    def fill(I, x, y, newton, dr, hist, bins, side, upto=None):
        from vc import models as M
        check_side(I, side)
        dr = M.num(dr)
        sb = I.state(bins).shape[0]
        I.oblige('kernel: bins and histogram of the same size', eq0(I.state(hist).shape[0] - sb))
        nx, ny = I.state(x).shape[0], I.state(y).shape[0]
        # the number of pairs of the frame with minimum-image distance in [b dr, (b+1) dr) is called `npairs`
        I.oblige('kernel: width of the bins', eq0(dr - DR))
        p = ivar(fresh('_p'))
        for z, g in ((x, 0), (y, 0 if same else 1)):
            if len(z.args) != 1:
                raise P.Unsupported('kernel called with other positions')
            for d in range(nd):
                I.oblige('kernel: positions of the frame', eq0(I.at(z, p, cst(d)) - pos(g)(x.args[0], p, d)))
        if newton:
            I.oblige('kernel: pairs of one group', ONE if same else ZERO)
        else:
            I.oblige('kernel: pairs of two groups', ZERO if same else ONE)
        b = ivar(I.state(hist).names[0])
        body = app('npairs', x.args[0], b)
        if upto is not None:
            low = le0((b + 1) * dr - upto)
            body = low * body + (1 - low) * app('listed', b)
        I.store_arr(hist, body)
        c = ivar(I.state(bins).names[0])
        I.store_arr(bins, c * dr + dr * T.inv(cst(2)))

    def self_c(I, a, k):
        x, side, dr, hist, bins = a
        fill(I, x, x, True, dr, hist, bins, side)

    def distinct_c(I, a, k):
        x, y, side, dr, hist, bins = a
        fill(I, x, y, False, dr, hist, bins, side)

    def listed(I, nn, num, *pos):
        c = nn.key
        I.oblige('neighbours: those of the linked cells', ONE if nn.name == 'neighbors' and num.name == 'numbers' and nn.key is num.key else ZERO)
        I.oblige('neighbours: of the same positions', ONE if len(nn.ops['of']) == len(pos) and all(P.veq_syn(p, q) for p, q in zip(pos, nn.ops['of'])) else ZERO)
        return nn.ops['upto']

    def neighbors_self(I, a, k):
        off, x, nn, num, side, dr, hist, bins = a
        I.oblige('indices from zero', ONE if off == 'C' else ZERO)
        fill(I, x, x, True, dr, hist, bins, side, listed(I, nn, num, x))

    def neighbors_distinct(I, a, k):
        off, x, y, nn, num, side, dr, hist, bins = a
        I.oblige('indices from zero', ONE if off == 'C' else ZERO)
        fill(I, x, y, False, dr, hist, bins, side, listed(I, nn, num, x, y))
    return {'gr_self_c': self_c, 'gr_distinct_c': distinct_c, 'gr_neighbors_self_c': neighbors_self, 'gr_neighbors_distinct_c': neighbors_distinct}


def linked_cells(nd):
    def make(I, args, kw):
        from vc import models as M
        rcut = M.num((list(args) + [kw.get('rcut')])[0])

        def compute(I, a, k):
            box, x = a[0], a[1]
            other = a[2] if len(a) > 2 else k.get('other')
            I.oblige('linked cells: as arrays, of a periodic cell', ONE if k.get('as_array') and 'newton' not in k else ZERO)
            I.oblige('linked cells: as arrays', I.truth_poly(k.get('as_array', False)))
            if k.get('periodic') is not None:
                for d in range(nd):
                    I.oblige('linked cells: periodic', eq0(I.at(k['periodic'], cst(d)) - 1))
            for d in range(nd):
                I.oblige('linked cells: side of the cell', eq0(I.at(box, cst(d)) - SIDE(cst(d))))
                I.oblige('linked cells: at least three along each side', ge0(I.at(box, cst(d)) - 3 * rcut))
            I.oblige('linked cells: positive cutoff', gt0(rcut))
            res = []
            for nm in ('neighbors', 'numbers'):
                s = P.Sym(nm, {}, key=app('neighbors', rcut, sort='obj'), ops={})
                s.ops['rekey'] = lambda k, s=s: s
                s.ops.update(upto=rcut, of=[x] if other is None else [x, other])
                res.append(s)
            return P.Tup(res)
        return P.Sym('cells', {'compute': lambda I: P.Bi('compute', compute)}, key=app('cells', rcut, sort='obj'),
                     ops={'rekey': lambda k: make(I, args, kw)})
    return make


def linear(nd, cut):
    """C05: dr/2 + i dr, for all i such that this does not exceed the upper bound"""
    def linear_grid(I, env):
        a, b, d = [M_num(env[x]) for x in ('min_val', 'max_val', 'delta')]
        I.oblige('grid of distances: from half a bin', eq0(a * 2 - DR))
        I.oblige('grid of distances: bins', eq0(d - DR))
        # an rmax beyond the largest distance in the cell adds only empty bins: not required
        for s in sides(nd):
            if cut:
                I.oblige('grid of distances: not less than rmax or the sides', either(le0(RMAX - b), le0(s - b)))
            else:
                I.oblige('grid of distances: not less than the sides', le0(s - b))
        return I.list_fn(NB, lambda j: N(a + j * d, 'float'))
    return linear_grid


def either(p, q):
    return p + q - p * q


def prove(pr):
    for cls, nm in (('RadialDistributionFunctionFast', 'fast'), ('RadialDistributionFunctionLegacy', 'legacy')):
        for nd in (2, 3):
            for same in (True, False):
                for cut in ((None, 'rmax')):
                    one(pr, cls, nd, same, cut)
    pairs(pr)
    kernel(pr)
    lemmas(pr)


def histograms(nd, same):
    """Contracts of pairs_newton_hist, pairs_hist, and of the edges of the bins"""
    def hist(newton):
        def fill(I, env):
            f, x, y, L, bins = [env[k] for k in ('f', 'x', 'y', 'L', 'bins')]
            I.oblige('histogram: of the distances', ONE if getattr(f, 'name', getattr(f, 'qual', '')).endswith('gr_kernel') else ZERO)
            for d in range(nd):
                I.oblige('histogram: side of the cell', eq0(I.at(L, cst(d)) - SIDE(cst(d))))
            p = ivar(fresh('_p'))
            for z, g in ((x, 0), (y, 0 if same else 1)):
                if len(z.args) != 1:
                    raise P.Unsupported('histogram of other positions')
                for d in range(nd):
                    I.oblige('histogram: positions of the frame', eq0(I.at(z, p, cst(d)) - pos(g)(x.args[0], p, d)))
            I.oblige('histogram: each pair once', ONE if newton == same else ZERO)
            q = ivar(fresh('_q'))
            I.oblige('histogram: edges of the bins', eq0(I.state(bins).shape[0] - NB - 1))
            I.oblige('histogram: edges of the bins', eq0(I.at(bins, q) - q * DR))
            return I.arr_fn((NB,), lambda b: app('npairs', x.args[0], b), 'int')
        return fill

    def edges(I, args, kw):
        x = args[0]
        bins = args[1] if len(args) > 1 else kw['bins']
        I.oblige('edges: of no data', eq0(I.length(x)))
        n = I.length(bins)
        I.oblige('edges: number', eq0(n - NB - 1))
        q = ivar(fresh('_q'))
        keep = list(I.facts)
        for case, at, under in (('', q, [ge0(q), lt0(q - NB)]), (' (last)', NB, [])):
            I.facts = keep + under
            I.oblige('edges: multiples of dr' + case, eq0(I.M.num(item(I, bins, at)) - at * DR))
        I.facts = keep
        return P.Tup([I.arr_fn((NB,), lambda b: ZERO, 'int'), I.arr_fn((NB + 1,), lambda b: b * DR, 'float')])
    return {'gr.pairs_newton_hist': hist(True), 'gr.pairs_hist': hist(False)}, {('numpy', 'histogram'): P.Bi('histogram', edges)}


def pairs(pr):
    """The histograms of the pairs, of any function of the positions of a pair"""
    n, nb = ivar('len_y'), ivar('nbins')
    edge = lambda b: app('edge', b)
    inside = lambda r, b: ge0(r - edge(b)) * lt0(r - edge(b + 1)) + eq0(b - nb + 1) * eq0(r - edge(b + 1))

    def f(I, args, kw):
        xs, yi, L = args
        s = I.state(xs).shape
        return I.arr_fn((s[0],), lambda k: app('fun', I.at(xs, k, ZERO), I.at(yi, ZERO)), 'float')

    for name in ('pairs_newton_hist', 'pairs_hist'):
        newton = 'newton' in name
        m = n if newton else ivar('len_x')
        fs = [gt0(n), gt0(m), gt0(nb)]

        def run(I):
            x = array(I, 'xs', (m, ONE))
            y = array(I, 'ys', (n, ONE))
            L = array(I, 'side', (ONE,))
            bins = I.arr_fn((nb + 1,), lambda b: edge(b), 'float')
            return I.call(I.module('gr').get(name), [P.Bi('f', f), x, y, L, bins])

        def post(I, kind, h):
            b = ivar(fresh('_b'))
            I.facts += [ge0(b), lt0(b - nb), gt0(edge(b + 1) - edge(b))]
            yield 'number of bins', length_is(I, h, nb)
            x, y = lambda i: app('xs', i, ZERO), lambda i: app('ys', i, ZERO)
            fn = lambda i, j: inside(app('fun', x(j), y(i)), b)
            if newton:
                spec = BATCHED(fn, n, ivar('batch'))
            else:
                spec = the_sum([n, m], fn)
            yield 'pairs in the bin', ('eq', I.M.num(item(I, h, b)), spec)
        def size(I, a, k):
            """Whatever the size of the batches, as long as it is positive"""
            one, v = [I.M.num(x) for x in a]
            I.oblige('batches: at least one', eq0(one - 1))
            I.facts += [gt0(ivar('batch'))]
            return N(ivar('batch'), 'int')

        def prepare(I):
            I.overrides[('builtins', 'max')] = P.Bi('max', size)
        pr.verify('gr.' + name, run, post, fs, prepare=prepare if newton else None)


def BATCHED(fn, n, bl):
    nbatch = cnt(ZERO, n - 1, bl)
    return the_sum([nbatch, lambda k: T.minp(k * bl + bl, n - 1) - k * bl, lambda k, t: n - 1 - (k * bl + t)],
                   lambda k, t, m: fn(k * bl + t, k * bl + t + 1 + m))


def kernel(pr):
    """The distances are those to the nearest image"""
    n = ivar('len_x')
    for nd in (2, 3):
        def run(I):
            return I.call(I.module('gr').get('gr_kernel'), [array(I, 'xs', (n, cst(nd))), array(I, 'y', (cst(nd),)), array(I, 'side', (cst(nd),))])

        def post(I, kind, r):
            k = ivar(fresh('_k'))
            I.facts += [ge0(k), lt0(k - n)]
            yield '%dd: number of distances' % nd, length_is(I, r, n)
            yield '%dd: distance to the nearest image' % nd, ('eq', I.M.num(item(I, r, k)), distance(nd, lambda d: app('xs', k, cst(d)), lambda d: app('y', cst(d))))
        pr.verify('gr.gr_kernel', run, post, [gt0(n)] + [gt0(s) for s in sides(nd)])


def lemmas(pr):
    # (k, t) -> k B + t maps the batches one to one onto the indices: its inverse is (i // B, i - B (i // B))
    i, k, t, big = ivar('i'), ivar('k'), ivar('t'), ivar('batch')
    q = T.floor(i * T.inv(big))
    pr.lemma('batches: each index is in one', ge0(i - big * q) * lt0(i - big * q - big), [ge0(i), gt0(big)])
    pr.lemma('batches: each index is in one only', eq0(T.floor((k * big + t) * T.inv(big)) - k), [ge0(k), ge0(t), lt0(t - big), gt0(big)])
    # the bins with a center below the limit are the first ones: bin b is selected after b others
    b, b2, lim = ivar('b'), ivar('b2'), rvar('lim')
    center = lambda b: b * DR + DR * T.inv(cst(2))
    pr.lemma('bins: those before a bin below the limit are below', le0(center(b2) - lim), [gt0(DR), le0(center(b) - lim), ge0(b2), lt0(b2 - b)])


def one(pr, cls, nd, same, cut):
    what = '%dd, %s%s' % (nd, 'one group' if same else 'two groups', ', rmax' if cut else '')
    limit = RMAX if cut else None
    fs = facts(nd) + ([gt0(RMAX)] if cut else [])
    if same:
        fs += [eq0(N0 - N1)]

    def run(I):
        th = trajectory(I, None, the_trajectory(nd))
        x = positions(I, 'pos0', N0, nd)
        y = x if same else positions(I, 'pos1', N1, nd)
        c = bare(I, 'gr', cls, trajectory=th, dr=N(DR, 'float'), rmax=N(RMAX if cut else -ONE, 'float'), grid=None, value=None,
                 skip=N(SKIP, 'int'), _pos_0=x, _pos_1=y)
        I.call(I.getattr(c, '_compute'), [])
        return c

    def post(I, kind, c):
        g, v = I.getattr(c, 'grid'), I.getattr(c, 'value')
        b = ivar(fresh('_b'))
        lim = RMAX if cut else T.inv(cst(2)) * the_min(sides(nd))
        center = lambda b: b * DR + DR * T.inv(cst(2))
        nm = fresh('_y')
        chosen = lam([nm], le0(center(ivar(nm)) - lim))
        n = the_sum([NB], lambda b: le0(center(b) - lim))
        m = cnt(ZERO, F, SKIP)
        mean = lambda b: the_sum([m], lambda k: count(nd, same, True, k * SKIP, b)) * T.inv(m)
        norm = lambda b: N0 * (N0 if same else N1) * T.inv(VOL) * shell(nd, b) * (T.inv(cst(2)) if same else ONE)
        yield what + ': number of bins', length_is(I, g, n)
        yield what + ': number of values', length_is(I, v, n)
        # the bins reported are those with a center below the limit; they are the first ones (lemma)
        s = ivar(fresh('_s'))
        at = next(iter(T.sel(NB, chosen, b).terms))[0].factors[0][0]
        I.facts += [ge0(b), lt0(b - n)]
        x, y = I.M.num(item(I, g, b)), I.M.num(item(I, v, b))
        for case, last, under in (('', s, [ge0(s), lt0(s - NB + 1)]), (' (last)', NB - 1, [])):
            under = under + [le0(center(last) - lim)]
            swap = lambda p: T.subst_atoms(p, {at: last})
            yield what + ': bin centers' + case, ('under', under, ('eq', swap(x), center(last)))
            yield what + ': values' + case, ('under', under, ('eq', swap(y), mean(last) * T.inv(norm(last))))
    mod = P.Mod('realspace_wrap.compute', lambda n: table[n])
    table = {k: P.Bi(k, f) for k, f in kernels(nd, same).items()}
    cs = {'helpers.linear_grid': linear(nd, cut), 'linkedcells.LinkedCells': linked_cells(nd)}
    over = {}
    if 'Legacy' in cls:
        cs2, over = histograms(nd, same)
        cs.update(cs2)

    def prepare(I):
        I.overrides.update(over)
    pr.verify('gr.%s._compute' % cls, run, post, fs, contracts=cs, prepare=prepare,
              module_overrides={('atooms.postprocessing.realspace_wrap', 'compute'): mod})


def the_min(xs):
    r = xs[0]
    for x in xs[1:]:
        r = T.minp(r, x)
    return r
