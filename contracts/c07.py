"""C07: wave-vectors fit the cell and the requested shells"""

from .common import *

NGRID = ivar('len_grid')


def bag(I, lst, x):
    """How many times the tuple of integers x occurs in a list of tuples"""
    return count(I, lst, lambda v: [eq0(I.seq_get(v, cst(d)).p - x[d]) for d in range(len(x))] if I.length(v) is cst(len(x)) or I.length(v) == cst(len(x)) else [ZERO])


def count(I, lst, conds):
    tot = ZERO
    for s in I.seq(lst):
        p = s.cond
        for c in conds(s.value):
            p = p * c
        for b, n in reversed(s.binders):
            p = mk_sum(b, n, p)
        tot = tot + p
    return tot


K0 = lambda d: app('k0', T.to_poly(d))
KG = lambda i: app('kgrid', i)
DK = lambda i: app('dk', i)
SMALLEST = lambda k0, nd: app('smallest', *[k0(cst(d)) for d in range(nd)])
MINIMUM = {'smallest': lambda *a: [gt0(app('smallest', *a))]}
NBIN = ivar('nbin')      # the integer part of the largest norm over the smallest wave-number


def least(I, a, k):
    """min of the wave-numbers of the cell: a positive number, one of them, not larger than any of them"""
    from vc import models
    if len(a) == 1 and I.is_arr(a[0]):
        n = I.state(a[0]).shape[0].const()
        if n is not None:
            return N(SMALLEST(lambda d: I.at(a[0], d), int(n)), 'float')
    return models.BUILTINS['min'](I, a, k)


class Whole(object):
    """int() of a positive number: named, its argument kept for the postcondition"""

    def __call__(self, I, a, k):
        from vc import models
        r = models.TYPES['int'](I, a, k)
        if isinstance(r, N) and r.p.const() is None and isinstance(a[0], N) and a[0].ty == 'float':
            I.whole = a[0].p
            return N(NBIN, 'int')
        return r


def check_shells(pr, nd):
    """
    _setup_grid_sphere: the wave-vectors of the integer grid with norm up to
    the last value plus its tolerance, each in the group of the first value it
    is close to; if a group is empty, what the function returns with the
    tolerances of the empty groups multiplied by 1.2.
    """
    last = NGRID - 1
    what = '%dd: ' % nd
    q = 'fourierspace.FourierSpaceCorrelation._setup_grid_sphere'
    off = NBIN + 1
    kmax = KG(last) + DK(last)

    def norm(x):
        return T.sqrt(T.addn([K0(d) ** 2 * x[d] ** 2 for d in range(nd)]))

    def belongs(i, x):
        """Is the vector K0*x in the group i?"""
        close = lambda j: T.lt0(T.absp(norm(x) - KG(j)) - DK(j))
        return T.le0(norm(x) ** 2 - kmax ** 2) * close(i) * P.noex(the_lam(1, close), i)

    def size(i):
        return the_sum([2 * off + 1] * nd, lambda *n: belongs(i, [x - off for x in n]))

    def run(I):
        again = lambda I, env: P.Tup([P.Opq(app('recursion', sort='obj'), 'any'), env['dk'], env['kgrid'], env['k0']])
        I.contracts[q] = again
        cls = I.module('fourierspace').get('FourierSpaceCorrelation')
        fn = I.getattr(cls, '_setup_grid_sphere')
        dk, kg, k0 = num_list(I, 'dk', NGRID), num_list(I, 'kgrid', NGRID), array(I, 'k0', (cst(nd),))
        I.whole = None
        v = I.call(fn, [dk, kg, k0])
        return P.Tup([v, dk, kg, k0])

    def post(I, kind, v):
        r, dk, kg, k0 = v.items
        i = ivar(fresh('_k'))
        x = [ivar('x%d' % d) for d in range(nd)]
        yield what + 'size of the grid', ('eq', I.whole, kmax * T.inv(SMALLEST(K0, nd)))
        if isinstance(r.items[0], P.Opq):
            o, dk2, kg2, k02 = r.items
            yield from ranged([
                (what + 'wave-numbers searched again', ('eq', item(I, kg2, i).p, KG(i))),
                (what + 'tolerances searched again', ('eq', item(I, dk2, i).p, DK(i) * (ONE + eq0(size(i)) * T.inv(cst(5)))))],
                i, NGRID)
            yield what + 'number of wave-numbers searched again', length_is(I, kg2, NGRID)
            yield what + 'number of tolerances', length_is(I, dk2, NGRID)
            for d in range(nd):
                yield what + 'cell searched again', ('eq', I.at(k02, cst(d)), K0(d))
            yield what + 'a group is empty', ONE - none_below(NGRID, lambda j: eq0(size(j)))
            return
        kvec, o = r.items
        yield what + 'no group is empty', none_below(NGRID, lambda j: eq0(size(j)))
        yield what + 'offset', ('eq', o.p, off)
        yield what + 'number of groups', length_is(I, kvec, NGRID)
        inside = ONE
        for y in x:
            inside = inside * ge0(y) * lt0(y - 2 * off - 1)
        I.facts += [ge0(i), lt0(i - NGRID)]
        g = I.seq_get(kvec, i)
        yield what + 'number of vectors of a group', ('eq', I.length(g), size(i))
        yield what + 'vectors of a group', ('eq', bag(I, g, x), inside * belongs(i, [y - off for y in x]))
        yield from ranged([(what + 'wave-numbers unchanged', ('eq', item(I, kg, i).p, KG(i)))], i, NGRID)
    pr.verify(q, run, post, [gt0(NGRID), ge0(NBIN)] + [gt0(K0(d)) for d in range(nd)],
              axioms=MINIMUM, module_overrides={('builtins', 'min'): P.Bi('min', least), ('builtins', 'int'): P.Ty('int', Whole())})


# ---------------------------------------------------------------- _setup

NU = ivar('len_user')       # length of the grid given by the user
USER = lambda i: app('user_k', i)
SIDE = lambda i, d: app('side', i, d)
TWOPI = 2 * var('pi', 'real')
NSHELL = lambda g: app('nshell', g, sort='int')
SHELL = lambda g, v, d: app('shell', g, v, T.to_poly(d), sort='int')
DRAW = lambda count, v: app('draw', count, v, sort='int')
OFF = ivar('shell_offset')
NK = ivar('nk')
SAMPLE = ivar('sample')


def cell_trajectory(I, nd):
    cell = lambda i: P.Sym('cell', {'side': lambda I: I.arr_fn((cst(nd),), lambda d: SIDE(i, d), 'float')}, key=i, ops={'rekey': cell})
    fr = lambda i: P.Sym('frame', {'cell': lambda I: cell(i)}, key=i, ops={'rekey': fr})
    from vc import models
    return P.Sym('trajectory', {}, key='th', ops={'getitem': lambda I, i: fr(models.num(i) if not isinstance(i, int) else T.to_poly(i)), 'len': lambda I: ivar('len_frames'), 'item': lambda I, k: fr(k)})


def check_setup(pr, nd, cls, sample, grid, first):
    """
    _setup: the groups are min(nk, size of the shell) vectors drawn from the
    shells of the sorted grid, with a constant seed; the wave-number of a
    group is the mean of the norms.  The grid of the user is not modified.
    """
    what = '%s, %dd, %s: ' % (cls, nd, 'frame %s' % ('0' if sample is ZERO else 'k'))
    q = 'fourierspace.FourierSpaceCorrelation._setup'
    k0 = lambda d: TWOPI * T.inv(SIDE(sample, T.to_poly(d)))
    small = SMALLEST(k0, nd)
    mod = {'StructureFactorLegacy': 'sk', 'SpectralDensity': 'ik'}.get(cls, 'fkt')
    timed = mod == 'fkt'
    KS = ivar('ksamples')

    def requested(I, j):
        """value of the requested grid, sorted, before the search"""
        if grid == 'user':
            L = the_lam(1, lambda k: the_sum([NU], lambda i: eq0(k - USER(i))))
            srt = lambda j: app('SORTED', L, j)
            neg = T.lt0(srt(ZERO))
            return eq0(j) * (neg * small + (ONE - neg) * srt(ZERO)) + (ONE - eq0(j)) * srt(j)
        lo = rvar('kmin') if grid == 'kmin' else small
        return app('linear', lo, rvar('kmax'), KS, j)

    n = NU if grid == 'user' else KS

    def sphere(I, env):
        dk, kg, k0a = env['dk'], env['kgrid'], env['k0']
        i = ivar(fresh('_k'))
        I.oblige('number of requested wave-numbers', eq0(I.length(kg) - n))
        I.oblige('number of tolerances', eq0(I.length(dk) - n))
        f = I.facts
        I.facts = f + [ge0(i), lt0(i - n)]
        I.obls.append((what + 'requested wave-numbers', list(I.facts), ('eq', item(I, kg, i).p, requested(I, i))))
        I.obls.append((what + 'tolerances', list(I.facts), ('eq', item(I, dk, i).p, rvar('dk'))))
        I.facts = f
        for d in range(nd):
            I.obls.append((what + 'smallest wave-vectors', list(I.facts), ('eq', I.at(k0a, cst(d)), k0(d))))
        return P.Tup([I.list_fn(n, lambda g: I.list_fn(NSHELL(g), lambda v: P.Tup([N(SHELL(g, v, d), 'int') for d in range(nd)]))), N(OFF, 'int')])

    def linear(I, env):
        lo, hi, k = [env[x].p for x in ('min_val', 'max_val', 'delta')]
        I.oblige('linear_grid: number of points', ONE if env['delta'].ty == 'int' else ZERO)
        return I.list_fn(k, lambda j: N(app('linear', lo, hi, k, j), 'float'))

    def run(I):
        ghost = I.alloc(P.St('ins', (), cls=I.module('correlation').get('Correlation'), attrs={'draws': N(cst(0), 'int'), 'seed': None}))
        I.ghost = ghost

        def seed(I, a, k):
            I.oblige('the seed is a constant', ONE if not isinstance(a[0], P.N) or a[0].p.const() is not None else ZERO)
            I.setattr(ghost, 'seed', a[0])
            I.setattr(ghost, 'draws', N(cst(0), 'int'))

        def draw(I, a, k):
            lst, m = a
            I.oblige('the generator has been seeded', ONE if I.getattr(ghost, 'seed') is not None else ZERO)
            c = I.getattr(ghost, 'draws')
            I.setattr(ghost, 'draws', N(c.p + 1, 'int'))
            I.oblige('not more vectors than there are', ge0(I.length(lst) - m.p))
            I.oblige('a positive number of vectors', ge0(m.p))
            return I.list_fn(m.p, lambda v: I.seq_get(lst, DRAW(c.p, v)))
        I.overrides[('random', 'seed')] = P.Bi('seed', seed)
        I.overrides[('random', 'sample')] = P.Bi('sample', draw)
        user = num_list(I, 'user_k', NU) if grid == 'user' else None
        c = bare(I, mod, cls, trajectory=cell_trajectory(I, nd), nk=N(NK, 'int'), dk=rN('dk'), kmin=rN('kmin'), kmax=rN('kmax'), ksamples=N(KS, 'int'),
                 kgrid=None, k0=I.list_of([]), _kvectors=I.list_of([]), _koffset=N(cst(0), 'int'), _kgrid_input=I.list_of([]))
        I.setattr(c, 'grid', I.list_of([user, num_list(I, 'times', ivar('len_times'))]) if timed else user)
        if not first:
            # the wave-vectors of the first frame have been set up before
            I.setattr(c, '_kgrid_input', I.list_of([user]))
            I.setattr(c, 'kgrid', num_list(I, 'old_k', n))
            I.setattr(c, 'grid', P.Opq(app('any_grid', sort='obj'), 'any'))
        I.call(I.getattr(c, '_setup'), [] if sample is ZERO else [], {} if sample is ZERO else {'sample': N(sample, 'int')})
        return P.Tup([c, user] if user is not None else [c])

    def post(I, kind, v):
        c = v.items[0]
        g, m = ivar(fresh('_k')), ivar(fresh('_k'))
        kv, kg = I.getattr(c, '_kvectors'), I.getattr(c, 'kgrid')
        if sample is ZERO and not first:
            yield from ranged([(what + 'nothing is done again', ('eq', item(I, kg, g).p, app('old_k', g)))], g, n)
            return
        yield what + 'number of groups', length_is(I, kv, n)
        yield what + 'number of wave-numbers', length_is(I, kg, n)
        yield what + 'offset', ('eq', I.getattr(c, '_koffset').p, OFF)
        for d in range(nd):
            yield what + 'smallest wave-vectors', ('eq', I.at(I.getattr(c, 'k0'), cst(d)), k0(d))
        nv = T.minp(NK, NSHELL(g))
        I.facts += [ge0(g), lt0(g - n)]
        grp = I.seq_get(kv, g)
        yield what + 'number of vectors', ('eq', I.length(grp), nv)
        yield from ranged([(what + 'vectors drawn', ('eq', I.seq_get(I.seq_get(grp, m), cst(d)).p, SHELL(g, DRAW(g, m), d))) for d in range(nd)], m, nv)
        norm = lambda m: T.sqrt(T.addn([(k0(d) * (SHELL(g, DRAW(g, m), d) - OFF)) ** 2 for d in range(nd)]))
        yield what + 'wave-number of the group', ('eq', item(I, kg, g).p, the_sum([nv], norm) * T.inv(nv))
        if grid == 'user':
            yield what + 'grid of the user', ('eq', item(I, v.items[1], g).p, USER(g))
            yield what + 'size of the grid of the user', length_is(I, v.items[1], NU)
    pr.verify(q, run, post, [{'kmin': gt0, 'none': le0}[grid](rvar('kmin')) if grid != 'user' else ONE, gt0(NU), gt0(KS), gt0(NK), ge0(SAMPLE), gt0(SAMPLE) if sample is not ZERO else ONE] + [gt0(SIDE(sample, T.to_poly(d))) for d in range(nd)],
              axioms=dict(MINIMUM, nshell=lambda *a: [gt0(app('nshell', *a, sort='int'))]), nonneg=('nshell',),
              contracts={'fourierspace.FourierSpaceCorrelation._setup_grid_sphere': sphere, 'helpers.linear_grid': linear},
              module_overrides={('builtins', 'min'): P.Bi('min', least)})


# ---------------------------------------------------------------- wave-vectors of the user

NGR = ivar('len_groups')
NV = lambda g: app('len_group', g, sort='int')
Q = lambda g, v, d: app('q', g, v, T.to_poly(d))
LARGEST = {'largest': lambda *a: [ge0(app('largest', *a) - x) for x in a]}


def most(I, a, k):
    """max of the few elements of an array: not smaller than any of them"""
    from vc import models
    if len(a) == 1 and I.is_arr(a[0]):
        n = I.state(a[0]).shape[0].const()
        if n is not None:
            return N(app('largest', *[I.at(a[0], cst(d)) for d in range(int(n))]), 'float')
    return models.BUILTINS['max'](I, a, k)


def check_assigned(pr, nd):
    what = '%dd: ' % nd
    k0 = lambda d: TWOPI * T.inv(SIDE(ZERO, T.to_poly(d)))
    near = lambda g, v, d: app('rint', Q(g, v, d) * T.inv(k0(d)), sort='int')
    q = 'fourierspace.FourierSpaceCorrelation.kvectors'

    def run(I):
        c = bare(I, 'sk', 'StructureFactorLegacy', trajectory=cell_trajectory(I, nd), kgrid=None, k0=I.list_of([]), _kvectors=I.list_of([]), _koffset=N(cst(0), 'int'))
        user = I.list_fn(NGR, lambda g: I.list_fn(NV(g), lambda v: I.arr_fn((cst(nd),), lambda d: Q(g, v, d), 'float')))
        I.setattr(c, 'kvectors', user)
        return P.Tup([c, I.getattr(c, 'kvectors')])

    def post(I, kind, r):
        c, got = r.items
        g, v = ivar(fresh('_k')), ivar(fresh('_k'))
        size = lambda g, v: T.floor(app('largest', *[T.absp(near(g, v, d)) for d in range(nd)]))
        row = lambda g: app('MAX', lam(['_b'], size(g, ivar('_b'))), NV(g), sort='int')
        top = app('MAX', lam(['_a'], row(ivar('_a'))), NGR, sort='int')
        off = I.getattr(c, '_koffset').p
        # the largest of several numbers is not smaller than any of them
        fs = [ge0(v), lt0(v - NV(g)), ge0(row(g) - size(g, v)), ge0(top - row(g))]
        for d in range(nd):
            k = near(g, v, d) + off
            yield what + 'tabulated exponentials', ('under', fs, ge0(k))
            yield what + 'tabulated exponentials', ('under', fs, gt0(2 * off + 1 - k))
        I.facts += [ge0(g), lt0(g - NGR)]
        yield what + 'number of groups', length_is(I, got, NGR)
        grp = I.seq_get(got, g)
        yield what + 'number of vectors', ('eq', I.length(grp), NV(g))
        yield from ranged([(what + 'nearest vectors', ('eq', I.seq_get(I.seq_get(grp, v), cst(d)).p, near(g, v, d) * k0(d))) for d in range(nd)], v, NV(g))
        yield what + 'wave-number', ('eq', item(I, I.getattr(c, 'kgrid'), g).p,
                                     the_sum([NV(g)], lambda v: T.sqrt(T.addn([(k0(d) * near(g, v, d)) ** 2 for d in range(nd)]))) * T.inv(NV(g)))
        kv = I.seq_get(I.getattr(c, '_kvectors'), g)
        yield from ranged([(what + 'indices', ('eq', I.seq_get(I.seq_get(kv, v), cst(d)).p, near(g, v, d) + off)) for d in range(nd)], v, NV(g))
    pr.verify(q, run, post, [gt0(NGR)] + [gt0(SIDE(ZERO, T.to_poly(d))) for d in range(nd)], nonneg=('len_group',),
              axioms=dict(LARGEST, len_group=lambda *a: [gt0(app('len_group', *a, sort='int'))]), module_overrides={('builtins', 'max'): P.Bi('max', most)})


def prove(pr):
    for nd in (2, 3):
        check_shells(pr, nd)
    check_setup(pr, 3, 'StructureFactorLegacy', ZERO, 'user', True)
    check_setup(pr, 2, 'StructureFactorLegacy', ZERO, 'kmin', True)
    check_setup(pr, 3, 'StructureFactorLegacy', SAMPLE, 'user', False)
    check_setup(pr, 3, 'StructureFactorLegacy', ZERO, 'user', False)
    check_setup(pr, 3, 'SelfIntermediateScatteringFast', ZERO, 'user', True)
    check_setup(pr, 3, 'IntermediateScattering', ZERO, 'none', True)
    for nd in (2, 3):
        check_assigned(pr, nd)
