"""
C14: the bond-angle distribution.

The neighbours and the angles of one particle are the contracts of the kernels
`neighbors` and `bond_angle` (proved in C12 on the Fortran source).
"""

from .world import *
from . import fkern
from .world import AX as WAX

N0 = lambda f: app('n0', f, sort='int')
N1 = lambda f: app('n1', f, sort='int')
ID0 = lambda f, i: app('ids0', f, i, sort='int')
ID1 = lambda f, j: app('ids1', f, j, sort='int')
ND, NSP = ivar('len_dim'), ivar('n_species')
DTH = rvar('dtheta')
RC = lambda a, b: app('rcut', a, b)
SIDE = lambda f, d: app('side', f, d)
FS = [gt0(F), gt0(SKIP), gt0(ND), gt0(NSP), gt0(DTH), gt0(180 - DTH)]
AX = {'nnb': lambda f, i: [ge0(NN(f, i)), ge0(N1(f) - NN(f, i))],
      'n0': lambda f: [gt0(N0(f))], 'n1': lambda f: [gt0(N1(f))],
      'ids0': lambda f, i: [ge0(ID0(f, i)), lt0(ID0(f, i) - NSP)], 'ids1': lambda f, i: [ge0(ID1(f, i)), lt0(ID1(f, i) - NSP)]}


def near(f, i, j):
    """Particle j is closer to i than the cutoff of their species (nearest images)"""
    return lt0(app('sqdist', f, i, j) - RC(ID0(f, i), ID1(f, j)) ** 2)


def NN(f, i):
    """Number of neighbours"""
    return app('nnb', f, i, sort='int')


def NEAR(f, i, k):
    """The k-th one, in order"""
    return app('nearest', f, i, k, sort='int')


def reindex(pr):
    """A sum over the list of neighbours is a sum over the neighbours"""
    f, i, b, nm = ivar('f'), ivar('i'), ivar('b'), fresh('_j')
    n, sel = N1(f), lam([nm], near(f, i, ivar(nm)))
    total = the_sum([n], lambda j: near(f, i, j))
    pr.lemma('pairs of the list of neighbours', ('eq', the_sum([total, total], lambda k, l: angle(f, i, T.sel(n, sel, k), T.sel(n, sel, l), b)),
                                                 the_sum([n, n], lambda j, l: near(f, i, j) * near(f, i, l) * angle(f, i, j, l, b))), [])


def angle(f, i, j, k, b):
    """Particles j and k are different, not at the place of i, and their angle is in the bin b"""
    return app('angle', f, i, j, k, b)


def family(I, name, n, *dims, dtype='float', sort='real'):
    """list over the frames of arrays"""
    f = fresh('_f')
    ax = [fresh('_x') for _ in range(1 + len(dims))]
    oid = I.new_oid()
    I.heap[oid] = P.St('arr', (f,), shape=(n(ivar(f)),) + dims, names=tuple(ax), body=app(name, ivar(f), *[ivar(x) for x in ax], sort=sort), dtype=dtype)
    return I.list_fn(F, lambda k: P.Ref(oid, [k]))


def the_frame(I, i, attrs=None):
    side = lambda I: I.arr_fn((ND,), lambda d: SIDE(i, d), 'float')
    return P.Sym('frame', {'cell': lambda I: P.Sym('cell', {'side': side}, key=ONE),
                           'particle': lambda I: I.list_fn(N0(i), lambda p: P.Opq(app('particle', i, p, sort='obj')))},
                 key=T.to_poly(i), ops={'rekey': lambda k: the_frame(I, k)})


def kernels():
    def of_particle(I, side, center, pos):
        """The frame and the particle these arguments belong to"""
        d, j = ivar(fresh('_d')), ivar(fresh('_j'))
        x = I.at(center, d)
        fs, js = fkern.indices_of(x, 'pos0', 0), fkern.indices_of(x, 'pos0', 1)
        if len(fs) != 1 or len(js) != 1:
            raise P.Unsupported('position of the central particle')
        f, i = fs[0], js[0]
        I.oblige('center: position of the particle', eq0(x - app('pos0', f, i, d)))
        I.oblige('neighbours: positions of the same frame', eq0(I.at(pos, d, j) - app('pos1', f, j, d)))
        I.oblige('side of the cell of the same frame', eq0(I.at(side, d) - SIDE(f, d)))
        sh = I.state(pos).shape
        I.oblige('neighbours: arrays of positions by columns', eq0(sh[0] - ND))
        I.oblige('neighbours: all the positions', eq0(sh[1] - N1(f)))
        return f, i

    def neighbors(I, a, k):
        off, side, center, pos, ids, rcut, nn, neigh = a
        I.oblige('indices from zero', ONE if off == 'C' else ZERO)
        f, i = of_particle(I, side, center, pos)
        j, s = ivar(fresh('_j')), ivar(fresh('_s'))
        I.oblige('species of the neighbours', eq0(I.at(ids, j) - ID1(f, j)))
        I.oblige('species of the neighbours: all', eq0(I.state(ids).shape[0] - N1(f)))
        I.oblige('cutoffs of the species of the particle', ONE - ge0(s) * lt0(s - NSP) * (ONE - eq0(I.at(rcut, s) - RC(ID0(f, i), s))))
        I.oblige('cutoffs: one per species', eq0(I.state(rcut).shape[0] - NSP))
        I.oblige('room for the neighbours', ge0(I.state(neigh).shape[0] - N1(f)))
        if not I.is_arr(nn):
            raise P.PyExc('TypeError', 'the number of neighbours must be an array')
        I.store_arr(nn, NN(f, i))
        k = ivar(I.state(neigh).names[0])
        inside = lt0(k - NN(f, i))
        I.store_arr(neigh, inside * NEAR(f, i, k) + (ONE - inside) * app('garbage', f, i, k, sort='int'))

    def bond_angle(I, a, k):
        center, pos, neigh, side, dth, hist = a
        f, i = of_particle(I, side, center, pos)
        n = I.length(neigh)
        I.oblige('width of the bins', eq0(M_num(dth) - DTH))
        q = ivar(fresh('_q'))
        I.oblige('angles: number of neighbours', eq0(n - NN(f, i)))
        # the neighbours are those of the particle, which exist (the precondition of the kernel)
        I.oblige('angles: neighbours of the particle', ONE - ge0(q) * lt0(q - n) * (ONE - eq0(I.at(neigh, q) - NEAR(f, i, q))))
        b = ivar(I.state(hist).names[0])
        I.store_arr(hist, the_sum([N1(f), N1(f)], lambda j, k: near(f, i, j) * near(f, i, k) * angle(f, i, j, k, b)))
    return {'neighbors': neighbors, 'bond_angle': bond_angle}


def compute(pr):
    matrix = lambda I: array(I, 'rcut', (NSP, NSP))
    rows = lambda I: I.list_fn(NSP, lambda a: I.list_fn(NSP, lambda b: N(RC(a, b), 'float')))
    for what, cutoffs in (('', matrix), (' (cutoffs as lists)', rows), (' (default cutoffs)', None)):
        one(pr, what, cutoffs)


def one(pr, what, cutoffs):
    names = ['A', 'B', 'C']
    default = cutoffs is None
    fs = FS + ([eq0(NSP - len(names))] if default else [])
    sub = (lambda p: T.subst(p, {'n_species': cst(len(names))})) if default else (lambda p: p)

    def run(I):
        th = trajectory(I, None, the_frame)
        kw = {} if default else {'rcut': cutoffs(I)}
        c = I.call(I.module('ba').get('BondAngleDistribution'), [th], dict(kw, norigins=N(ivar('norigins'), 'int'), dtheta=N(DTH, 'float')))
        for k, v in (('_pos_0', family(I, 'pos0', N0, ND)), ('_pos_1', family(I, 'pos1', N1, ND)),
                     ('_ids_0', family(I, 'ids0', N0, dtype='int', sort='int')), ('_ids_1', family(I, 'ids1', N1, dtype='int', sort='int'))):
            I.setattr(c, k, v)
        I.call(I.getattr(c, '_compute'), [])
        return c

    def post(I, kind, c):
        g, v = I.getattr(c, 'grid'), I.getattr(c, 'value')
        nb = T.floor(180 * T.inv(DTH))
        b = ivar(fresh('_b'))
        skip = stride(I, N(ivar('norigins'), 'int'))
        m = cnt(ZERO, F, skip)

        def hist(b):
            return the_sum([m, lambda k: N0(k * skip), lambda k, i: N1(k * skip), lambda k, i, j: N1(k * skip)],
                           lambda k, i, j, l: near(k * skip, i, j) * near(k * skip, i, l) * angle(k * skip, i, j, l, b))
        yield 'number of bins', length_is(I, g, nb)
        yield 'number of values', length_is(I, v, nb)
        I.facts += [ge0(b), lt0(b - nb)]
        yield 'bin centers', ('eq', I.M.num(item(I, g, b)), b * DTH + DTH * T.inv(cst(2)))
        yield 'pairs of neighbours in the bin, normalized', ('eq', I.M.num(item(I, v, b)), hist(b) * T.inv(the_sum([nb], hist) * DTH))
    table = {k: P.Bi(k, f) for k, f in kernels().items()}
    mod = P.Mod('realspace_wrap.compute', lambda n: table[n])

    def default_cutoffs(I, env):
        """A cutoff for each pair of species"""
        same_trajectory(I, env['th'])
        return I.M.dict_of(I, {P.Tup((a, b)): N(RC(cst(i), cst(j)), 'float') for i, a in enumerate(names) for j, b in enumerate(names)})

    def distinct(I, env):
        if default:
            return I.new_list([P.Seg((), ONE, n) for n in names])
        return I.list_fn(NSP, lambda s: P.Opq(app('species', s, sort='obj'), 'str'))

    def prepare(I):
        I.zero_d = True
    cs = {'helpers.adjust_skip': adjust_skip}
    if default:
        cs['ba._default_rcut'] = default_cutoffs
    pr.verify('ba.BondAngleDistribution._compute', run, post, fs, contracts=cs, axioms=dict(AX, stride=WAX['stride']), prepare=prepare, nonneg=('n0', 'n1', 'ids0', 'ids1', 'nnb'),
              module_overrides={('atooms.postprocessing.realspace_wrap', 'compute'): mod,
                                ('atooms.system.particle', 'distinct_species'): P.Bi('distinct_species', lambda I, a, k: distinct(I, a))})


def prove(pr):
    compute(pr)
    reindex(pr)
