"""
C13: linked cells.
"""

import itertools

from fractions import Fraction

from .world import *

NPART = {0: ivar('len_pos'), 1: ivar('len_other')}
L = lambda d: app('side', T.to_poly(d))
RC = rvar('rcut')
NC = lambda d: T.floor(L(d) * T.inv(RC))
CELL = lambda g, i, d: app('cell%d' % g, i, T.to_poly(d), sort='int')


OLD = lambda d: app('oldside', T.to_poly(d))
ONC = lambda d: T.floor(OLD(d) * T.inv(RC))
OCELL = lambda g, i, d: app('ocell%d' % g, i, T.to_poly(d), sort='int')
SIDES = {'now': (L, NC, CELL), 'before': (OLD, ONC, OCELL)}

AX = {}
for g_ in (0, 1):
    AX['cell%d' % g_] = (lambda g: lambda i, d: [ge0(CELL(g, i, d)), gt0(NC(d) - CELL(g, i, d))])(g_)
    AX['ocell%d' % g_] = (lambda g: lambda i, d: [ge0(OCELL(g, i, d)), gt0(ONC(d) - OCELL(g, i, d))])(g_)


def index(nd, when=lambda: 'now'):
    """
    Subcells of particles in the cell, which is the one the object is set up
    for (checked by the caller): see check_index() and geometry()
    """
    def f(I, env):
        pos, me = env['pos'], env['self']
        l, n, cell = SIDES[when()]
        for d in range(nd):
            I.oblige('set up for the half side of the cell', eq0(I.at(I.getattr(me, 'hbox'), cst(d)) * 2 - l(d)))
            I.oblige('set up for the number of subcells', eq0(I.at(I.getattr(me, 'n_cell'), cst(d)) - n(d)))
            I.oblige('set up for the side of the subcells', eq0(I.at(I.getattr(me, 'box_cell'), cst(d)) * I.at(I.getattr(me, 'n_cell'), cst(d)) - I.at(I.getattr(me, 'hbox'), cst(d)) * 2))
        i, d = ivar(fresh('_i')), ivar(fresh('_d'))
        x = I.at(pos, i, d)
        for g in (0, 1):
            if x is app('pos%d' % g, i, d):
                return I.arr_fn((NPART[g], cst(nd)), lambda i, d: cell(g, i, d), 'int')
        raise P.Unsupported('cells of other positions')
    return f


def adjacent(a, b, d, periodic):
    """Subcells a and b are the same or next to each other along d"""
    far = [cst(k) for k in (-1, 0, 1)]
    if periodic:
        far += [NC(d) - 1, ONE - NC(d)]
    return T.addn([eq0(b - a - k) for k in far])


def times(I, v, i, j):
    """How many times j is listed for i"""
    if isinstance(v, P.Tup):
        # arrays: the first number(i) elements of row i are, in order, the ones of the lists entries() describes
        return T.addn([T.sum_over([(b, n)], c * eq0(x - j)) for b, n, c, x in entries(I, v.items[0], i)[0]])
    return T.addn([T.sum_over(list(s.binders), s.cond * eq0(I.M.num(s.value) - j)) for s in I.seq(I.seq_get(v, i))])


def entries(I, a, i):
    """What row i of an array made from lists is made of, and the index in the list of element k of the row"""
    k = ivar('k')
    p = I.at(a, i, k)
    found = list({x for m, _ in p.terms for x, _ in m.factors if x.kind == 'A' and x.data[0] == 'ENTRY'})
    if len(found) != 1:
        raise P.Unsupported('row of the array of neighbours: %r' % (found,))
    *parts, at = found[0].data[1]
    out = []
    for n, c, x in zip(parts[0::3], parts[1::3], parts[2::3]):
        b = fresh('_b')
        out.append((b, n, c(ivar(b)), x(ivar(b))))
    return out, at, T.atom_poly(found[0]), p


def largest(p):
    """f, n for max(f(k), k = 0 ... n-1)"""
    a = p.terms[0][0].factors[0][0]
    if a.kind != 'A' or a.data[0] != 'MAX' or p is not T.atom_poly(a):
        raise P.Unsupported('not a maximum: %r' % (p,))
    return a.data[1]


def prepare(I):
    I.merging = True
    I.unroll = 27
    I.entries = True


def compute(pr, nd, same, periodic, arrays=False):
    what = '%s, periodic along %s: ' % ('one set' if same else 'two sets', ''.join(x for x, p in zip('xyz', periodic) if p) or 'none')

    def run(I):
        c = I.call(I.module('linkedcells').get('LinkedCells'), [], {'rcut': N(RC, 'float')})
        x = array(I, 'pos0', (NPART[0], cst(nd)))
        kw = {} if same else {'other': array(I, 'pos1', (NPART[1], cst(nd)))}
        if not all(periodic):
            kw['periodic'] = I.arr_fn((cst(nd),), lambda d: T.addn([eq0(d - k) for k in range(nd) if periodic[k]]), 'bool')
        return I.call(I.getattr(c, 'compute'), [array(I, 'side', (cst(nd),)), x], dict(kw, as_array=arrays))

    def post(I, kind, v):
        i, j = ivar('i'), ivar('j')
        g = 0 if same else 1
        I.facts += [ge0(i), lt0(i - NPART[0]), ge0(j), lt0(j - NPART[g])]
        if arrays:
            n = I.at(v.items[1], i)
            listed, at, element, p = entries(I, v.items[0], i)
            yield what + 'one row per particle', ('eq', I.state(v.items[0]).shape[0], NPART[0])
            yield what + 'one number per particle', length_is(I, v.items[1], NPART[0])
            yield what + 'the number of neighbours is the length of the list', ('eq', n, T.addn([T.sum_over([(b, m)], c) for b, m, c, x in listed]))
            yield what + 'row and list have the same order', ('eq', at, ivar('k'))
            yield what + 'the row contains the list', ('under', [ge0(ivar('k')), lt0(ivar('k') - n)], ('eq', p, element))
            longest, count = largest(I.state(v.items[0]).shape[1])
            yield what + 'the rows are as long as the longest list', ('eq', longest(i), n)
            yield what + 'of all particles', ('eq', count, NPART[0])
        else:
            yield what + 'one list per particle', length_is(I, v, NPART[0])
        cij = times(I, v, i, j)
        cji = times(I, v, j, i) if same else ZERO
        a = [CELL(0, i, d) for d in range(nd)]
        b = [CELL(g, j, d) for d in range(nd)]
        for d in range(nd):
            for c in (a[d], b[d]):
                I.facts += [ge0(c), gt0(NC(d) - c)]
        different = [ONE - eq0(i - j)] if same else []
        near = [adjacent(a[d], b[d], d, periodic[d]) for d in range(nd)]
        yield what + 'particles in adjacent subcells are listed once', ('under', different + near, ('eq', cij + cji, ONE))
        yield what + 'no pair is listed twice', ('under', different, le0(cij + cji - 1))
        yield what + 'no neighbour is listed twice', ('under', different, le0(cij - 1))
        if same:
            yield what + 'no particle lists itself', ('eq', T.subst(cij, {'j': i}), ZERO)
        for d in range(nd):
            if not periodic[d]:
                yield what + 'no wrapping along %s' % 'xyz'[d], ('under', different + [ONE - near[d]], ('eq', cij, ZERO))

    pr.verify('linkedcells.LinkedCells.compute', run, post, [ge0(NC(d) - 3) for d in range(nd)] + [gt0(RC), gt0(NPART[0]), gt0(NPART[1])], prepare=prepare, axioms=AX,
              contracts={'linkedcells.LinkedCells._index': index(nd)})


def cell_of(x, d):
    """Subcell of coordinate x along d"""
    c = T.floor((x + L(d) * Fraction(1, 2)) * NC(d) * T.inv(L(d)))
    return c - eq0(c - NC(d))


def check_index(pr, nd):
    def run(I):
        c = I.call(I.module('linkedcells').get('LinkedCells'), [], {'rcut': N(RC, 'float')})
        I.call(I.getattr(c, 'adjust'), [array(I, 'side', (cst(nd),)), True], {})
        return I.call(I.getattr(c, '_index'), [array(I, 'pos0', (NPART[0], cst(nd)))], {})

    def post(I, kind, v):
        i = ivar('i')
        I.facts += [ge0(i), lt0(i - NPART[0])]
        yield '%dd: one row per particle' % nd, length_is(I, v, NPART[0])
        for d in range(nd):
            x = app('pos0', i, cst(d))
            inside = [ge0(x + L(d) * Fraction(1, 2)), ge0(L(d) * Fraction(1, 2) - x)]
            yield '%dd: subcell along %s' % (nd, 'xyz'[d]), ('under', inside, ('eq', I.at(v, i, cst(d)), cell_of(x, d)))
    pr.verify('linkedcells.LinkedCells._index', run, post, [ge0(NC(d) - 3) for d in range(nd)] + [gt0(RC), gt0(NPART[0])] + [gt0(L(d)) for d in range(nd)],
              prepare=prepare)


def geometry(pr):
    """Particles closer than the cutoff are in adjacent subcells"""
    u, v, w, r, l, n, s, p, q = [rvar(a) for a in 'u v w r l n s p q'.split()]
    pr.lemma('a component is not larger than the distance', gt0(r - u) * gt0(r + u), [gt0(r), gt0(r * r - u * u - v * v - w * w)])
    pr.lemma('the subcells are not smaller than the cutoff', ge0(l - T.floor(l * T.inv(r)) * r), [gt0(r), gt0(l)])
    pr.lemma('distance in units of subcells', gt0(1 - u * s) * gt0(1 + u * s),
             [gt0(r), gt0(l), gt0(r - u), gt0(r + u), gt0(n), ge0(l - n * r), eq0(s * l - n)])
    k, n = ivar('k'), ivar('n')
    a, b = T.floor(p), T.floor(q)
    a, b = a - eq0(a - n), b - eq0(b - n)
    units = [ge0(p), ge0(q), ge0(n - p), ge0(n - q), ge0(n - 3)]
    near = [gt0(1 - p + q + n * k), gt0(1 + p - q - n * k)]
    pr.lemma('subcells are numbered from zero', ge0(a) * lt0(a - n), units)
    for c in (-1, 0, 1):
        pr.lemma('close coordinates are in adjacent subcells, image %d' % c, T.addn([eq0(a - b - n * c - j) for j in (-1, 0, 1)]),
                 units + [T.subst(f, {'k': cst(c)}) for f in near])


def again(pr, nd, first, second, change):
    """The second of two calls on the same object does not depend on the first"""
    show = lambda same, periodic: '%s, periodic along %s' % ('one set' if same else 'two sets', ''.join(x for x, p in zip('xyz', periodic) if p) or 'none')
    what = '%dd, %s, after a call with %s, %s cell: ' % (nd, show(*second), show(*first), change)
    now = ['now']

    def args(I, call, x, y):
        same, periodic = call
        kw = {} if same else {'other': y}
        if not all(periodic):
            kw['periodic'] = I.arr_fn((cst(nd),), lambda d: T.addn([eq0(d - k) for k in range(nd) if periodic[k]]), 'bool')
        return kw

    def cells(I):
        return I.getattr(I.call(I.module('linkedcells').get('LinkedCells'), [], {'rcut': N(RC, 'float')}), 'compute')

    def run(I):
        x, y = [array(I, 'pos%d' % g, (NPART[g], cst(nd))) for g in (0, 1)]
        side = array(I, 'side', (cst(nd),))
        old = I.arr_fn((cst(nd),), OLD, 'float')
        compute = cells(I)
        now[0] = 'before'
        I.call(compute, [old, x], args(I, first, x, y))
        now[0] = 'now'
        if change == 'in place':
            I.store_arr(old, L(ivar(I.state(old).names[0])))
        v = I.call(compute, [old if change == 'in place' else side, x], args(I, second, x, y))
        return P.Tup([v, I.call(cells(I), [side, x], args(I, second, x, y))])

    def post(I, kind, v):
        i, j = ivar('i'), ivar('j')
        I.facts += [ge0(i), lt0(i - NPART[0]), ge0(j), lt0(j - NPART[0 if second[0] else 1])]
        yield what + 'same lists as with a new object', ('eq', times(I, v.items[0], i, j), times(I, v.items[1], i, j))

    pr.verify('linkedcells.LinkedCells.compute', run, post, [ge0(n(d) - 3) for d in range(nd) for n in (NC, ONC)] + [gt0(RC), gt0(NPART[0]), gt0(NPART[1])],
              prepare=prepare, axioms=AX, contracts={'linkedcells.LinkedCells._index': index(nd, lambda: now[0])})


def prove(pr):
    geometry(pr)
    for nd in (2, 3):
        check_index(pr, nd)
    both, x = (True, True), (True, False)
    for nd in (2, 3):
        for same in (True, False):
            for periodic in itertools.product((True, False), repeat=nd):
                compute(pr, nd, same, periodic)
    for same in (True, False):
        compute(pr, 2, same, both, True)
        compute(pr, 2, same, x, True)
        compute(pr, 3, same, both + x[:1], True)
    for first, second in (((True, both), (True, both)), ((False, both), (False, x)), ((True, x), (False, x)), ((False, x), (True, both))):
        for change in ('other', 'in place'):
            again(pr, 2, first, second, change)
    again(pr, 3, (False, both + x[:1]), (True, both + x[1:]), 'other')
