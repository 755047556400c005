"""
C16: partial correlations cover each species or pair of species once

The members are instances of a class that records what is done to them: the
contract of Partial speaks of the constructor, add_filter, compute, add_weight
and of the attributes of its members, whatever the correlation function.
"""

import os

from .common import *

NS = ivar('nspecies')
SPEC = lambda j: P.Opq(app('species', j, sort='obj'), 'any')

STUB = '''
class Member(object):
    nbodies = %d

    def __init__(self, *args, **kwargs):
        self.args = args
        self.kwargs = kwargs
        self.filters = 0
        self.filter_0 = None
        self.filter_1 = None

    def add_filter(self, f, *args, **kwargs):
        if self.filters == 0:
            self.filter_0 = (f, args, kwargs)
        if self.filters == 1:
            self.filter_1 = (f, args, kwargs)
        self.filters += 1


class Done(object):
    nbodies = %d

    def compute(self):
        self.computed += 1
        self.grid = self.own_grid
        self.value = self.own_value
        self.analysis = self.own_analysis

    def add_weight(self, trajectory=None, field=None, fluctuations=False):
        self.weights += 1
        self.w_trajectory = trajectory
        self.w_field = field
        self.w_fluctuations = fluctuations
'''


def stub(I, nb):
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', '.build', 'member_%d.py' % nb)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    text = STUB % (nb, nb)
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, 'w') as f:
            f.write(text)
    I.injective = {'species'}
    return P.Module(I, 'member', path)


def filter_contract(I, env):
    """filter_species(system, species): the particles of that species (C15)"""
    return P.Opq(app('of_species', env['system'].p, env['species'].p, sort='obj'), 'any')


ATTRS = ('grid', 'value', 'analysis')


def members(I, nb, sym):
    """A partial correlation with its members, not computed yet"""
    cls = stub(I, nb).get('Done')
    names = [fresh('_s') for _ in range(nb)]
    vs = [ivar(x) for x in names]
    attrs = {'computed': N(ZERO, 'int'), 'weights': N(ZERO, 'int'), '_symmetric': N(sym, 'bool')}
    o = lambda nm: P.Opq(app(nm, *vs, sort='obj'), 'any')
    for a in ATTRS:
        attrs[a] = o('first_' + a)
        attrs['own_' + a] = o('own_' + a)
    for a in ('trajectory', 'field', 'fluctuations'):
        attrs['w_' + a] = o('no')
    attrs['output_path'] = o('no')
    oid = I.new_oid()
    I.heap[oid] = P.St('ins', names, cls=cls, attrs=attrs)
    bs = [(fresh('_s'), NS) for _ in range(nb)]
    keys = [SPEC(ivar(b)) for b, _ in bs]
    seg = P.Seg(bs, ONE, P.KV(keys[0] if nb == 1 else P.Tup(keys), P.Ref(oid, [ivar(b) for b, _ in bs]), 'set'))
    d = I.alloc(P.St('dict', (), segs=[seg], default=None))
    return bare(I, 'partial', 'Partial', partial=d, nbodies=cst_n(nb), species=I.list_fn(NS, SPEC), _output_path=P.Opq(app('path0', sort='obj'), 'any'))


def cst_n(n):
    return N(cst(n), 'int')


def same(a, v):
    if not isinstance(v, type(a)):
        return ('fail', 'expected %r, got %r' % (a, v))
    if isinstance(a, P.Opq):
        return ('eq', v.p, a.p)
    return ('ok',) if a == v else ('fail', 'expected %r, got %r' % (a, v))


def prove(pr):
    facts = [gt0(NS)]
    arg = lambda nm: P.Opq(app(nm, sort='obj'), 'any')

    def some(I, obj, nb):
        """A generic member"""
        k = [ivar(fresh('_k')) for _ in range(nb)]
        fs = [f for x in k for f in (ge0(x), lt0(x - NS))]
        I.facts += fs
        key = SPEC(k[0]) if nb == 1 else P.Tup([SPEC(x) for x in k])
        return k, fs, I.M.dict_get(I, I.getattr(obj, 'partial'), key)

    for nb in (1, 2):
        def run(I):
            cls = stub(I, nb).get('Member')
            return I.call(I.module('partial').get('Partial'), [cls, I.list_fn(NS, SPEC), arg('a'), arg('b')], {'opt': arg('c')})

        def post(I, kind, obj):
            k, fs, m = some(I, obj, nb)
            yield 'one member per species', ('eq', I.M.dict_len(I, I.getattr(obj, 'partial')), NS ** nb)
            a = I.getattr(m, 'args')
            yield 'number of arguments', same(2, len(a.items))
            yield 'first argument', same(arg('a'), a.items[0])
            yield 'second argument', same(arg('b'), a.items[1])
            yield 'number of options', ('eq', I.M.dict_len(I, I.getattr(m, 'kwargs')), 1)
            yield 'options', same(arg('c'), I.M.dict_get(I, I.getattr(m, 'kwargs'), 'opt'))
            nf = I.getattr(m, 'filters').p
            s = arg('system')
            sel = []
            for f in range(nb):
                # with a single filter both groups are the same
                f = I.getattr(m, 'filter_%d' % f) or I.getattr(m, 'filter_0')
                sel.append(I.call(f.items[0], [s] + list(f.items[1].items), I.M.dict_concrete(I, f.items[2])))
            yield 'a filter is set', ('under', fs, ge0(nf - 1))
            yield 'not more filters than bodies', ('under', fs, ge0(nb - nf))
            for g, x in enumerate(sel):
                yield 'group %d holds the particles of its species' % g, ('under', fs, ('eq', x.p, app('of_species', s.p, SPEC(k[g]).p, sort='obj')))
            tag = I.M.to_str(I, SPEC(k[0])) if nb == 1 else I.M.str_concat(I, [I.M.to_str(I, SPEC(k[0])), '-', I.M.to_str(I, SPEC(k[1]))])
            yield 'tag', same(tag, I.getattr(m, 'tag'))
        pr.verify('partial.Partial.__init__', run, post, facts, contracts={'helpers.filter_species': filter_contract})

        for sym in (ONE, ZERO) if nb == 2 else (ONE,):
            def run(I):
                obj = members(I, nb, sym)
                I.call(I.getattr(obj, 'compute'), [])
                return obj

            def post(I, kind, obj):
                k, fs, m = some(I, obj, nb)
                own = ONE if nb == 1 or sym is ZERO else ge0(k[1] - k[0])
                yield 'evaluated once', ('under', fs, ('eq', I.getattr(m, 'computed').p, own))
                for a in ATTRS:
                    f = app('own_' + a, *k, sort='obj')
                    if nb == 2:
                        f = own * f + (ONE - own) * app('own_' + a, k[1], k[0], sort='obj')
                    yield a + ' of the pair or of the exchanged one', ('under', fs, ('eq', I.getattr(m, a).p, f))
            pr.verify('partial.Partial.compute', run, post, facts)

        def run(I):
            obj = members(I, nb, ONE)
            I.setattr(obj, 'output_path', arg('path'))
            return obj

        def post(I, kind, obj):
            k, fs, m = some(I, obj, nb)
            yield 'path of every member', ('under', fs, ('eq', I.getattr(m, 'output_path').p, arg('path').p))
            yield 'path read back', same(arg('path'), I.getattr(obj, 'output_path'))
        pr.verify('partial.Partial.output_path', run, post, facts)

        for pos in (True, False):
            def run(I):
                obj = members(I, nb, ONE)
                a = {x: arg(x) for x in ('trajectory', 'field', 'fluctuations')}
                if pos:
                    I.call(I.getattr(obj, 'add_weight'), list(a.values()))
                else:
                    I.call(I.getattr(obj, 'add_weight'), [], a)
                return obj

            def post(I, kind, obj):
                k, fs, m = some(I, obj, nb)
                yield 'weight of every member set once', ('under', fs, ('eq', I.getattr(m, 'weights').p, 1))
                for x in ('trajectory', 'field', 'fluctuations'):
                    yield x + ' of the weight', ('under', fs, ('eq', I.getattr(m, 'w_' + x).p, arg(x).p))
            pr.verify('partial.Partial.add_weight', run, post, facts)
