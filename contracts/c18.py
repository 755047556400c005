"""C18: output files hold the results and are rewritten only when needed"""

import os

import re

from .common import *

OBJ = lambda nm, k='any': P.Opq(app(nm, sort='obj'), k)
NX, NY = ivar('nx'), ivar('ny')

STUB = '''
class Log(object):
    pass


class Function(Correlation):
    pass


class Member(object):
    """Records the order of what is done to it"""

    def need_update(self):
        return self.needed

    def compute(self):
        self.computed += 1
        self.late += self.analyzed + self.written + self.was_read

    def analyze(self):
        self.analyzed += 1
        self.analyzed_at += self.computed
        self.late += self.written + self.was_read

    def write(self):
        self.written += 1
        self.written_at += self.analyzed

    def read(self):
        self.was_read += 1
'''


def stub(I):
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', '.build', 'files.py')
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path).read() != STUB:
        with open(path, 'w') as f:
            f.write(STUB)
    return P.Module(I, 'files', path)


def correlation(I, **attrs):
    th = P.Sym('trajectory', {'filename': lambda I: OBJ('trajectory_file', 'str')}, key=None)
    d = dict(trajectory=th, short_name='S(k,t)', long_name='long name', symbol='s', tag='tag', tag_description='the whole system',
             comments=None, output_path=OBJ('template', 'str'))
    d.update(attrs)
    return bare(I, 'correlation', 'Correlation', **d)


def outfile(I, env):
    return OBJ('output_file', 'str')


def events(I):
    """A list of events, in the heap"""
    return I.alloc(P.St('ins', (), cls=stub(I).get('Log'), attrs={'log': P.Tup(())}))


def add(I, ev, *x):
    I.setattr(ev, 'log', P.Tup(list(I.getattr(ev, 'log').items) + [P.Tup(x)]))


def opening(ev, **methods):
    def f(I, a, k):
        mode = a[1] if len(a) > 1 else k.get('mode', 'r')
        add(I, ev, 'open', a[0], mode)
        d = {m: P.Bi(m, fn) for m, fn in methods.items()}
        for m in ('flush', 'close'):
            d.setdefault(m, P.Bi(m, lambda I, a, k: None))
        return P.Sym('file', d, key=None, ops={})
    return P.Bi('open', f)


def digits(I, fmt):
    """Does the format of savetxt keep six significant digits of every number?"""
    if fmt is None:
        return True
    if not isinstance(fmt, str):
        return all(digits(I, f) for f in I.concrete_items(fmt))
    for prec, kind in re.findall(r'%[-+ #0]*[0-9]*(?:\.([0-9]+))?([a-zA-Z])', fmt) or [('', '')]:
        n = int(prec) if prec else 6
        if not (kind in 'gG' and n >= 6 or kind in 'eE' and n >= 5 or kind in 'sr' and not prec):
            return False
    return True


def prove(pr):
    ok = lambda b, m='': ('ok',) if b else ('fail', m)

    # ---- write
    for two in (False, True):
        for analysis in ({}, {'slope': rN('slope'), 'nothing': None, 'crossing': rN('crossing')}):
            state = {}

            def run(I):
                ev = events(I)
                over = I.overrides
                over[('builtins', 'open')] = opening(ev, write=lambda I, a, k: add(I, ev, 'text', a[0]))
                over[('numpy', 'savetxt')] = P.Bi('savetxt', lambda I, a, k: add(I, ev, 'rows', a[1], k.get('fmt', a[2] if len(a) > 2 else None)))
                over[('atooms.core.utils', 'mkdir')] = P.Bi('mkdir', lambda I, a, k: None)
                over[('os.path', 'dirname')] = P.Bi('dirname', lambda I, a, k: OBJ('folder', 'str'))
                if two:
                    grid = I.list_of([num_list(I, 'x', NX), num_list(I, 'y', NY)])
                    value = I.list_fn(NX, lambda i: I.list_fn(NY, lambda j: N(app('value', i, j), 'float')))
                else:
                    grid = num_list(I, 'x', NX)
                    value = num_list(I, 'value', NX)
                c = correlation(I, grid=grid, value=value, analysis=I.M.dict_of(I, analysis), short_name='S(k,t)' if two else 'S(t)')
                I.call(I.getattr(c, 'write'), [])
                return ev

            def post(I, kind, ev):
                log = I.getattr(ev, 'log').items
                op = [e for e in log if e.items[0] == 'open']
                rows = [e for e in log if e.items[0] == 'rows']
                yield 'one file is written', ok(len(op) == 1 and len(rows) == 1, str(log))
                yield 'the output file is overwritten', ok(op[0].items[2] == 'w', str(op[0]))
                yield 'name of the output file', ('eq', op[0].items[1].p, app('output_file', sort='obj'))
                # whatever else is written are comments
                yield 'six significant digits, whatever the magnitude', ok(digits(I, rows[0].items[2]), 'format %s' % (rows[0].items[2],))
                a = rows[0].items[1]
                st = I.state(a)
                n = NX * NY if two else NX
                yield 'number of rows', ('eq', st.shape[0], n)
                yield 'number of columns', ('eq', st.shape[1], 3 if two else 2)
                r = ivar(fresh('_k'))
                if two:
                    q, m = app('idiv', r, NY, sort='int'), app('imod', r, NY, sort='int')
                    spec = [app('x', q), app('y', m), app('value', q, m)]
                else:
                    spec = [app('x', r), app('value', r)]
                for k, s in enumerate(spec):
                    yield 'column %d' % k, ('under', [ge0(r), lt0(r - n)], ('eq', I.at(a, r, cst(k)), s))
            pr.verify('correlation.Correlation.write', run, post, [gt0(NX), gt0(NY)],
                      contracts={'correlation.Correlation._output_file': outfile, 'helpers._dump': lambda I, env: OBJ('comments', 'str')})

    # ---- read
    def run(I):
        ev = events(I)
        I.overrides[('builtins', 'open')] = opening(ev)
        I.overrides[('numpy', 'loadtxt')] = P.Bi('loadtxt', lambda I, a, k: columns(I, k))
        c = correlation(I, grid=OBJ('old'), value=OBJ('old'))
        I.call(I.getattr(c, 'read'), [])
        return P.Tup([c, ev])

    def columns(I, k):
        if k.get('unpack') is True or getattr(k.get('unpack'), 'p', ZERO) is ONE:
            return I.arr_fn((cst(2), NX), lambda c, r: app('cell', r, c), 'float')
        return I.arr_fn((NX, cst(2)), lambda r, c: app('cell', r, c), 'float')

    def post(I, kind, v):
        c, ev = v.items
        op = I.getattr(ev, 'log').items
        yield 'the output file is read', ok(len(op) == 1 and op[0].items[2] == 'r', str(op))
        yield 'name of the file', ('eq', op[0].items[1].p, app('output_file', sort='obj'))
        r = ivar(fresh('_k'))
        for k, nm in enumerate(('grid', 'value')):
            x = I.getattr(c, nm)
            yield nm + ': number of rows', length_is(I, x, NX)
            yield nm + ': column of the file', ('under', [ge0(r), lt0(r - NX)], ('eq', elem(I, x, r).p if not I.is_arr(x) else I.at(x, r), app('cell', r, cst(k))))
    pr.verify('correlation.Correlation.read', run, post, [gt0(NX - 2)], contracts={'correlation.Correlation._output_file': outfile})

    # ---- need_update
    E = T.boolatom('exists', app('output_file', sort='obj'))
    time = lambda nm: app('mtime', app(nm, sort='obj'))

    def run(I):
        I.overrides[('os.path', 'exists')] = P.Bi('exists', lambda I, a, k: N(T.boolatom('exists', a[0].p), 'bool'))
        I.overrides[('os.path', 'getmtime')] = P.Bi('getmtime', lambda I, a, k: N(app('mtime', a[0].p), 'float'))
        c = correlation(I)
        return I.call(I.getattr(c, 'need_update'), [])

    def post(I, kind, v):
        std = T.eq0(app('output_file', sort='obj') - I.M.strp('/dev/stdout'))
        newer = E * (ONE - std) * lt0(time('trajectory_file') - time('output_file'))
        yield 'needed unless the output file exists and is newer than the trajectory', ('eq', I.truth_poly(v), ONE - newer)
    pr.verify('correlation.Correlation.need_update', run, post, contracts={'correlation.Correlation._output_file': outfile})

    # ---- do
    for update in (False, True):
        def run(I):
            ev = events(I)
            for m in ('compute', 'analyze', 'write', 'read'):
                I.contracts['correlation.Correlation.' + m] = (lambda m: lambda I, env: add(I, ev, m))(m)
            I.contracts['correlation.Correlation.need_update'] = lambda I, env: N(T.boolatom('needed', ONE), 'bool')
            c = correlation(I)
            I.call(I.getattr(c, 'do'), [], {'update': update})
            return ev

        def post(I, kind, ev):
            log = [e.items[0] for e in I.getattr(ev, 'log').items]
            needed = T.boolatom('needed', ONE) if update else ONE
            if log == ['read']:
                yield 'read back only when not needed', ONE - needed
            else:
                yield 'computed, analyzed and written, in this order', ok(log == ['compute', 'analyze', 'write'], str(log))
                yield 'only when needed', needed
        pr.verify('correlation.Correlation.do', run, post)

    def run(I):
        ev = events(I)
        I.contracts['correlation.Correlation.do'] = lambda I, env: add(I, ev, 'do')
        I.call(I.getattr(correlation(I), '__call__'), [])
        return ev

    def post(I, kind, ev):
        yield 'a call does it once', ok(len(I.getattr(ev, 'log').items) == 1)
    pr.verify('correlation.Correlation.__call__', run, post)

    # ---- partial correlations
    NS = ivar('nspecies')
    SPEC = lambda j: P.Opq(app('species', j, sort='obj'), 'any')
    COUNTS = ('computed', 'analyzed', 'written', 'was_read', 'analyzed_at', 'written_at', 'late')

    def members(I):
        I.injective = {'species'}
        nm = fresh('_s')
        attrs = {x: N(ZERO, 'int') for x in COUNTS}
        attrs['needed'] = N(T.boolatom('needed', ivar(nm)), 'bool')
        oid = I.new_oid()
        I.heap[oid] = P.St('ins', (nm,), cls=stub(I).get('Member'), attrs=attrs)
        b = fresh('_s')
        d = I.alloc(P.St('dict', (), segs=[P.Seg([(b, NS)], ONE, P.KV(SPEC(ivar(b)), P.Ref(oid, [ivar(b)]), 'set'))], default=None))
        return bare(I, 'partial', 'Partial', partial=d, nbodies=N(ONE, 'int'), species=I.list_fn(NS, SPEC), _output_path=OBJ('path'))

    some = ONE - P.noex(the_lam(1, lambda j: T.boolatom('needed', j)), NS)

    def run(I):
        c = members(I)
        return I.call(I.getattr(c, 'need_update'), [])

    def post(I, kind, v):
        yield 'needed as soon as one of the files needs it', ('eq', I.truth_poly(v), some)
    pr.verify('partial.Partial.need_update', run, post, [gt0(NS)])

    for update in (False, True):
        def run(I):
            c = members(I)
            I.call(I.getattr(c, 'do'), [], {'update': update})
            return c

        def post(I, kind, c):
            needed = some if update else ONE
            k = ivar(fresh('_k'))
            fs = [ge0(k), lt0(k - NS)]
            I.facts += fs
            m = I.M.dict_get(I, I.getattr(c, 'partial'), SPEC(k))
            for x in ('computed', 'analyzed', 'written'):
                yield 'every member is %s when needed' % x, ('under', fs, ('eq', I.getattr(m, x).p, needed))
            yield 'every member is read back otherwise', ('under', fs, ('eq', I.getattr(m, 'was_read').p, ONE - needed))
            yield 'analyzed once computed', ('under', fs, ('eq', I.getattr(m, 'analyzed_at').p, needed))
            yield 'written once analyzed', ('under', fs, ('eq', I.getattr(m, 'written_at').p, needed))
            yield 'nothing before being computed', ('under', fs, ('eq', I.getattr(m, 'late').p, 0))
        pr.verify('partial.Partial.do', run, post, [gt0(NS)])
