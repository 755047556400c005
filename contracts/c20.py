"""
C20: every option of the programming interface reaches the computation.

The functions of the interface are executed with constructors that record what
they are given: the arguments, bound to the parameters of the real
constructors, are part of the identity of the object built, and every method
called on it (`add_weight`, `do`) is appended to the log of its trajectory.
The log of each trajectory must be the expected one: the correlation, then its
partial correlations, under the conditions of the statement.
"""

import os

from .common import *

OBJ = lambda nm, *a: P.Opq(app(nm, *a, sort='obj'), 'any')
STR = lambda nm, *a: P.Opq(app(nm, *a, sort='obj'), 'str')
SPECIES = lambda t: app('nids', t, sort='int')
DT = lambda t: app('timestep', t)
TOT = lambda t: app('total_time', t)
AX = {'nids': lambda t: [gt0(app('nids', t, sort='int'))]}
NONE = app('None', sort='obj')

CLASSES = {'gr': ('RadialDistributionFunctionLegacy', 'RadialDistributionFunctionFast'),
           'sk': ('StructureFactorLegacy', 'StructureFactorFast'), 'ik': ('SpectralDensity',), 'msd': ('MeanSquareDisplacement',),
           'vacf': ('VelocityAutocorrelation',), 'fkt': ('IntermediateScattering', 'SelfIntermediateScattering', 'SelfIntermediateScatteringLegacy', 'SelfIntermediateScatteringFast'),
           'chi4t': ('Chi4SelfOverlap', 'Chi4SelfOverlapOptimized'), 'alpha2': ('NonGaussianParameter',), 'qt': ('SelfOverlap', 'CollectiveOverlap'),
           'ba': ('BondAngleDistribution',)}

STUB = '''
class Trajectory(object):
    def __getitem__(self, i):
        return _frame(self, i)

    def add_callback(self, *args):
        _note(self, 'callback', args)

    def register_callback(self, *args):
        _note(self, 'callback', args)

    def __len__(self):
        return self.length

    def __enter__(self):
        return self

    def __exit__(self, *args):
        pass
'''


def stub(I):
    if 'api_stub' in I.modules:
        return I.modules['api_stub']
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', '.build', 'api_stub.py')
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path).read() != STUB:
        with open(path, 'w') as f:
            f.write(STUB)
    m = P.Module(I, 'api_stub', path)
    I.modules['api_stub'] = m
    I.overrides[('api_stub', '_note')] = P.Bi('note', lambda I, a, k: note(I, a[0], a[1], *I.concrete_items(a[2])))
    I.overrides[('api_stub', '_frame')] = P.Bi('frame', frame)
    return m


def enc(I, v):
    """Term that stands for a value"""
    if v is None:
        return NONE
    if isinstance(v, bool):
        return cst(int(v))
    if isinstance(v, (str, int, float)):
        return app('text', *[cst(ord(c)) for c in v], sort='obj') if isinstance(v, str) else I.M.num(v)
    if isinstance(v, N):
        return v.p
    if isinstance(v, P.Opq):
        return v.p
    if isinstance(v, P.Sym) and v.key is not None:
        return v.key
    if isinstance(v, P.Cls):
        return app('class_' + v.name, sort='obj')
    if isinstance(v, P.Clo):
        return app('function_' + v.qual, sort='obj')
    if isinstance(v, P.Sl):
        return app('slice', *[enc(I, x) for x in (v.lo, v.hi, v.st)], sort='obj')
    if isinstance(v, (P.Seq, P.Tup, list, tuple)) or I.is_list(v) or I.is_arr(v):
        return listed(I.length(v), lambda j: enc(I, I.pure(lambda: I.seq_get(v, j))))
    if isinstance(v, P.Ref) and I.state(v).kind == 'ins':
        return I.getattr(v, 'key').p
    raise P.Unsupported('argument %r' % (v,))


def listed(n, f):
    """A list of n values"""
    n = T.to_poly(n)
    nm = fresh('_y')
    j = ivar(nm)
    return app('list', n, lam([nm], f(j) * ge0(j) * lt0(j - n)), sort='obj')


def note(I, th, what, *args):
    """One more call in the log of the trajectory"""
    log = I.getattr(th, 'log')
    I.setattr(th, 'log', N(log.p + app(what, *[enc(I, a) for a in args]), 'float'))


def frame(I, a, k):
    th, i = a
    t = I.getattr(th, 'key').p
    # the species of any frame, here the first
    I.oblige('the species are those of the first frame', eq0(I.M.num(i)))
    return P.Sym('frame', {'particle': lambda I: P.Sym('particles', {'_t': lambda I: N(t, 'int')}, key=app('particles', t, sort='obj'))}, key=app('frame', t, sort='obj'))


def the_species(I, a, k):
    t = I.getattr(a[0], '_t').p
    return P.Sym('species', {'_t': lambda I: N(t, 'int')}, key=app('species', t, sort='obj'), ops={'rekey': lambda k: P.Opq(k, 'any'), 'len': lambda I: SPECIES(t)})


def trajectories(I, n):
    """Family of trajectories"""
    t = fresh('_t')
    key = ivar(t)
    oid = I.new_oid()
    I.heap[oid] = P.St('ins', (t,), cls=stub(I).get('Trajectory'), attrs={
        'key': N(key, 'int'), 'log': N(app('nothing', key), 'float'), 'timestep': N(DT(key), 'float'), 'total_time': N(TOT(key), 'float'),
        'filename': STR('filename', key), '_grandcanonical': N(app('statistics', key), 'float'), 'cache': N(ZERO, 'int'),
        'length': N(app('len_file', key, sort='int'), 'int'), 'block_size': N(app('block_size', key, sort='int'), 'int')})
    return oid


def record(I, cls, env):
    """Object built with the arguments env"""
    th = env['trajectory']
    names = sorted(x for x in env if x not in ('self',))
    key = app('new_' + cls, *([enc(I, env[x]) for x in names if x != 'trajectory'] + [enc(I, th), enc(I, I.getattr(th, '_grandcanonical'))]), sort='obj')
    return built(I, key, th)


def built(I, key, th):
    """An object; what is done to it before `do` is part of what is done"""
    state = {'key': key}

    def arguments(spec, a, k):
        d = dict(spec)
        if len(a) > len(spec):
            raise P.PyExc('TypeError', 'too many arguments')
        for nm, v in zip([x for x, _ in spec], a):
            d[nm] = v
        for nm in k:
            if nm not in d:
                raise P.PyExc('TypeError', 'unexpected keyword %s' % nm)
            d[nm] = k[nm]
        return [d[x] for x, _ in spec]

    def weigh(I, a, k):
        state['key'] = weighed(state['key'], *[enc(I, x) for x in arguments([('trajectory', None), ('field', None), ('fluctuations', False)], a, k)])

    def do(I, a, k):
        note(I, th, 'do', P.Opq(state['key'], 'any'), *arguments([('update', False)], a, k))
    return P.Sym('correlation', {'_th': lambda I: th, 'do': lambda I: P.Bi('do', do), 'add_weight': lambda I: P.Bi('add_weight', weigh)},
                 key=key, ops={'rekey': lambda k: P.Opq(k, 'any')})


def weighed(obj, *args):
    return app('weighed', obj, *args, sort='obj')


def build(cls_mod, cls):
    def f(I, args, kw):
        c = I.module(cls_mod).get(cls)
        init, _ = I.class_value(c, '__init__')
        env = I.bind(init, [None] + list(args), kw)
        return record(I, c.name, env)
    return f


def build_partial(I, args, kw):
    env = dict(kw)
    rest = list(args)
    cls = env.pop('corr_cls') if 'corr_cls' in env else rest.pop(0)
    species = env.pop('species') if 'species' in env else rest.pop(0)
    if not isinstance(cls, P.Cls):
        raise P.Unsupported('partial correlations of %r' % (cls,))
    o = build(cls.mod.name, cls.name)(I, rest, env)
    th = rest[0] if rest else env['trajectory']
    return built(I, app('partial', o.key, enc(I, species), sort='obj'), th)


def build_filter(I, env):
    cf, f = [env[x] for x in ('correlation', 'condition')]
    return built(I, app('filter', cf.key, enc(I, f), sort='obj'), I.getattr(cf, '_th'))


def grid_fn(name, params):
    def f(I, env):
        a, b, n = [I.M.num(env[x]) for x in (params if all(x in env for x in params) else list(env)[:3])]
        ln, at = points(name, a, b, n)
        return I.list_fn(ln, lambda j: N(at(j), 'float'))
    return f


def points(name, a, b, n):
    return app('n' + name, a, b, n, sort='int'), lambda j: app(name, a, b, n, j)


def with_zero(ln, f):
    """0.0 followed by the list"""
    return listed(ln + 1, lambda j: gt0(j) * f(j - 1))


CALLEES = {'helpers.linear_grid': grid_fn('linear', ('min_val', 'max_val', 'delta')), 'helpers.logx_grid': grid_fn('logx', ('x1', 'x2', 'n')), 'partial.Partial': build_partial,
           'filter.Filter': build_filter}
for _m in CLASSES:
    for _c in CLASSES[_m]:
        CALLEES['%s.%s' % (_m, _c)] = build(_m, _c)


FLAGS = {'update': 'update', 'no_partial': 'no_partial', 'legacy': 'legacy', 'fast': 'fast'}
NORIG = var('norigins', 'obj')


def flag(nm):
    return N(ivar(nm), 'bool')


def bound(I, mod, cls, params, t, stat=None):
    """The object built with the given parameters, and the default values of the others"""
    c = I.module(mod).get(cls)
    init, _ = I.class_value(c, '__init__')
    a = init.node.args
    names = [x.arg for x in a.args if x.arg not in ('self', 'trajectory')]
    defaults = dict(zip([x.arg for x in a.args][len(a.args) - len(init.defaults):], init.defaults))
    for x in params:
        if x not in names:
            raise P.Unsupported('%s has no parameter %s' % (cls, x))
    vals = [params[x] if x in params else enc(I, defaults[x]) for x in sorted(names)]
    return app('new_' + c.name, *(vals + [t, app('statistics', t) if stat is None else stat]), sort='obj')


def do(obj):
    return app('do', obj, ivar('update'))


def partial(obj, t):
    return app('partial', obj, app('species', t, sort='obj'), sort='obj')


def kgrid(I):
    """Wave-numbers given as text"""
    n = ivar('nkgrid')
    return P.Sym('text', {'split': lambda I: P.Bi('split', split)}, key=var('kgrid', 'obj'))


def split(I, a, k):
    if list(a) != [','] or k:
        raise P.Unsupported('split with %r' % (a,))
    return I.list_fn(ivar('nkgrid'), lambda j: STR('kgrid', j))


def to_float(I, a, k):
    v = a[0]
    if isinstance(v, P.Opq) and v.kind == 'str':
        return N(app('number', v.p), 'float')
    from vc import models as M
    return I.call(P.Ty('float', M.TYPES['float']) if 'float' in M.TYPES else M.BUILTINS['float'], a, k)


def the_kgrid(case):
    if case == 'text':
        return listed(ivar('nkgrid'), lambda j: app('number', app('kgrid', j, sort='obj')))
    ln, at = points('linear', rvar('kmin'), rvar('kmax'), ivar('ksamples'))
    return listed(ln, at)


TIMES = {'maximum time': [gt0(rvar('tmax'))], 'fraction of the total time': [le0(rvar('tmax')), gt0(rvar('tmax_fraction'))],
         'no grid': [le0(rvar('tmax')), le0(rvar('tmax_fraction'))]}


def the_tgrid(case, func, t, capped):
    if case == 'no grid':
        return NONE
    # the maximum time beyond the total time is not covered by the statement
    last = T.minp(TOT(t), rvar('tmax')) if capped else rvar('tmax')
    end = last if case == 'maximum time' else rvar('tmax_fraction') * TOT(t)
    return with_zero(*points(func, DT(t), end, ivar('tsamples')))


# interface function: numerical options, with the parameters of the correlation they become
TIME = ('tmax', 'tmax_fraction')
SPEC = {
    'gr': dict(mod='gr', cls='RadialDistributionFunctionFast', legacy='RadialDistributionFunctionLegacy', statistics=True, filter=True,
               options={'dr': 'dr', 'ndim': 'ndim', 'rmax': 'rmax'}),
    'sk': dict(mod='sk', cls='StructureFactorLegacy', fast='StructureFactorFast', filter=True, weight=True, kgrid='alone',
               options={x: x for x in ('nk', 'dk', 'kmin', 'kmax', 'ksamples')}),
    'ik': dict(mod='ik', cls='SpectralDensity', kgrid='alone', nopartial=True, radius=True,
               options={x: x for x in ('nk', 'dk', 'kmin', 'kmax', 'ksamples')}),
    'msd': dict(mod='msd', cls='MeanSquareDisplacement', times=True,
                options={'sigma': 'sigma', 'rmsd_max': 'rmax', 'fix_cm': 'fix_cm', 'no_offset': 'no_offset'}),
    'vacf': dict(mod='vacf', cls='VelocityAutocorrelation', times=True, options={}),
    'fkt': dict(mod='fkt', cls='IntermediateScattering', times=True, kgrid='grid', total=True, options={x: x for x in ('nk', 'dk', 'fix_cm')}),
    'fskt': dict(mod='fkt', cls='SelfIntermediateScattering', legacy='SelfIntermediateScatteringLegacy', times=True, kgrid='grid', total=True,
                 options={x: x for x in ('nk', 'dk', 'fix_cm', 'lookup_mb')}),
    'chi4qs': dict(mod='chi4t', cls='Chi4SelfOverlap', fast='Chi4SelfOverlapOptimized', times=True, total='alone', options={'a': 'a'}),
    'alpha2': dict(mod='alpha2', cls='NonGaussianParameter', times=True, options={}),
    'qst': dict(mod='qt', cls='SelfOverlap', times=True, options={}),
    'qt': dict(mod='qt', cls='CollectiveOverlap', times=True, options={}),
    'ba': dict(mod='ba', cls='BondAngleDistribution', statistics=True, filter=True, options={'dtheta': 'dtheta'}),
}
INTS = ('nk', 'ksamples', 'ndim', 'fix_cm', 'no_offset', 'tsamples', 'total', 'grandcanonical', 'weight_fluctuations')


def prove(pr):
    defaults(pr)
    for first in (False, True):
        for last in (False, True):
            for skip in (False, True):
                selection(pr, first, last, skip)
    for name in SPEC:
        interface(pr, name, SPEC[name])


def interface(pr, name, sp):
    cases = [(t, k, f, filtered) for t in (list(TIMES) if sp.get('times') else [None])
             for k in ((['text', 'range'] if sp['kgrid'] == 'grid' else ['text', None]) if sp.get('kgrid') else [None])
             for f in ((('linear', 'logx', 'linear_grid', 'logx_grid') if name == 'msd' and t == 'maximum time' else ('linear', 'logx')) if sp.get('times') and t != 'no grid' else ('logx',) if sp.get('times') else (None,))
             for filtered in ((False, True) if sp.get('filter') else (False,))]
    backends = [(None, {}, 'cls')] + [(x, {x: True}, x) for x in ('legacy', 'fast') if x in sp]
    for t, k, func, filtered in cases:
        for which, choice, c in backends:
            one(pr, name, sp, t, k, func, filtered, choice, sp[c], ', '.join(str(x) for x in (t, k, func, 'filter' if filtered else None, which) if x))


def one(pr, name, sp, tcase, kcase, func, filtered, choice, cls, what):
    nf = ivar('nfiles')
    num = lambda x: iN(x) if x in INTS else rN(x)
    facts = [ge0(nf), ge0(ivar('update')), le0(ivar('update') - 1), ge0(ivar('no_partial')), le0(ivar('no_partial') - 1)]
    if sp.get('total'):
        facts += [ge0(ivar('total')), le0(ivar('total') - 1)]
    if tcase:
        facts += TIMES[tcase]

    def run(I):
        oid = trajectories(I, nf)
        fn = I.module('api').get(name)

        def files(I, env):
            I.oblige('the files are those given', eq0(I.length(env['input_files']) - nf - 1))
            j = ivar(fresh('_j'))
            for pc, (kind, v), heap, fs in I.explore(lambda: I.seq_get(env['input_files'], j)):
                I.obls.append(('the files are those given, in order', list(I.facts) + list(fs) + [ge0(j), le0(j - nf)], ('eq', v.p, app('file', j, sort='obj'))))
            if not isinstance(env['args'], P.Ref):
                raise P.Unsupported('options %r' % (env['args'],))
            I.obls.append(('the options are those given', list(I.facts), ('eq', enc(I, I.M.dict_get(I, env['args'], 'skip')), var('skip', 'obj'))))
            return I.list_fn(nf + 1, lambda j: P.Ref(oid, [j]))
        I.contracts = dict(I.contracts, **{'api._get_trajectories': files})
        I.overrides[('atooms.system.particle', 'distinct_species')] = P.Bi('distinct_species', the_species)
        I.overrides[('atooms.trajectory', 'TrajectoryXYZ')] = P.Bi('TrajectoryXYZ', lambda I, a, k: P.Opq(app('trajectory_of', enc(I, a[0]), sort='obj'), 'any'))
        kw = {x: num(x) for x in sp['options']}
        kw.update({'norigins': P.Opq(NORIG, 'any'), 'update': flag('update'), 'no_partial': flag('no_partial'), 'skip': P.Opq(var('skip', 'obj'), 'any')})
        if sp.get('times'):
            kw.update(tmax=rN('tmax'), tmax_fraction=rN('tmax_fraction'), tsamples=iN('tsamples'), func=func)
        if sp.get('kgrid') == 'grid':
            kw.update(kmin=rN('kmin'), kmax=rN('kmax'), ksamples=iN('ksamples'))
        if kcase == 'text':
            kw['kgrid'] = kgrid(I)
        if sp.get('total'):
            kw['total'] = flag('total')
        if sp.get('statistics'):
            kw['grandcanonical'] = flag('grandcanonical')
        if sp.get('weight'):
            kw.update(weight=STR('weight'), weight_trajectory=STR('weight_file'), weight_fluctuations=flag('weight_fluctuations'))
        if sp.get('radius') and kcase:
            kw['trajectory_radius'] = STR('radius_file')
        if filtered:
            kw['filter'] = STR('condition')
        kw.update(choice)
        env = I.bind(fn, [STR('file', ZERO)], kw)
        env['input_files'] = I.list_fn(nf, lambda j: STR('file', j + 1))
        I.run_body(fn, env)
        return oid

    def log(I, t, capped):
        par = {v: ivar(x) if x in INTS else rvar(x) for x, v in sp['options'].items()}
        par['norigins'] = NORIG
        if sp.get('times'):
            par['tgrid'] = the_tgrid(tcase, func.split('_')[0], t, capped)
        if kcase:
            par['kgrid'] = the_kgrid(kcase)
        if sp.get('radius'):
            par['trajectory_radius'] = app('radius_file', sort='obj') if kcase else app('filename', t, sort='obj')
        stat = ivar('grandcanonical') if sp.get('statistics') else None
        obj = bound(I, sp['mod'], cls, par, t, stat)
        several = ge0(SPECIES(t) - 2)
        with_partial = several * (1 - ivar('no_partial')) * (ZERO if filtered or sp.get('nopartial') else ONE)
        total = 1 - (1 - ivar('total')) * several if sp.get('total') else ONE
        if sp.get('total') == 'alone':
            with_partial = with_partial * (1 - ivar('total'))
        whole = app('filter', obj, app('condition', sort='obj'), sort='obj') if filtered else obj
        part = partial(obj, t)
        if sp.get('weight'):
            w = [app('trajectory_of', app('weight_file', sort='obj'), sort='obj'), app('weight', sort='obj'), ivar('weight_fluctuations')]
            whole, part = weighed(whole, *w), weighed(part, *w)
        return app('nothing', t) + total * do(whole) + with_partial * do(part)

    def post(I, kind, oid):
        t = ivar(fresh('_t'))
        got = I.getattr(P.Ref(oid, [t]), 'log').p
        want = [('eq', got, log(I, t, c)) for c in ((False, True) if tcase == 'maximum time' else (False,))]
        yield from ranged([('%s: what is computed, and with which options' % what, ('any', want) if len(want) > 1 else want[0])], t, nf + 1)
    pr.verify('api.%s' % name, run, post, facts, contracts=CALLEES, axioms=AX, nonneg=('nlinear', 'nlogx', 'nkgrid'),
              module_overrides={('builtins', 'float'): P.Ty('float', to_float)})


def defaults(pr):
    """_compat: options not given are off; a filter disables partial correlations"""
    OFF = ('center', 'fast', 'legacy', 'no_cache', 'update', 'no_partial')
    NOTHING = ('first', 'last', 'skip', 'fmt', 'species_layout', 'norigins', 'filter')
    for given_, what in (((), 'nothing given'), (OFF + NOTHING, 'all given'), (('filter',), 'filter')):
        def run(I):
            d = I.M.dict_of(I, {x: P.Opq(var('opt_' + x, 'obj'), 'any') for x in given_})
            return I.call(I.module('api').get('_compat'), [d])

        def post(I, kind, d):
            for x in OFF + NOTHING:
                v = I.M.dict_get(I, d, x)
                want = True if x == 'no_partial' and 'filter' in given_ else P.Opq(var('opt_' + x, 'obj'), 'any') if x in given_ else False if x in OFF else None
                yield '%s: %s' % (what, x), ('eq', enc(I, v), enc(I, want))
        pr.verify('api._compat', run, post)


def selection(pr, first, last, skip):
    """_get_trajectories: one trajectory per file, of the blocks selected, with the callbacks requested"""
    n = ivar('nfiles')
    B = lambda j: app('block_size', j, sort='int')
    NF = lambda j: app('len_file', j, sort='int')
    fmt, layout = STR('fmt'), STR('layout')
    idx = lambda nm, j: app('index', app(nm, sort='obj'), NF(j), sort='int')
    what = ', '.join(x for x, y in (('first', first), ('last', last), ('skip', skip)) if y) or 'all frames'

    def frames_of(j, lo, hi, st):
        return app('frames', j, lo, hi, st, sort='obj')

    def run(I):
        oid = trajectories(I, n)

        def sym(j, lo=None, hi=None, st=1):
            ref = P.Ref(oid, [j])
            get = lambda a: lambda I: I.getattr(ref, a)
            return P.Sym('trajectory', {'_j': lambda I: N(j, 'int'), 'block_size': get('block_size'), 'add_callback': lambda I: P.Bi('add_callback', callback(ref)),
                                        'register_callback': lambda I: P.Bi('register_callback', callback(ref)), '__enter__': None},
                         key=frames_of(j, enc(I, lo), enc(I, hi), enc(I, st)),
                         ops={'len': lambda I: NF(j), 'setattr': lambda I, nm, v: note(I, ref, 'set_' + nm, v), 'rekey': again})

        def again(k):
            return P.Sym('trajectory', {}, key=k, ops={'rekey': again})

        def opened(I, a, k):
            f = a[0]
            atom = next(iter(f.p.terms))[0].factors[0][0]
            I.oblige('the format is the one given', ONE if len(a) == 1 and set(k) == {'fmt'} and k['fmt'].p is fmt.p else ZERO)
            return sym(atom.data[1][0])

        def callback(ref):
            def f(I, a, k):
                s = P.Sym('system', {}, key=var('system', 'obj'), ops={'copy': lambda I: P.Sym('system', {}, key=app('shallow', var('system', 'obj'), sort='obj'))})
                r = I.call(a[0], [s] + list(a[1:]), k)
                note(I, ref, 'callback', r)
            return f

        def sliced(I, a, k):
            th, sl = a
            return sym(I.getattr(th, '_j').p, sl.lo, sl.hi, 1 if sl.st is None else sl.st)

        def fractional(I, a, k):
            f, l, s, m = a
            for v, nm, on in ((f, 'first', first), (l, 'last', last), (s, 'skip', skip)):
                I.oblige('%s is the one given' % nm, ONE if enc(I, v) is (app(nm, sort='obj') if on else NONE) else ZERO)
            ln = I.M.num(m)
            return P.Sl(N(app('index', app('first', sort='obj'), ln, sort='int'), 'int') if first else None,
                        N(app('index', app('last', sort='obj'), ln, sort='int'), 'int') if last else None, iN('step') if skip else None)
        ob = lambda nm: P.Bi(nm, lambda I, a, k: P.Sym('system', {}, key=app(nm, *[enc(I, x) for x in a], sort='obj')))
        I.overrides.update({('atooms.trajectory', 'Trajectory'): P.Bi('Trajectory', opened), ('atooms.trajectory', 'Sliced'): P.Bi('Sliced', sliced),
                            ('atooms.core.utils', 'fractional_slice'): P.Bi('fractional_slice', fractional), ('copy', 'deepcopy'): ob('copied'),
                            ('atooms.trajectory.decorators', 'change_species'): ob('change_species'), ('atooms.trajectory.decorators', 'center'): ob('centered')})
        opts = {'first': OBJ('first') if first else None, 'last': OBJ('last') if last else None, 'skip': OBJ('skip') if skip else None, 'fmt': fmt,
                'center': flag('center'), 'no_cache': flag('no_cache'), 'species_layout': layout if first else None}
        r = I.call(I.module('api').get('_get_trajectories'), [I.list_fn(n, lambda j: STR('file', j)), I.M.dict_of(I, opts)])
        return I.alloc(P.St('list', (), segs=r.segs)) if isinstance(r, P.Seq) else r, oid

    def post(I, kind, v):
        r, oid = v
        j = ivar(fresh('_j'))
        yield what + ': one trajectory per file', length_is(I, r, n)
        for several in (False, True):
            at = (lambda nm: T.floor(idx(nm, j) * T.inv(B(j))) * B(j)) if several else (lambda nm: idx(nm, j))
            want = frames_of(j, at('first') if first else NONE, at('last') if last else NONE, ivar('step') if skip else ONE)
            case = gt0(B(j) - 1) if several else le0(B(j) - 1)
            yield '%s: the blocks selected%s' % (what, ', blocks' if several else ''), \
                ('under', [ge0(j), lt0(j - n), case], ('eq', enc(I, I.pure(lambda: item(I, r, j))), want))
        c = ivar('center')
        s = var('system', 'obj')
        log = app('nothing', j) + c * app('callback', app('centered', app('copied', s, sort='obj'), sort='obj')) + \
            (1 - ivar('no_cache')) * app('set_cache', ONE) + (app('callback', app('change_species', s, layout.p, sort='obj')) if first else ZERO)
        yield from ranged([('%s: callbacks and cache' % what, ('eq', I.getattr(P.Ref(oid, [j]), 'log').p, log))], j, n)
    facts = [ge0(n), ge0(ivar('center')), le0(ivar('center') - 1), ge0(ivar('no_cache')), le0(ivar('no_cache') - 1)]
    pr.verify('api._get_trajectories', run, post, facts, axioms={'block_size': lambda t: [gt0(app('block_size', t, sort='int'))]}, nonneg=('len_file',))
