"""C20: options of the programming interface"""

import glob
import inspect
import os
import numpy as np
from .lib import *

COMMON = {'first': None, 'last': None, 'skip': None, 'center': False, 'species_layout': None, 'no_cache': False}


def write_xyz(r, path, species, n, F, d, steps, cell, dt, center=False):
    spe = [species[i % len(species)] for i in range(n)]
    spe = [spe[i] for i in r.permutation(n)]
    x = (r.rand(n, d) - 0.5) * cell
    rad = r.uniform(0.3, 0.6, n)
    with open(path, 'w') as fh:
        for f in range(F):
            x = x + r.uniform(-1, 1, (n, d)) * 0.3
            x = x - np.floor(x / cell + 0.5) * cell
            v = r.randn(n, d)
            fh.write('%d\nstep:%d columns:id,pos,vel,radius,charge dt:%g cell:%s\n' % (n, steps[f], dt, ','.join('%g' % c for c in cell)))
            for i in range(n):
                fh.write('%s %s %s %.5f %.5f\n' % (spe[i], ' '.join('%.6f' % c for c in x[i] + (cell / 2 if center else 0)), ' '.join('%.6f' % c for c in v[i]), rad[i], r.rand()))
    return spe


def trajectory(path, opts):
    """The trajectory the options ask for"""
    from atooms.trajectory import Trajectory, Sliced
    from atooms.trajectory.decorators import change_species, center
    th = Trajectory(path)
    if opts['center']:
        th.add_callback(center)
    if opts['species_layout'] is not None:
        th.register_callback(change_species, opts['species_layout'])
    n = len(th)

    def index(x):
        if x is None:
            return None
        return int(x * n) if 0 < x < 1 else int(x)
    a, b = index(opts['first']), index(opts['last'])
    B = th.block_size
    if B > 1:
        a = a if a is None else (a // B) * B
        b = b if b is None else (b // B) * B
    if (a, b, opts['skip']) != (None, None, None):
        th = Sliced(th, slice(a, b, opts['skip']))
    return th


def grid(th, func, tmax, frac, n):
    dt = th.timestep
    end = tmax if tmax > 0 else frac * th.total_time
    if func == 'linear':
        return [0.0] + list(np.linspace(dt, end, n))
    return [0.0, dt] + [dt * (end / dt) ** (j / n) for j in range(2, n + 1)]


def contents():
    out = {}
    for p in sorted(glob.glob('*.pp.*')):
        lines = open(p).read().split('\n')
        out[p] = ([float(x) for l in lines if l and not l.startswith('#') for x in l.split()], [l for l in lines if l.startswith('# ') and ':' in l and 'date' not in l and 'command' not in l])
        os.remove(p)
    return out


def different(got, want):
    if set(got) != set(want):
        return 'files %s instead of %s' % (sorted(got), sorted(want))
    for p in want:
        m = close(got[p][0], want[p][0], 2e-4, 2e-4)
        if m:
            return '%s: %s' % (p, m)
        if len(got[p][1]) != len(want[p][1]):
            return '%s: header %s instead of %s' % (p, got[p][1], want[p][1])


def plan(r, pp, name, th, opts, kw, path):
    """Correlations expected: (class, partial, args, kwargs) and the arguments for the interface"""


def check_options(params):
    """Files written by the interface against those of the correlations built with the same options"""
    import atooms.postprocessing as pp
    import atooms.postprocessing.api as api
    from atooms.postprocessing.partial import Partial
    r = rng(params)
    d = int(r.choice([2, 3]))
    ns = int(r.choice([1, 2, 2]))
    species = ['A', 'B'][:ns]
    nfiles = int(r.choice([1, 1, 2]))
    names = ['msd', 'vacf', 'fkt', 'fskt', 'gr', 'sk', 'chi4qs', 'ik', 'alpha2', 'qst', 'qt', 'ba']
    name = names[params.get('round', 0) % len(names)] if 'name' not in params else params['name']
    if name in ('ik', 'ba'):
        d = 3
    opts = dict(COMMON)
    log = bool(r.rand() < 0.4)
    if log:
        steps = [b + 8 * k for k in range(4) for b in (0, 1, 2, 4)]
    else:
        steps = [2 * i for i in range(int(r.randint(8, 14)))]
    F = len(steps)
    u = r.rand()
    if u < 0.2:
        opts['first'] = int(r.randint(1, 6))
    elif u < 0.3:
        opts['first'] = float(r.uniform(0.1, 0.4))
    elif u < 0.45:
        opts['last'] = int(r.randint(F - 4, F))
    elif u < 0.6:
        opts['last'] = float(r.uniform(0.7, 0.95))
    elif u < 0.65 and not log:
        opts['skip'] = 2
    if r.rand() < 0.1:
        opts['center'] = True
    if r.rand() < 0.1:
        opts['species_layout'] = 'C'
    if r.rand() < 0.2:
        opts['no_cache'] = True
    no = [None, -1, -1, 2, 3, 0.5, 1, '2', '0.5', '-1'][r.randint(10)]
    noarg = {} if no is None else {'norigins': no}
    flags = {}
    if r.rand() < 0.25:
        flags['no_partial'] = True
    for k in ('fast', 'legacy'):
        if r.rand() < 0.35:
            flags[k] = True
    cond = None
    if name in ('gr', 'sk', 'ba') and ns == 2 and r.rand() < 0.3 and opts['species_layout'] is None:
        cond = 'species == "A"' + (', species == "B"' if r.rand() < 0.5 else '')
        flags['filter'] = cond
    kw = {}

    def opt(key, value, p=0.6):
        if r.rand() < p:
            kw[key] = value

    total_arg = bool(r.rand() < 0.5)
    with scratch():
        cells = (r.uniform(4., 5., d) if r.rand() < 0.6 else np.ones(d) * 4.5).round(3)
        n = int(r.randint(5, 8)) * ns if name != 'ba' else 8 * ns
        files = []
        dt = float(r.choice([1.0, 0.5, 0.01]))
        for i in range(nfiles):
            path = 'trj%d.xyz' % i
            write_xyz(r, path, species, n + i * ns, F, d, steps, cells, dt, opts['center'])
            files.append(path)
        T = steps[-1] * dt
        timed = name in ('msd', 'vacf', 'fkt', 'fskt', 'chi4qs', 'alpha2', 'qst', 'qt')
        if timed:
            if r.rand() < 0.4:
                kw['tmax'] = float(r.uniform(0.4, 0.5) * T)
                if opts['first'] is not None or opts['last'] is not None:
                    kw['tmax'] = float(0.3 * T)
            if r.rand() < 0.4 or 'tmax' not in kw:
                kw['tmax_fraction'] = float(r.uniform(0.2, 0.8))
            kw['tsamples'] = int(r.randint(3, 8))
            kw['func'] = str(r.choice(['linear', 'logx', 'linear_grid', 'logx_grid']))
        kmin = 2 * np.pi / min(cells)
        if name in ('fkt', 'fskt', 'sk', 'ik'):
            if r.rand() < 0.5:
                kw['kgrid'] = ','.join('%.3f' % x for x in sorted(r.uniform(kmin, 1.8 * kmin, r.randint(1, 3))))
            else:
                kw['kmin'], kw['kmax'], kw['ksamples'] = float(kmin), float(1.5 * kmin), int(r.randint(1, 4))
            kw['nk'] = int(r.choice([2, 5, 30]))
            kw['dk'] = float(r.choice([0.3, 0.05, 0.6]))
        if name == 'msd':
            opt('sigma', float(r.choice([0.2, 0.7])))
            opt('rmsd_max', float(r.choice([0.3, 0.6])), 0.3)
            opt('fix_cm', True, 0.4)
            opt('no_offset', True, 0.4)
        if name in ('fkt', 'fskt'):
            opt('fix_cm', True, 0.4)
            if name == 'fskt':
                opt('lookup_mb', 1e-3)
        if name in ('fkt', 'fskt', 'chi4qs'):
            kw['total'] = total_arg
        if name == 'chi4qs':
            opt('a', float(r.choice([0.4, 0.6])))
        if name == 'gr':
            kw['dr'] = float(r.choice([0.1, 0.25]))
            opt('rmax', float(r.choice([1.0, 1.6])), 0.4)
            opt('ndim', d, 0.2)
        if name == 'sk' and r.rand() < 0.5:
            kw['weight'] = 'charge'
            opt('weight_fluctuations', True, 0.5)
            if r.rand() < 0.5 and nfiles == 1 and opts == COMMON:
                write_xyz(r, 'weight.xyz', species, n, F, d, steps, cells, dt, opts['center'])
                kw['weight_trajectory'] = 'weight.xyz'
        if name == 'ik' and r.rand() < 0.5 and nfiles == 1 and opts == COMMON:
            write_xyz(r, 'radius.xyz', species, n, F, d, steps, cells, dt, opts['center'])
            kw['trajectory_radius'] = 'radius.xyz'
        if name == 'ba':
            opt('dtheta', float(r.choice([10., 30.])), 1)
        describe(name=name, kw=kw, opts=opts, flags=flags, norigins=no, species=ns, n=n, d=d, steps=steps, files=nfiles)
        given = {k: v for k, v in opts.items() if v != COMMON[k] or r.rand() < 0.2}
        given.update(flags)
        given.update(noarg)

        # expected
        defaults = {k: p.default for k, p in inspect.signature(getattr(api, name)).parameters.items()
                    if p.default is not inspect.Parameter.empty}
        o = dict(defaults)
        o.update(kw)
        warned = []
        for path in files:
            th = trajectory(path, opts)
            ids = sorted(set(p.species for s in th for p in s.particle))
            part = len(ids) > 1 and not flags.get('no_partial') and cond is None
            tot = True
            a, k = (), {'norigins': no}
            if timed:
                a = (grid(th, 'linear' if 'linear' in o['func'] else 'log', o['tmax'], o['tmax_fraction'], o['tsamples']),)
            if name in ('fkt', 'fskt'):
                kg = [float(x) for x in o['kgrid'].split(',')] if o['kgrid'] else [float(x) for x in np.linspace(o['kmin'], o['kmax'], o['ksamples'])]
                k.update(kgrid=kg, tgrid=a[0], nk=o['nk'], dk=o['dk'], fix_cm=o['fix_cm'])
                a = ()
                tot = o['total'] or len(ids) == 1
            if name == 'msd':
                cls = pp.MeanSquareDisplacement
                k.update(sigma=o['sigma'], rmax=o['rmsd_max'], no_offset=o['no_offset'], fix_cm=o['fix_cm'])
            elif name == 'vacf':
                cls = pp.VelocityAutocorrelation
            elif name == 'fkt':
                cls = pp.IntermediateScattering
            elif name == 'fskt':
                cls = pp.SelfIntermediateScatteringLegacy if flags.get('legacy') else pp.SelfIntermediateScattering
                k.update(lookup_mb=o['lookup_mb'])
            elif name == 'chi4qs':
                cls = pp.Chi4SelfOverlapOptimized if flags.get('fast') else pp.Chi4SelfOverlap
                k.update(a=o['a'])
                tot = o['total'] or len(ids) == 1
                part = part and not o['total']
            elif name == 'alpha2':
                cls = pp.NonGaussianParameter
            elif name == 'qst':
                cls = pp.SelfOverlap
            elif name == 'qt':
                cls = pp.CollectiveOverlap
            elif name == 'gr':
                cls = pp.RadialDistributionFunctionLegacy if flags.get('legacy') else pp.RadialDistributionFunction
                k.update(dr=o['dr'], rmax=o['rmax'], ndim=o['ndim'])
            elif name == 'ba':
                cls = pp.BondAngleDistribution
                k.update(dtheta=o['dtheta'])
            elif name in ('sk', 'ik'):
                cls = pp.SpectralDensity if name == 'ik' else (pp.StructureFactorFast if flags.get('fast') else pp.StructureFactorLegacy)
                kg = [float(x) for x in o['kgrid'].split(',')] if o['kgrid'] else None
                k.update(kgrid=kg, kmin=o['kmin'], kmax=o['kmax'], nk=o['nk'], dk=o['dk'], ksamples=o['ksamples'])
                if name == 'ik':
                    a = (o['trajectory_radius'] or path,)
                    part = False

            def fresh():
                return (tuple(list(x) if isinstance(x, list) else x for x in a),
                        {q: list(v) if isinstance(v, list) else v for q, v in k.items()})

            def weight(c):
                if name == 'sk' and o['weight']:
                    from atooms.trajectory import TrajectoryXYZ
                    w = TrajectoryXYZ(o['weight_trajectory']) if o['weight_trajectory'] else None
                    c.add_weight(trajectory=w, field=o['weight'], fluctuations=o['weight_fluctuations'])
            if tot:
                t = trajectory(path, opts)
                t._grandcanonical = False
                aa, kk = fresh()
                c = cls(t, *aa, **kk)
                if cond:
                    c = pp.Filter(c, cond)
                weight(c)
                try:
                    c.do()
                except IndexError:
                    if name == 'ba':
                        # default cutoffs: no minimum in the radial distribution function
                        return None
                    raise
            if part:
                t = trajectory(path, opts)
                t._grandcanonical = False
                aa, kk = fresh()
                c = Partial(cls, ids, t, *aa, **kk)
                weight(c)
                c.do()
        want = contents()
        # all positional input files come after the options, so they are all named here
        fun = getattr(api, name)
        pos = [p for p in inspect.signature(fun).parameters.values() if p.kind == p.POSITIONAL_OR_KEYWORD]
        if nfiles > 1:
            vals = [files[0]] + [o[p.name] for p in pos[1:]]
            fun(*(vals + files[1:]), **given)
        else:
            fun(files[0], **dict(kw, **given))
        got = contents()
        return different(got, want)


def check_arguments(params):
    """Arguments received by the correlations, and the update option"""
    import atooms.postprocessing as pp
    import atooms.postprocessing.api as api
    from atooms.postprocessing.correlation import Correlation
    r = rng(params)
    names = ['msd', 'vacf', 'fkt', 'fskt', 'gr', 'sk', 'chi4qs', 'ik', 'alpha2', 'qst', 'qt', 'ba']
    name = names[params.get('round', 0) % len(names)]
    ns = int(r.choice([1, 2]))
    flags = {}
    for k in ('fast', 'legacy'):
        if r.rand() < 0.4:
            flags[k] = True
    simple = {'msd': {'sigma': 'sigma', 'rmsd_max': 'rmax', 'fix_cm': 'fix_cm', 'no_offset': 'no_offset'},
              'fskt': {'lookup_mb': 'lookup_mb', 'nk': 'nk', 'dk': 'dk', 'fix_cm': 'fix_cm'},
              'fkt': {'nk': 'nk', 'dk': 'dk', 'fix_cm': 'fix_cm'},
              'gr': {'dr': 'dr', 'rmax': 'rmax', 'ndim': 'ndim'},
              'sk': {'kmin': 'kmin', 'kmax': 'kmax', 'nk': 'nk', 'dk': 'dk', 'ksamples': 'ksamples'},
              'ik': {'kmin': 'kmin', 'kmax': 'kmax', 'nk': 'nk', 'dk': 'dk', 'ksamples': 'ksamples'},
              'chi4qs': {'a': 'a'}, 'ba': {'dtheta': 'dtheta'}}.get(name, {})
    defaults = {k: p.default for k, p in inspect.signature(getattr(api, name)).parameters.items()}
    kw = {}
    for k in simple:
        v = defaults[k]
        kw[k] = (not v) if isinstance(v, bool) else (int(r.randint(2, 50)) if isinstance(v, int) else float(r.uniform(0.1, 9.)))
    if 'ndim' in kw:
        kw['ndim'] = 3
    if 'total' in defaults:
        kw['total'] = bool(r.rand() < 0.5)
    update = bool(r.rand() < 0.5)
    no = [3, -1, '0.5', 0.25, 2][r.randint(5)]
    describe(name=name, kw=kw, flags=flags, species=ns, update=update, norigins=no)
    classes = {k: v for k, v in vars(pp).items() if inspect.isclass(v) and issubclass(v, Correlation) and v is not Correlation}
    calls = []
    old = {}
    olddo, oldpdo = Correlation.do, pp.Partial.do
    depth = [0]

    def wrap(cls, init):
        sig = inspect.signature(init)

        def new(self, *a, **k):
            if depth[0] == 0:
                b = sig.bind(self, *a, **k)
                b.apply_defaults()
                calls.append((type(self), dict(b.arguments)))
            depth[0] += 1
            try:
                return init(self, *a, **k)
            finally:
                depth[0] -= 1
        new.__signature__ = sig
        return new
    done = []

    def do(self, update=False):
        done.append((self, update))
    try:
        for c in set(classes.values()):
            if '__init__' in vars(c):
                old[c] = c.__init__
                c.__init__ = wrap(c, c.__init__)
        Correlation.do = do
        pp.Partial.do = do
        with scratch():
            write_xyz(r, 't.xyz', ['A', 'B'][:ns], 6 * ns, 6, 3, [2 * i for i in range(6)], np.ones(3) * 4.4, 0.5)
            getattr(api, name)('t.xyz', norigins=no, update=update, **dict(kw, **flags))
    finally:
        for c, f in old.items():
            c.__init__ = f
        Correlation.do, pp.Partial.do = olddo, oldpdo
    L, F = flags.get('legacy'), flags.get('fast')
    cls = {'msd': pp.MeanSquareDisplacement, 'vacf': pp.VelocityAutocorrelation, 'fkt': pp.IntermediateScattering,
           'fskt': pp.SelfIntermediateScatteringLegacy if L else pp.SelfIntermediateScattering,
           'gr': pp.RadialDistributionFunctionLegacy if L else pp.RadialDistributionFunction,
           'sk': pp.StructureFactorFast if F else pp.StructureFactorLegacy,
           'chi4qs': pp.Chi4SelfOverlapOptimized if F else pp.Chi4SelfOverlap, 'ik': pp.SpectralDensity,
           'alpha2': pp.NonGaussianParameter, 'qst': pp.SelfOverlap, 'qt': pp.CollectiveOverlap, 'ba': pp.BondAngleDistribution}[name]
    nb = cls.nbodies
    tot = kw['total'] or ns == 1 if name in ('fkt', 'fskt', 'chi4qs') else True
    part = ns > 1 and name != 'ik' and not (name == 'chi4qs' and kw['total'])
    n = int(bool(tot)) + (ns ** nb if part else 0)
    if len(calls) != n:
        return '%d correlations built instead of %d' % (len(calls), n)
    for c, a in calls:
        if c is not cls:
            return '%s used instead of %s' % (c.__name__, cls.__name__)
        for k, v in simple.items():
            if v in a and a[v] != kw[k]:
                return '%s: %s is %r instead of %r' % (name, v, a[v], kw[k])
        if a.get('norigins') != no:
            return '%s: norigins is %r instead of %r' % (name, a.get('norigins'), no)
    if len(done) != int(bool(tot)) + int(part):
        return '%d evaluations instead of %d' % (len(done), int(bool(tot)) + int(part))
    for c, u in done:
        if bool(u) != update:
            return 'update is %r instead of %r' % (u, update)


CHECKS = [check_options, check_arguments]
