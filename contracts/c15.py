"""C15: correlations see exactly the selected particles of every frame"""

from .phase import *

VARIANTS = [('pos', ['pos']), ('vel', ['vel']), ('pos-unf', ['pos-unf']), (['pos', 'vel', 'ids'], ['pos', 'vel', 'ids'])]
NAMES = {'pos': '_pos', 'vel': '_vel', 'pos-unf': '_pos_unf', 'ids': '_ids'}


def unfolded(I, a, k):
    """
    Unfolded(trajectory, fixed_cm): the same frames with unfolded positions,
    minus those of the center of mass if required, folded again by the
    callback fold.
    """
    th = a[0]
    cm = k.get('fixed_cm', a[1] if len(a) > 1 else False)
    I.oblige('the trajectory of the correlation is unfolded', ONE if isinstance(th, P.Sym) and th.ops.get('identity') == 'th' else ZERO)
    cm = I.truth_poly(cm).const() == 1
    ghost = I.alloc(P.St('ins', (), cls=stub(I).get('Cell'), attrs={'folds': 0}))
    fam = {}
    for fold in (0, 1):
        fam[fold] = frames(I, ('folded' if fold else 'unfolded') + ('_cm_' if cm else '_'))[0]

    def add(I, a, k):
        I.oblige('the only callback folds the positions', ONE if len(a) == 1 and not k and isinstance(a[0], P.Sym) and a[0].key == 'fold' else ZERO)
        I.setattr(ghost, 'folds', I.getattr(ghost, 'folds') + 1)
    def at(I, i):
        n = I.getattr(ghost, 'folds')
        I.oblige('positions are folded once', ONE if n < 2 else ZERO)
        return P.Ref(fam[min(n, 1)], [T.to_poly(i)])
    return P.Sym('unfolded', {'add_callback': P.Bi('add_callback', add)}, key=None, ops={
        'getitem': lambda I, i: at(I, M_num(i)), 'len': lambda I: F, 'item': at, 'identity': 'unf',
        'setattr': lambda I, n, v: None})


def distinct(I, a, k):
    """distinct_species: sorted list of the species of the particles"""
    lst = a[0]
    j = ivar(fresh('_p'))
    I.oblige('species of all the particles of the first frame', T.eq0(I.length(lst) - NPART(ZERO)))
    p = I.seq_get(lst, j)
    ok = T.eq0(I.getattr(p, 'species').p - app('species', ZERO, j, sort='obj'))
    I.oblige('species of all the particles of the first frame', ok)
    return P.Sym('species', {'index': P.Bi('index', lambda I, a, k: N(app('species_index', a[0].p, sort='int'), 'int'))}, key=None)


OVER = {('atooms.trajectory.decorators', 'Unfolded'): P.Bi('Unfolded', unfolded),
        ('atooms.trajectory.decorators', 'fold'): P.Sym('fold', {}, key='fold'),
        ('atooms.system.particle', 'distinct_species'): P.Bi('distinct_species', distinct)}


def prove(pr):
    filters(pr)

    for nb in (1, 2):
        for nf in range(nb + 1):
            for phase, what in VARIANTS:
                for cm in (False, True):
                    for has in ((True, False) if 'pos-unf' in what else (False,)):
                        if 'vel' in what and len(what) == 1 and cm:
                            continue

                        def run(I):
                            th, sid, pid, lid = trajectory(I, '', 'th', attrs=('position', 'velocity') + (('position_unfolded',) if has else ()))
                            I.ghost = (sid, pid, lid)
                            ph = phase if isinstance(phase, str) else I.list_of(phase)
                            junk = lambda nm: P.Opq(app(nm, sort='obj'), 'any')
                            at = {x + s: junk('old') for x in NAMES.values() for s in ('', '_0', '_1')}
                            obj = bare(I, 'correlation', 'Correlation', trajectory=th, nbodies=N(cst(nb), 'int'), phasespace=ph, _fix_cm=cm,
                                       _weight=None, _weight_field=None, _weight_fluctuations=False, _unfolded=junk('old'), **at)
                            attach(I, obj, nf)
                            I.frozen_heap = dict(I.heap)
                            I.call(I.getattr(obj, '_setup_arrays'), [])
                            return obj

                        def post(I, kind, obj):
                            label = '%s%s, ' % (phase, ', fixed CM' if cm else '')
                            f, m, x = [ivar(fresh('_k')) for _ in range(3)]
                            for w in what:
                                for g in range(nb):
                                    lst = I.getattr(obj, NAMES[w] + ('' if nb == 1 else '_%d' % g))
                                    n, sel = selected(g, nf)
                                    who = label + w + (', group %d' % g if nb == 2 else '')
                                    yield who + ': number of frames', length_is(I, lst, F)
                                    I.facts += [ge0(f), lt0(f - F)]
                                    a = I.seq_get(lst, f)
                                    yield who + ': number of particles', ('under', [ge0(f), lt0(f - F)], length_is(I, a, n(f)))
                                    s = sel(f, m)
                                    fs = [ge0(f), lt0(f - F), ge0(m), lt0(m - n(f)), ge0(x), lt0(x - D), ge0(s), lt0(s - NPART(f))]
                                    prefix = {'pos': 'folded_cm_' if cm else '', 'pos-unf': '' if has else ('unfolded_cm_' if cm else 'unfolded_')}.get(w, None)
                                    if w == 'pos':
                                        spec = app(prefix + 'position', f, s, x)
                                    elif w == 'pos-unf' and has:
                                        spec = app('position_unfolded', f, s, x)
                                        if cm:
                                            mass = lambda p: app('mass', f, p)
                                            spec = spec - the_sum([NPART(f)], lambda p: app('position_unfolded', f, p, x) * mass(p)) * T.inv(the_sum([NPART(f)], mass))
                                    elif w == 'pos-unf':
                                        spec = app(prefix + 'position', f, s, x)
                                    elif w == 'vel':
                                        spec = app('velocity', f, s, x)
                                    else:
                                        spec = app('species_index', app('species', f, s, sort='obj'), sort='int')
                                    v = I.at(a, m) if w == 'ids' else I.at(a, m, x)
                                    goal = ('eq', v, spec)
                                    if w == 'pos-unf' and has:
                                        # positions already unfolded in the trajectory may be used, or not
                                        goal = ('any', [goal, ('eq', v, app(('unfolded_cm_' if cm else 'unfolded_') + 'position', f, s, x))])
                                    yield who + ': coordinates of the selected particles', ('under', fs, goal)
                        facts = list(FACTS)
                        pr.verify('correlation.Correlation._setup_arrays', run, post, facts, module_overrides=OVER, nonneg=NONNEG, axioms=AX)


def kept(I, s, orig, cond, what=''):
    """The particles of s are those of the system orig for which cond, in order; orig is not modified"""
    f, m = ivar('the_frame'), ivar(fresh('_k'))
    lst = I.getattr(s, 'particle')
    b = fresh('_v')
    n = the_sum([NPART(f)], cond)
    yield what + 'number of particles kept', length_is(I, lst, n)
    yield what + 'particles kept, in order', ('under', [ge0(m), lt0(m - n)], ('eq', I.getattr(I.seq_get(lst, m), 'index').p, m if cond(m) is ONE else T.sel(NPART(f), the_lam(1, cond), m)))
    lst = I.getattr(orig, 'particle')
    yield what + 'particles of the original frame', length_is(I, lst, NPART(f))
    p = I.seq_get(lst, m)
    fs = [ge0(m), lt0(m - NPART(f))]
    yield what + 'particles of the original frame in order', ('under', fs, ('eq', I.getattr(p, 'index').p, m))
    yield what + 'species of the original frame', ('under', fs, ('eq', I.getattr(p, 'species').p, app('species', f, m, sort='obj')))
    yield what + 'positions of the original frame', ('under', fs, ('eq', I.at(I.getattr(p, 'position'), ivar('x')), app('position', f, m, ivar('x'))))


def filters(pr):
    f = ivar('the_frame')
    facts = FACTS + [ge0(f), lt0(f - F)]
    obj = lambda nm: P.Opq(app(nm, sort='obj'), 'any')

    # filter by species
    for sp in (obj('selected'), None, iN('selected_id')):
        def run(I):
            sid, pid, lid = frames(I, '')
            s = P.Ref(sid, [f])
            return P.Tup([I.call(I.module('helpers').get('filter_species'), [s, sp]), s])

        def post(I, kind, v):
            s, orig = v.items
            if sp is None:
                cond = lambda p: ONE
            else:
                cond = lambda p: T.eq0(app('species', f, p, sort='obj') - sp.p)
            yield from kept(I, s, orig, cond)
        if not isinstance(sp, N):
            pr.verify('helpers.filter_species', run, post, facts, nonneg=NONNEG, axioms=AX)

    # filter by condition
    over = {('builtins', 'eval'): P.Bi('eval', lambda I, a, k: N(T.boolatom('holds', text(a[0]), a[1].p), 'bool'))}
    for nb, condition in ((1, 'radius > 1'), (2, 'radius > 1'), (2, 'radius > 1,mass < 2'), (2, 'a,b,c')):
        conds = condition.split(',')

        def run(I):
            sid, pid, lid = frames(I, '')
            s = P.Ref(sid, [f])
            c = bare(I, 'correlation', 'Correlation', nbodies=N(cst(nb), 'int'), _cbk=I.list_of([]), _cbk_args=I.list_of([]), _cbk_kwargs=I.list_of([]))
            r = I.call(I.module('filter').get('Filter'), [c, condition])
            out = [r, s]
            cb = [I.concrete_items(I.getattr(r, x)) for x in ('_cbk', '_cbk_args', '_cbk_kwargs')]
            for fn, args, kw in zip(*cb):
                out.append(I.call(fn, [s] + list(args.items), I.M.dict_concrete(I, kw)))
            return P.Tup(out)

        def post(I, kind, v):
            if kind == 'exc':
                yield 'too many conditions are refused', ('ok',) if len(conds) > nb else ('fail', 'raises %s' % v)
                return
            if len(conds) > nb:
                yield 'too many conditions are refused', ('fail', 'accepted')
                return
            c, orig = v.items[:2]
            yield 'number of filters', ('ok',) if len(v.items) == 2 + nb else ('fail', '%d filters' % (len(v.items) - 2))
            for g, s in enumerate(v.items[2:]):
                # a single condition selects the first group, the second one is the whole system
                if g < len(conds):
                    cond = lambda p: T.boolatom('holds', text(conds[g]), app('dict', f, p, sort='obj'))
                else:
                    cond = lambda p: ONE
                yield from kept(I, s, orig, cond, 'group %d: ' % g)
        pr.verify('filter.Filter', run, post, facts, nonneg=NONNEG, axioms=AX, module_overrides=over, allow_exc=('ValueError',))

    # not more filters than bodies
    for nb in (1, 2):
        for extra in (0, 1):
            def run(I):
                c = bare(I, 'correlation', 'Correlation', nbodies=N(cst(nb), 'int'), _cbk=I.list_of([]), _cbk_args=I.list_of([]), _cbk_kwargs=I.list_of([]))
                for i in range(nb + extra):
                    I.call(I.getattr(c, 'add_filter'), [the_filter(i % 2), obj('arg')], {'opt': obj('opt')})
                return c

            def post(I, kind, c):
                if kind == 'exc' or extra:
                    yield 'more filters than bodies are refused', ('ok',) if kind == 'exc' and extra else ('fail', kind)
                    return
                for x in ('_cbk', '_cbk_args', '_cbk_kwargs'):
                    yield x, length_is(I, I.getattr(c, x), nb)
            pr.verify('correlation.Correlation.add_filter', run, post, FACTS, allow_exc=('ValueError',) if extra else ())
