"""C17: weights are the chosen field of the selected particles"""

from .phase import *
from .c15 import OVER


def prove(pr):
    W = lambda f, p: app('energy', f, p)
    obj = lambda nm: P.Opq(app(nm, sort='obj'), 'any')

    # arrays of weights
    for nb in (1, 2):
        for nf in range(nb + 1):
            for fluct in (False, True):
                def run(I):
                    th, sid, pid, lid = trajectory(I, '', 'th', scalars=('mass', 'energy'))
                    junk = obj('old')
                    at = {x + s: junk for x in ('_pos', '_vel', '_ids', '_pos_unf') for s in ('', '_0', '_1')}
                    c = bare(I, 'correlation', 'Correlation', trajectory=th, nbodies=N(cst(nb), 'int'), phasespace='pos', _fix_cm=False,
                             _weight=I.list_of([]), _weight_0=None, _weight_1=None, _weight_field='energy', _weight_fluctuations=fluct, _unfolded=None, **at)
                    attach(I, c, nf)
                    I.call(I.getattr(c, '_setup_arrays'), [])
                    return c

                def post(I, kind, c):
                    f, m = ivar(fresh('_k')), ivar(fresh('_k'))
                    for g in range(nb):
                        who = 'fluctuations, ' if fluct else ''
                        who += 'group %d, ' % g if nb == 2 else ''
                        lst = I.getattr(c, '_weight' + ('' if nb == 1 else '_%d' % g))
                        n, sel = selected(g, nf)
                        yield who + 'number of frames', length_is(I, lst, F)
                        I.facts += [ge0(f), lt0(f - F)]
                        a = I.seq_get(lst, f)
                        yield who + 'number of particles', length_is(I, a, n(f))
                        spec = W(f, sel(f, m))
                        if fluct:
                            mean = the_sum([F], lambda h: the_sum([n(h)], lambda q: W(h, sel(h, q))) * T.inv(n(h))) * T.inv(F)
                            spec = spec - mean
                        yield who + 'weights of the selected particles', ('under', [ge0(m), lt0(m - n(f))], ('eq', I.at(a, m), spec))
                pr.verify('correlation.Correlation._setup_arrays', run, post, FACTS, nonneg=NONNEG, axioms=AX, module_overrides=OVER)

    # the field of another trajectory
    def run(I):
        sid, pid, lid = frames(I, '', scalars=('mass', 'energy'))
        other, s2, p2, l2 = trajectory(I, 'other_', 'other', scalars=())
        st = I.heap[p2]
        d = dict(st.attrs, energy=N(app('other_energy', ivar(st.params[0]), ivar(st.params[1])), 'float'))
        I.heap[p2] = st.upd(attrs=d)
        r = I.call(I.module('helpers').get('copy_field'), [P.Ref(sid, [ivar('the_frame')]), 'energy', other])
        return P.Tup([r, P.Ref(sid, [ivar('the_frame')]), P.Ref(s2, [ivar('the_frame')])])

    def post(I, kind, v):
        r, s, o = v.items
        fr, m = ivar('the_frame'), ivar(fresh('_k'))
        fs = [ge0(m), lt0(m - NPART(fr))]
        yield 'number of particles', length_is(I, I.getattr(r, 'particle'), NPART(fr))
        p = I.seq_get(I.getattr(r, 'particle'), m)
        yield 'particles', ('under', fs, ('eq', I.getattr(p, 'index').p, m))
        yield 'field of the same particle in the same frame', ('under', fs, ('eq', I.getattr(p, 'energy').p, app('other_energy', fr, m)))
        yield 'other fields', ('under', fs, ('eq', I.getattr(p, 'mass').p, app('mass', fr, m)))
        q = I.seq_get(I.getattr(o, 'particle'), m)
        yield 'the other trajectory is not modified', ('under', fs, ('eq', I.getattr(q, 'energy').p, app('other_energy', fr, m)))
    fr = ivar('the_frame')
    pr.verify('helpers.copy_field', run, post, FACTS + [ge0(fr), lt0(fr - F)], nonneg=NONNEG, axioms=AX)

    # attaching a weight
    same = P.noex(the_lam(1, lambda j: ONE - T.eq0(app('step', j, sort='int') - app('other_step', j, sort='int'))), F)
    for field, which in ((None, None), ('energy', None), (None, 'other'), ('energy', 'other')):
        for fluct in (False, True):
            def run(I):
                log = I.alloc(P.St('ins', (), cls=stub(I).get('Cell'), attrs={'n': 0, 'cb': None}))

                def add(I, a, k):
                    I.setattr(log, 'n', I.getattr(log, 'n') + 1)
                    I.setattr(log, 'cb', P.Tup(a))
                th, sid, pid, lid = trajectory(I, '', 'th', extra={'add_callback': P.Bi('add_callback', add)})
                ot, s2, p2, l2 = trajectory(I, 'other_', 'other')
                c = bare(I, 'correlation', 'Correlation', trajectory=th, nbodies=N(ONE, 'int'), tag='', tag_description='the whole system',
                         _weight=None, _weight_field=None, _weight_fluctuations=False)
                I.call(I.getattr(c, 'add_weight'), [], dict(([('trajectory', ot)] if which else []) + ([('field', field)] if field else []) + [('fluctuations', fluct)]))
                return P.Tup([c, log, th, ot])

            def post(I, kind, v):
                if kind == 'exc':
                    if field is None and which:
                        yield 'a missing field is refused', ('ok',)
                    elif which:
                        yield 'different steps are refused', ONE - same
                    else:
                        yield 'a field of the trajectory is accepted', ('fail', 'raises %s' % v.name)
                    return
                c, log, th, ot = v.items
                w = I.getattr(c, '_weight')
                if field is None and which is None:
                    yield 'no weight', is_none(w)
                    yield 'no callback', ('ok',) if I.getattr(log, 'n') == 0 else ('fail', 'callback')
                    return
                if field is None:
                    yield 'a missing field is refused', ('fail', 'accepted')
                    return
                yield 'a weight is attached', not_none(w)
                ok = lambda b, m='': ('ok',) if b else ('fail', m)
                yield 'field', ok(I.getattr(c, '_weight_field') == field)
                yield 'fluctuations', ok(I.getattr(c, '_weight_fluctuations') in (fluct, ) or getattr(I.getattr(c, '_weight_fluctuations'), 'p', None) is T.to_poly(int(fluct)))
                n, cb = I.getattr(log, 'n'), I.getattr(log, 'cb')
                if which:
                    yield 'steps are the same', same
                    yield 'the field is copied from the other trajectory', ok(
                        n == 1 and isinstance(cb.items[0], P.Clo) and cb.items[0].qual == 'helpers.copy_field' and cb.items[1] == field and cb.items[2] is ot, '%s callbacks: %s' % (n, cb))
                else:
                    yield 'no callback', ok(n == 0)
            pr.verify('correlation.Correlation.add_weight', run, post, FACTS, nonneg=NONNEG, axioms=AX, allow_exc=('ValueError',))
