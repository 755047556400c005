"""C03: requested times map to the nearest available frame separations"""

from .common import *

E = lambda i: app('entry', i)
NE, NT = ivar('len_entry'), ivar('len_template')


def nearest(entry, n, t):
    """Index of the first entry at the smallest distance of t"""
    d = the_lam(1, lambda i: T.absp(entry(i) - t))
    return app('ARGMIN', d, n, sort='int')


def prove(pr):
    # ---- the nearest-match filter
    for keep in (False, True):
        def run(I):
            return I.call(I.module('helpers').get('_templated'),
                          [num_list(I, 'entry', NE), num_list(I, 'template', NT)], {'keep_multiple': keep})

        def post(I, kind, v):
            # how many times a value is selected
            L = the_lam(1, lambda d: the_sum([NT], lambda j: eq0(E(nearest(E, NE, app('template', j))) - d)))
            k = ivar(fresh('_k'))
            if keep:
                yield 'as many entries as templates', length_is(I, v, NT)
                yield from ranged([('the sorted selected entries', ('eq', item(I, v, k).p, app('SORTED', L, k)))], k, NT)
            else:
                yield 'one entry per selected value', length_is(I, v, nsk(L))
                yield from ranged([('the selected values in increasing order', ('eq', item(I, v, k).p, sk(L, k)))], k, nsk(L))
        pr.verify('helpers._templated', run, post, [gt0(NE)])

    # ---- the internal time grid
    F, B, DT = ivar('len_steps'), ivar('block'), rvar('dt')
    STEP = lambda i: app('step', i, sort='int')
    NG = ivar('len_tgrid')

    def templated(I, env):
        e, t = env['entry'], env['template']
        ne, nt = I.length(e), I.length(t)
        if I.truth_poly(env['keep_multiple']) is not ZERO:
            raise P.Unsupported('repeated entries')
        L = the_lam(1, lambda d: the_sum([nt], lambda j: eq0(elem(I, e, nearest(lambda i: elem(I, e, i).p, ne, elem(I, t, j).p)).p - d)))
        return I.list_fn(nsk(L), lambda k: N(sk(L, k), 'int'))

    for offset in (True, False):
        def run(I):
            th = P.Sym('trajectory', {'steps': lambda I: num_list(I, 'step', F, 'int'), 'block_size': lambda I: N(B, 'int'),
                                      'timestep': lambda I: N(DT, 'float')})
            return I.call(I.module('helpers').get('setup_t_grid'), [th, num_list(I, 'tgrid', NG)], {'offset': N(int(offset), 'bool')})

        def post(I, kind, v):
            # offsets, frames from the offset on (as many frames are left out at the end), available step differences
            offs = B if offset else ONE
            frames = lambda o: cnt(o, F - o, ONE)
            diff = lambda o, m: STEP(o + m) - STEP(o)
            avail = the_lam(1, lambda d: the_sum([offs, frames], lambda o, m: eq0(diff(o, m) - d)))
            na = nsk(avail)
            # requested times, in steps
            want = the_lam(1, lambda d: the_sum([NG], lambda j: eq0(app('round', app('tgrid', j) * T.inv(DT), sort='int') - d)))
            nw = nsk(want)
            # the available difference nearest to a requested time
            sel = the_lam(1, lambda d: the_sum([nw], lambda j: eq0(sk(avail, nearest(lambda i: sk(avail, i), na, sk(want, j))) - d)))
            yield 'one entry per selected step difference', length_is(I, v, nsk(sel))
            k = ivar(fresh('_k'))
            o, n = [x.p for x in item(I, v, k).items]
            d = sk(sel, k)
            if offset:
                m1, m2 = fresh('_o'), fresh('_m')
                h = lam([m1, m2], eq0(diff(ivar(m1), ivar(m2)) - d))
                fst = [app('FIRST%d' % q, h, offs, lam([m1, m2], frames(ivar(m1))), sort='int') for q in (0, 1)]
            else:
                m1 = fresh('_m')
                fst = [ZERO, app('FIRST0', lam([m1], eq0(diff(ZERO, ivar(m1)) - d)), F, sort='int')]
            yield from ranged([('the offset is that of the first pair of frames at this step difference', ('eq', o, fst[0])),
                               ('the separation is that of the first pair of frames at this step difference', ('eq', n, fst[1]))], k, nsk(sel))
            # what being the first pair implies
            yield from ranged([('the offset is in its range', ge0(o) * lt0(o - offs)),
                               ('the second frame exists', ge0(n) * lt0(o + n - F)),
                               ('the pair of frames is at the selected step difference', ('eq', STEP(o + n) - STEP(o), d))],
                              k, nsk(sel), [ge0(fst[0]), lt0(fst[0] - offs), ge0(fst[1]), lt0(fst[1] - frames(fst[0])), eq0(diff(*fst) - d)])
        pr.verify('helpers.setup_t_grid', run, post, [gt0(F), gt0(B), ge0(F - B), gt0(NG), gt0(DT)],
                  contracts={'helpers._templated': templated})
