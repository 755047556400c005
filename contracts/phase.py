"""
Frames with particles, for the contracts of the arrays and of the weights
(C15, C17): families of objects, one system per frame and one particle per
frame and index, that live in memory and can be modified.

A filter is any function of the system (with the arguments it was attached
with): it returns a system with the particles of given indices, in a given
order, of the system it is called with.
"""

import os

from .common import *

F = ivar('len_frames')
D = ivar('len_dim')
NPART = lambda f: app('npart', f, sort='int')
STEP = lambda i: app('step', i, sort='int')

FACTS = [gt0(F), gt0(D)]
NONNEG = ('npart', 'nsel0', 'nsel1', 'nspec')
AX = {'npart': lambda f: [gt0(app('npart', f, sort='int'))],
      'sel0': lambda f, m: [ge0(app('sel0', f, m, sort='int')), gt0(NPART(f) - app('sel0', f, m, sort='int'))],
      'sel1': lambda f, m: [ge0(app('sel1', f, m, sort='int')), gt0(NPART(f) - app('sel1', f, m, sort='int'))]}

STUB = '''
class System(object):
    def dump(self, what):
        return _dump(self, what)


class Particle(object):
    pass


class Cell(object):
    pass
'''


def stub(I):
    if 'phase' in I.modules:
        return I.modules['phase']
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', '.build', 'phase.py')
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path).read() != STUB:
        with open(path, 'w') as f:
            f.write(STUB)
    m = P.Module(I, 'phase', path)
    I.modules['phase'] = m
    I.overrides[('phase', '_dump')] = P.Bi('dump', dump)
    return m


def arrays(I, name, par):
    """Family of arrays name(f, p, :)"""
    a = fresh('_a')
    oid = I.new_oid()
    I.heap[oid] = P.St('arr', par, shape=(D,), names=(a,), body=app(name, *([ivar(x) for x in par] + [ivar(a)])), dtype='float')
    return P.Ref(oid, [ivar(x) for x in par])


def frames(I, name, attrs=('position', 'velocity'), scalars=('mass',), cell=None):
    """Family of systems, and of their particles, of a trajectory; coordinates are name_attr(f, p, :)"""
    mod = stub(I)
    f, p = fresh('_s'), fresh('_s')
    d = {x: arrays(I, (name if x.startswith('position') else '') + x, (f, p)) for x in attrs}
    for x in scalars:
        d[x] = N(app(x, ivar(f), ivar(p)), 'float')
    d['species'] = P.Opq(app('species', ivar(f), ivar(p), sort='obj'), 'any')
    d['index'] = N(ivar(p), 'int')
    d['__dict__'] = P.Opq(app(name + 'dict', ivar(f), ivar(p), sort='obj'), 'dict')
    pid = I.new_oid()
    I.heap[pid] = P.St('ins', (f, p), cls=mod.get('Particle'), attrs=d)
    q, b = fresh('_s'), fresh('_s')
    lid = I.new_oid()
    I.heap[lid] = P.St('list', (q,), segs=[P.Seg([(b, NPART(ivar(q)))], ONE, P.Ref(pid, [ivar(q), ivar(b)]))])
    g = fresh('_s')
    sid = I.new_oid()
    I.heap[sid] = P.St('ins', (g,), cls=mod.get('System'), attrs={
        'particle': P.Ref(lid, [ivar(g)]), 'frame': N(ivar(g), 'int'), 'of': name})
    return sid, pid, lid


def trajectory(I, name, key, extra=None, **kw):
    sid, pid, lid = frames(I, name, **kw)
    at = lambda I, i: P.Ref(sid, [T.to_poly(i)])
    d = {'steps': lambda I: num_list(I, name + 'step', F, 'int'), 'filename': lambda I: P.Opq(var('filename', 'obj'), 'str'),
         'read': lambda I: P.Bi('read', lambda I, a, k: at(I, M_num(a[0])))}
    d.update(extra or {})
    t = P.Sym('trajectory', d, key=None, ops={'getitem': lambda I, i: at(I, M_num(i)), 'len': lambda I: F,
                                              'item': lambda I, k: at(I, k), 'identity': key})
    return t, sid, pid, lid


def M_num(v):
    from vc import models as M
    return M.num(v) if not isinstance(v, int) else T.to_poly(v)


def text(v):
    from vc import models as M
    return M.strp(v)


ALIAS = {'pos': 'position', 'vel': 'velocity', 'spe': 'species', 'rad': 'radius'}


def dump(I, a, k):
    """System.dump: fresh array of the attribute of the particles, in order"""
    s, what = a
    lst = I.getattr(s, 'particle')
    n = I.length(lst)
    if not isinstance(what, str):
        raise P.Unsupported('dump of %r' % (what,))
    w = ALIAS.get(what, what)
    if w.startswith('particle.'):
        w = w[9:]
    get = lambda m: I.getattr(I.seq_get(lst, m), w)
    v = get(ivar(fresh('_p')))
    if isinstance(v, P.Opq):
        return I.list_fn(n, get)
    if isinstance(v, N):
        return I.arr_fn((n,), lambda m: get(m).p, 'float')
    return I.arr_fn((n, D), lambda m, x: I.at(get(m), x), 'float')


def the_filter(i):
    """The i-th filter attached: particles sel_i(f, 0..nsel_i(f)-1) of the system"""
    def f(I, a, k):
        s = a[0]
        ok = len(a) == 2 and isinstance(a[1], P.Opq) and a[1].p is app('arg%d' % i, sort='obj') and \
            set(k) == {'opt'} and k['opt'].p is app('opt%d' % i, sort='obj')
        I.oblige('the filter is called with the arguments it was attached with', ONE if ok else ZERO)
        fr = I.getattr(s, 'frame').p
        lst = I.getattr(s, 'particle')
        new = I.list_fn(app('nsel%d' % i, fr, sort='int'), lambda m: I.seq_get(lst, app('sel%d' % i, fr, m, sort='int')))
        return I.alloc(P.St('ins', (), cls=stub(I).get('System'), attrs={'particle': new, 'frame': N(fr, 'int'), 'of': 'filtered'}))
    return P.Bi('filter%d' % i, f)


def attach(I, obj, n):
    """n filters attached to the correlation"""
    I.setattr(obj, '_cbk', I.list_of([]))
    I.setattr(obj, '_cbk_args', I.list_of([]))
    I.setattr(obj, '_cbk_kwargs', I.list_of([]))
    for i in range(n):
        I.call(I.getattr(obj, 'add_filter'), [the_filter(i), P.Opq(app('arg%d' % i, sort='obj'), 'any')],
               {'opt': P.Opq(app('opt%d' % i, sort='obj'), 'any')})


def selected(i, nf):
    """(number, index) of the particles of group i with nf filters"""
    if nf == 0:
        return NPART, lambda f, m: m
    j = i if nf > 1 else 0
    return (lambda f: app('nsel%d' % j, f, sort='int')), (lambda f, m: app('sel%d' % j, f, m, sort='int'))
