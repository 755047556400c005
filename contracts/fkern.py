"""
The Fortran kernels, translated from the source at every run (vc/fortran.py).
The primitives of the translation: indices from one, checked against the
bounds of the arrays; arrays of intent in cannot be modified.
"""

import hashlib
import os

from vc import fortran
from vc import models as M
from .common import *

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def repo():
    return os.environ.get('REPO', '/repo')


def source(name):
    with open(os.path.join(repo(), 'atooms', 'postprocessing', name + '.f90')) as f:
        return f.read()


TABLES = {}


def routine(name, f):
    """Python text of a routine and of those it calls"""
    text = source(name)
    key = (name, hashlib.sha1(text.encode()).hexdigest())
    if key not in TABLES:
        try:
            TABLES[key] = fortran.translate(text)
        except fortran.Error as e:
            raise P.Unsupported('%s.f90: %s' % (name, e))
    t = TABLES[key]
    if f not in t:
        raise P.Unsupported('no routine %s in %s.f90' % (f, name))
    if t[f][0] is None:
        raise P.Unsupported('%s: %s' % (f, t[f][1]))
    return t


def load(I, name):
    text = ''.join(t for t, e in routine_table(name).values() if t)
    path = os.path.join(HERE, '.build', 'f90_%s_%s.py' % (name, hashlib.sha1(text.encode()).hexdigest()[:12]))
    if not os.path.exists(path):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        tmp = path + '.%d' % os.getpid()
        with open(tmp, 'w') as f:
            f.write(text)
        os.replace(tmp, path)
    for k, v in PRIMS.items():
        I.overrides[(name, k)] = P.Bi(k, v)
    I.overrides[(name, '_pi')] = N(rvar('pi'), 'float')
    return P.Module(I, name, path)


def routine_table(name):
    try:
        return fortran.translate(source(name))
    except fortran.Error as e:
        raise P.Unsupported('%s.f90: %s' % (name, e))


def call(I, name, f, args):
    routine(name, f)
    I.from_zero = True
    try:
        return I.call(load(I, name).get(f), args)
    finally:
        I.from_zero = False


# primitives

def shape(I, a):
    return I.state(a).shape


def index(I, a, k):
    i, arr, d = M.num(a[0]), a[1], int(M.num(a[2]).const())
    n = shape(I, arr)[d]
    I.oblige('index of an array: at least one', ge0(i - 1))
    I.oblige('index of an array: at most its size', ge0(n - i))
    return N(i - 1, 'int')


def upper(I, a, k):
    i, arr, d = M.num(a[0]), a[1], int(M.num(a[2]).const())
    I.oblige('section of an array: at most its size', ge0(shape(I, arr)[d] - i))
    return N(i, 'int')


def size(I, a, k):
    s = shape(I, a[0])
    if len(a) > 1:
        return N(s[int(M.num(a[1]).const()) - 1], 'int')
    r = ONE
    for x in s:
        r = r * x
    return N(r, 'int')


def freeze(I, a, k):
    st = I.state(a[0])
    d = dict(I.heap[a[0].oid].d)
    d['frozen'] = True
    I.heap[a[0].oid] = I.heap[a[0].oid].upd(frozen=True)
    return P.NONE if hasattr(P, 'NONE') else None


def rank(I, a, k):
    if not I.is_arr(a[0]) or len(shape(I, a[0])) != int(M.num(a[1]).const()):
        raise P.Unsupported('rank of an array')


def has_shape(I, a, k):
    n = shape(I, a[0])[int(M.num(a[1]).const())]
    I.oblige('explicit shape of an argument', eq0(n - M.num(a[2])))


def dims(I, t):
    return [M.num(x) for x in I.concrete_items(t)]


def local(I, a, k):
    """A local array: its content is not known"""
    nm = fresh('_local')
    return I.arr_fn(dims(I, a[1]), lambda *i: app(nm, *i), str(a[2]))


def conform(I, v, sh):
    if I.is_arr(v):
        s = shape(I, v)
        I.oblige('shapes of an array assignment', ONE if len(s) == len(sh) else ZERO)
        for x, y in zip(s, sh):
            I.oblige('shapes of an array assignment', eq0(x - y))
    return v


def new(I, a, k):
    sh = dims(I, a[1])
    v = conform(I, a[0], sh)
    ty = str(a[2])
    if not I.is_arr(v):
        p = M.num(v)
        return I.arr_fn(sh, lambda *i: p, ty)
    st = I.state(v)
    body = st.body
    if ty == 'int' and st.dtype == 'float':
        body = trunc(body)
    return I.arr(sh, st.names, body, ty)


def conform_to(I, a, k):
    return conform(I, a[0], shape(I, a[1]))


def trunc(p):
    return T.floor(p) * ge0(p) - T.floor(-p) * lt0(p)


def nint(p):
    half = T.inv(cst(2))
    return T.floor(p + half) * ge0(p) - T.floor(half - p) * lt0(p)


def elementwise(f, ty=None):
    def run(I, a, k):
        if any(I.is_arr(x) for x in a):
            t = ty or (lambda x: 'float' if 'float' in x else x[0])([M.dtype_of(I, x) for x in a])
            return M.bmap(I, f, a, t)
        t = ty or ('float' if any(getattr(x, 'ty', '') == 'float' for x in a) else 'int')
        return N(f(*[M.num(x) for x in a]), t)
    return run


def reduce(kind):
    def run(I, a, k):
        v = a[0]
        if kind == 'sum':
            r = M.NUMPY['sum'](I, [v], {})
            p = M.num(r)
            for f in FOLD:
                q = f(I, p)
                if q is not None:
                    return N(q, r.ty)
            return r
        if kind == 'count':
            return M.NUMPY['sum'](I, [v], {})
        if kind == 'any':
            return M.NUMPY['any'](I, [v], {})
        if kind == 'all':
            p = M.num(M.NUMPY['any'](I, [elementwise(lambda x: ONE - x, 'bool')(I, [v], {})], {}))
            return N(ONE - p, 'bool')
    return run


# definitions of the contract recognized in the sums of the code
FOLD = []


def indices_of(p, name, axis):
    """The indices, along an axis, of the elements of an array that appear in p"""
    out = []

    def poly(q):
        for m, _ in q.terms:
            for b in m.binders:
                poly(b)
            for a, _ in m.factors:
                visit(a)

    def visit(a):
        if a.kind == 'A' and a.data[0] == name:
            ix = a.data[1][axis]
            if all(ix is not x for x in out):
                out.append(ix)
            return
        for d in (a.data if isinstance(a.data, tuple) else (a.data,)):
            if isinstance(d, T.Poly):
                poly(d)
            elif isinstance(d, tuple):
                for x in d:
                    if isinstance(x, T.Poly):
                        poly(x)
            elif isinstance(d, T.Lam):
                poly(d.body)
    poly(p)
    return out


POSITIVE = {'side'}


def canonical(p):
    """p or -p, and the sign"""
    m = min(p.terms, key=lambda t: t[0].key) if p.terms else None
    return (-p, -1) if m is not None and m[1] < 0 else (p, 1)


def positive(p):
    if len(p.terms) != 1 or p.terms[0][1] <= 0:
        return False
    m = p.terms[0][0]
    return not m.binders and m.phase is None and all(a.kind == 'A' and a.data[0] in POSITIVE for a, e in m.factors)


def vabs(p):
    """Absolute value: even"""
    if positive(p):
        return p
    return app('fabs', canonical(p)[0])


def sgn(p):
    """Sign of a number that is not zero: odd"""
    q, s = canonical(p)
    return s * app('sgn', q)


def acos(p):
    return app('acos', p)


ACOS = []


def arccos(I, a, k):
    if not I.is_arr(a[0]):
        for f in ACOS:
            q = f(I, M.num(a[0]))
            if q is not None:
                return N(q, 'float')
    return elementwise(acos, 'float')(I, a, k)


def fold(f):
    def run(I, a, k):
        r = a[0]
        for x in a[1:]:
            if not I.is_arr(r) and not I.is_arr(x):
                # the same where the facts tell which one is smaller
                d = M.num(x) - M.num(r)
                known = I.known(ge0(d), 5.0)
                if known is None and I.known(T.le0(d), 5.0):
                    known = False
                if known is not None:
                    r = r if known == (f is T.minp) else x
                    continue
            r = elementwise(f)(I, [r, x], {})
        return r
    return run


def idiv(I, a, k):
    x, y = M.num(a[0]), M.num(a[1])
    return N(trunc(x * T.inv(y)), 'int')


def norm2(I, a, k):
    return elementwise(T.sqrt, 'float')(I, [reduce('sum')(I, [elementwise(lambda x: x * x)(I, a, {})], {})], {})


PRIMS = {
    '_maxval': lambda I, a, k: M.extremum(I, a[0], 'MAX'), '_minval': lambda I, a, k: M.extremum(I, a[0], 'MIN'), '_norm2': norm2,
    '_mod': elementwise(lambda x, y: x - trunc(x * T.inv(y)) * y), '_aint': elementwise(trunc, 'float'),
    '_merge': elementwise(lambda x, y, c: c * x + (ONE - c) * y),
    '_ix': index, '_hi': upper, '_size': size, '_frozen': freeze, '_rank': rank, '_shape': has_shape, '_local': local, '_new': new,
    '_conform': conform_to, '_where': elementwise(lambda c, x, y: c * x + (ONE - c) * y), '_abs': elementwise(vabs),
    '_sign': elementwise(lambda x, y: vabs(x) * sgn(y)), '_sum': reduce('sum'), '_count': reduce('count'), '_any': reduce('any'),
    '_all': reduce('all'), '_sqrt': elementwise(T.sqrt, 'float'), '_floor': elementwise(T.floor, 'int'), '_int': elementwise(trunc, 'int'),
    '_ceiling': elementwise(lambda p: -T.floor(-p), 'int'), '_min': fold(T.minp), '_max': fold(T.maxp), '_acos': arccos,
    '_nint': elementwise(nint, 'int'), '_idiv': idiv, '_conjg': elementwise(T.conj, 'complex'), '_real': elementwise(T.re, 'float'),
    '_and': elementwise(lambda x, y: x * y, 'bool'), '_or': elementwise(lambda x, y: x + y - x * y, 'bool'), '_not': elementwise(lambda x: ONE - x, 'bool'),
    '_modulo': elementwise(lambda x, y: x - T.floor(x * T.inv(y)) * y), '_anint': elementwise(nint, 'float'),
}
