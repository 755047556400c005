"""
Vocabulary of the contracts: symbolic inputs and specification functions.

The specification functions are written from the property statements; they
share no code with the executor beyond the term constructors.
"""

from vc import terms as T
from vc import pysym as P
from vc.terms import ONE, ZERO, var, app, cst, mk_sum, sum_over, lam, cnt, sk, nsk, eq0, lt0, le0, gt0, ge0

N = P.N


def ivar(n):
    return var(n, 'int')


def rvar(n):
    return var(n, 'real')


def iN(n):
    return N(ivar(n), 'int')


def rN(n):
    return N(rvar(n), 'float')


def fresh(prefix='_z'):
    return T.fresh_name(prefix)


def num_list(I, name, n, sort='real', ty=None):
    """A list of n numbers name(0), name(1), ..."""
    ty = ty or ('int' if sort == 'int' else 'float')
    return given_(I, I.list_fn(T.to_poly(n), lambda j: N(app(name, j, sort=sort), ty)), name)


def array(I, name, shape, dtype='float', sort='real'):
    return given_(I, I.arr_fn(tuple(T.to_poly(x) for x in shape), lambda *j: app(name, *j, sort=sort), dtype), name)


def given_(I, ref, name=''):
    """An input, not to be modified where frame conditions are checked (C22)"""
    if I.framed and name not in I.results:
        I.heap[ref.oid] = I.heap[ref.oid].upd(frozen=True)
    return ref


def ranged(goals, k, n, facts=()):
    """Goals to be proved for every 0 <= k < n"""
    for name, g in goals:
        yield name, ('under', [ge0(k), lt0(k - T.to_poly(n))] + list(facts), g)


def length_is(I, v, n):
    return ('eq', I.length(v), n)


def item(I, v, *k):
    for x in k:
        v = I.seq_get(v, T.to_poly(x))
    return v


def elem(I, v, *k):
    """Element of an array or of nested lists"""
    if I.is_arr(v):
        return I.at(v, *k)
    return item(I, v, *k)


def the_sum(binders, body):
    """Sum over [(bound, ...)]: binders = list of bounds (poly or function of the previous variables)"""
    names = [fresh() for _ in binders]
    vs = []
    bs = []
    for nm, b in zip(names, binders):
        bound = b(*vs) if callable(b) else T.to_poly(b)
        bs.append((nm, bound))
        vs.append(ivar(nm))
    # inner binders first
    p = body(*vs)
    for nm, b in reversed(bs):
        p = mk_sum(nm, b, p)
    return p


def the_lam(n, fn):
    names = [fresh('_y') for _ in range(n)]
    return lam(names, fn(*[rvar(x) for x in names]))


class Pairs(object):
    """
    The admissible pairs of entries of a time grid (property C01):
    entry j of the grid is (off(j), sep(j)); its pairs are (first, first+sep)
    with first = off, off+skip, ... as long as first+sep < n.
    """

    def __init__(self, n_grid, off, sep, skip, n, t):
        self.n_grid, self.off, self.sep, self.skip, self.n, self.t = n_grid, off, sep, skip, n, t

    def sum(self, body):
        """sum of body(first, second) over the admissible pairs"""
        return the_sum([self.n_grid, lambda j: cnt(self.off(j), self.n - self.sep(j), self.skip)],
                       lambda j, m: body(self.off(j) + m * self.skip, self.off(j) + m * self.skip + self.sep(j)))

    def dt(self, a, b):
        return self.t(b) - self.t(a)

    def times(self):
        return the_lam(1, lambda d: self.sum(lambda a, b: eq0(self.dt(a, b) - d)))

    def average(self, d, f):
        """mean of f(first, second) over the pairs with elapsed time d"""
        c = self.sum(lambda a, b: eq0(self.dt(a, b) - d))
        return self.sum(lambda a, b: f(a, b) * eq0(self.dt(a, b) - d)) * T.inv(c)


def check_curve(I, pairs, grid, value, f, what=''):
    """grid is the sorted list of distinct elapsed times, value the averages of f"""
    L = pairs.times()
    n = nsk(L)
    yield what + 'number of times', length_is(I, grid, n)
    yield what + 'number of values', length_is(I, value, n)
    k = ivar(fresh('_k'))
    d = sk(L, k)
    yield from ranged([
        (what + 'times are the sorted distinct elapsed times', ('eq', elem(I, grid, k).p, d)),
        (what + 'values are the averages over the admissible pairs', ('eq', elem(I, value, k).p, pairs.average(d, f)))], k, n)


def first(n, cond, value):
    """value(i) of the first i < n such that cond(i) (0 if there is none)"""
    L = the_lam(1, cond)
    return the_sum([n], lambda i: cond(i) * P.noex(L, i) * value(i))


def none_below(n, cond):
    """Indicator: no i < n satisfies cond"""
    return P.noex(the_lam(1, cond), n)


def is_none(v):
    return ('ok',) if v is None else ('fail', 'expected None, got %r' % (v,))


def not_none(v):
    return ('fail', 'unexpected None') if v is None else ('ok',)


def bare(I, mod, cls, **attrs):
    """Instance of a class of the package with the given attributes only"""
    c = I.module(mod).get(cls)
    return I.alloc(P.St('ins', (), cls=c, attrs=dict({'analysis': I.M.dict_of(I, {})}, **attrs)))
