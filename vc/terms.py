"""
Term kernel of the verifier: polynomials over the rationals in normal form.

A polynomial is a finite sum  c * MONO  where MONO is a *generalised monomial*

    SUM_{v0<n0} ... SUM_{vm<nm}  a1^e1 ... ar^er * exp(i*phase)

- atoms ai: variables, applications of uninterpreted functions, floors,
  inverses, powers, indicator literals [p<0], [p==0], [b] (idempotent), ...
- exponents are integers; the atom I (imaginary unit) satisfies I^2 = -1
- products of sums are always expanded into multiple sums, sums distribute over
  additions, so that two polynomials that are equal modulo the ring axioms,
  renaming/reordering of the bound variables, linearity of finite sums,
  [c]^2=[c], exp(ia)exp(ib)=exp(i(a+b)) and SUM_v [v==e] f(v) = [0<=e<n] f(e)
  have the same normal form.

Everything is hash-consed: equality of normal forms is identity.
"""

from fractions import Fraction
from itertools import permutations, product as iproduct
from math import gcd

ZERO_F = Fraction(0)
ONE_F = Fraction(1)
MAXUNROLL = 8

_counter = [0]


class KernelError(Exception):
    pass


def fresh_name(prefix='_'):
    _counter[0] += 1
    return '%s%d' % (prefix, _counter[0])


# ---------------------------------------------------------------- atoms

class Atom(object):
    __slots__ = ('kind', 'data', 'sort', 'key', 'fv', 'h', '_hash', '__weakref__')
    table = {}

    def __new__(cls, kind, data, sort):
        k = (kind, data, sort)
        a = cls.table.get(k)
        if a is None:
            a = object.__new__(cls)
            a.kind, a.data, a.sort = kind, data, sort
            a._hash = hash(k)
            fv = set()
            h = 0
            if kind == 'V':
                fv.add(data)
                key = data if not data.startswith('_') else data
            elif kind == 'B':
                key = '#%d.%d' % data
            else:
                parts = []
                for d in _subs(kind, data):
                    fv |= d.fv
                    h = max(h, d.h)
                    parts.append(d.key)
                nm = data[0] if kind in ('A', 'BL') else kind
                key = '%s(%s)' % (nm, ','.join(parts))
            a.fv = frozenset(fv)
            a.h = h
            a.key = key
            cls.table[k] = a
        return a

    def __hash__(self):
        return self._hash

    def __eq__(self, other):
        return self is other

    def __repr__(self):
        return self.key


def _subs(kind, data):
    """Nested polynomials/lambdas of an atom"""
    if kind in ('V', 'B'):
        return ()
    if kind in ('A', 'BL'):
        return data[1]
    return data


def _rebuild(kind, data, new):
    if kind in ('A', 'BL'):
        return (data[0], tuple(new))
    return tuple(new)


# ---------------------------------------------------------------- monomials

class Mono(object):
    __slots__ = ('binders', 'factors', 'phase', 'key', 'fv', 'h', '_hash')
    table = {}

    def __new__(cls, binders, factors, phase):
        k = (binders, factors, phase)
        m = cls.table.get(k)
        if m is None:
            m = object.__new__(cls)
            m.binders, m.factors, m.phase = binders, factors, phase
            m._hash = hash(k)
            fv = set()
            h = 0
            for b in binders:
                fv |= b.fv
                h = max(h, b.h)
            for a, e in factors:
                fv |= a.fv
                h = max(h, a.h)
            if phase is not None:
                fv |= phase.fv
                h = max(h, phase.h)
            if binders:
                h += 1
            m.fv = frozenset(fv)
            m.h = h
            s = '*'.join(a.key if e == 1 else '%s^%s' % (a.key, e) for a, e in factors)
            if phase is not None:
                s += '*E{%s}' % phase.key
            if binders:
                s = 'S%d[%s]{%s}' % (h, ';'.join(b.key for b in binders), s)
            m.key = s
            cls.table[k] = m
        return m

    def __hash__(self):
        return self._hash

    def __eq__(self, other):
        return self is other

    def __repr__(self):
        return self.key


UNIT = None  # set below


class Poly(object):
    __slots__ = ('terms', 'key', 'fv', 'h', '_hash', '_isint')
    table = {}

    def __new__(cls, terms):
        """terms: dict mono -> nonzero Fraction"""
        k = frozenset(terms.items())
        p = cls.table.get(k)
        if p is None:
            p = object.__new__(cls)
            p._hash = hash(k)
            p.terms = tuple(sorted(terms.items(), key=lambda t: t[0].key))
            fv = set()
            h = 0
            for m, c in p.terms:
                fv |= m.fv
                h = max(h, m.h)
            p.fv = frozenset(fv)
            p.h = h
            p.key = '+'.join('%s*%s' % (c, m.key) if m.key else '%s' % c for m, c in p.terms) or '0'
            p._isint = None
            cls.table[k] = p
        return p

    def __hash__(self):
        return self._hash

    def __eq__(self, other):
        return self is other

    def __repr__(self):
        return self.key

    # arithmetics
    def __add__(self, o):
        return add(self, to_poly(o))
    __radd__ = __add__

    def __sub__(self, o):
        return add(self, neg(to_poly(o)))

    def __rsub__(self, o):
        return add(to_poly(o), neg(self))

    def __neg__(self):
        return neg(self)

    def __mul__(self, o):
        return mul(self, to_poly(o))
    __rmul__ = __mul__

    def __truediv__(self, o):
        return mul(self, inv(to_poly(o)))

    def __rtruediv__(self, o):
        return mul(to_poly(o), inv(self))

    def __pow__(self, n):
        return power(self, n)

    def const(self):
        """Fraction if constant else None"""
        if not self.terms:
            return ZERO_F
        if len(self.terms) == 1 and self.terms[0][0] is UNIT:
            return self.terms[0][1]
        return None

    @property
    def is_int(self):
        if self._isint is None:
            ok = True
            for m, c in self.terms:
                if c.denominator != 1 or m.phase is not None:
                    ok = False
                    break
                for a, e in m.factors:
                    if a.sort != 'int' or e < 0:
                        ok = False
                        break
                if not ok:
                    break
            self._isint = ok
        return self._isint


def to_poly(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, int):
        return cst(x)
    if isinstance(x, Fraction):
        return cst(x)
    if isinstance(x, float):
        return cst(Fraction(repr(x)))
    if isinstance(x, complex):
        return to_poly(x.real) + I * to_poly(x.imag)
    raise KernelError('not a scalar: %r' % (x,))


UNIT = Mono((), (), None)
ZERO = Poly({})


def cst(c):
    c = Fraction(c)
    return Poly({UNIT: c}) if c else ZERO


ONE = cst(1)


def atom_poly(a):
    return Poly({Mono((), ((a, 1),), None): ONE_F})


def single_atom(p):
    """The atom p consists of, or None"""
    if len(p.terms) != 1 or p.terms[0][1] != 1:
        return None
    m = p.terms[0][0]
    if m.binders or m.phase is not None or len(m.factors) != 1 or m.factors[0][1] != 1:
        return None
    return m.factors[0][0]


def var(name, sort='real'):
    return atom_poly(Atom('V', name, sort))


def bv(h, i):
    return Atom('B', (h, i), 'int')


def app(name, *args, sort='real'):
    return atom_poly(Atom('A', (name, tuple(a if isinstance(a, Lam) else to_poly(a) for a in args)), sort))


I_ATOM = Atom('V', 'I', 'cplx')
I = atom_poly(I_ATOM)


class Lam(object):
    """lambda x. body: closed over a single (integer or real) variable"""
    __slots__ = ('body', 'nvars', 'key', 'fv', 'h', '_hash')
    table = {}

    def __new__(cls, body, h, nvars):
        k = (body, h, nvars)
        l = cls.table.get(k)
        if l is None:
            l = object.__new__(cls)
            l.body = body
            l.nvars = nvars
            l.h = h
            l.fv = body.fv
            l.key = 'L%d{%s}' % (h, body.key)
            l._hash = hash(k)
            cls.table[k] = l
        return l

    def __hash__(self):
        return self._hash

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return self.key

    def __call__(self, *args):
        env = {bv(self.h, i): to_poly(a) for i, a in enumerate(args)}
        return subst_atoms(self.body, env)


def lam(vars, body):
    """vars: list of variable names (free in body)"""
    if isinstance(vars, str):
        vars = [vars]
    h = body.h + 1
    env = {}
    for i, v in enumerate(vars):
        for sort in ('int', 'real'):
            env[Atom('V', v, sort)] = atom_poly(bv(h, i))
    return Lam(subst_atoms(body, env), h, len(vars))


# ---------------------------------------------------------------- add, mul

def add(p, q):
    if not p.terms:
        return q
    if not q.terms:
        return p
    d = dict(p.terms)
    for m, c in q.terms:
        n = d.get(m, ZERO_F) + c
        if n:
            d[m] = n
        else:
            d.pop(m, None)
    return Poly(d)


def addn(ps):
    d = {}
    for p in ps:
        for m, c in p.terms:
            n = d.get(m, ZERO_F) + c
            if n:
                d[m] = n
            else:
                d.pop(m, None)
    return Poly(d)


def neg(p):
    return Poly({m: -c for m, c in p.terms})


def scale(p, c):
    if c == 0:
        return ZERO
    return Poly({m: k * c for m, k in p.terms})


LITS = ('LT', 'EQ', 'BL')
_mul_cache = {}


def mul(p, q):
    if not p.terms or not q.terms:
        return ZERO
    c = p.const()
    if c is not None:
        return scale(q, c)
    c = q.const()
    if c is not None:
        return scale(p, c)
    k = (p, q)
    r = _mul_cache.get(k)
    if r is None:
        out = []
        for m1, c1 in p.terms:
            for m2, c2 in q.terms:
                out.append(scale(mul_mono(m1, m2), c1 * c2))
        r = addn(out)
        _mul_cache[k] = r
    return r


def mul_mono(m1, m2):
    if m1 is UNIT:
        return Poly({m2: ONE_F})
    if m2 is UNIT:
        return Poly({m1: ONE_F})
    avoid = set(m1.fv | m2.fv)
    b1, f1, p1 = open_mono(m1, avoid)
    avoid.update(n for n, _ in b1)
    b2, f2, p2 = open_mono(m2, avoid)
    return norm(b1 + b2, list(f1) + list(f2), add(p1 or ZERO, p2 or ZERO))


def pool(n, avoid):
    """
    The first n names _q0, _q1, ... not in avoid.  Opened binders get the first
    names that are not used in their surroundings (rather than new ones), so
    that the results of equal substitutions are found in the caches.
    """
    out = []
    j = 0
    while len(out) < n:
        nm = '_q%d' % j
        if nm not in avoid:
            out.append(nm)
        j += 1
    return out


_open_cache = {}


def open_mono(m, avoid=None):
    """
    Return ([(varname, bound)], factors, phase) with names for the binders:
    fresh ones, or names not in avoid (which must contain the free names of m
    and of whatever the result is going to be combined with)
    """
    if not m.binders:
        return [], m.factors, m.phase
    if avoid is None:
        names = [fresh_name('_b') for _ in m.binders]
        return _open_mono(m, names)
    names = pool(len(m.binders), avoid)
    k = (m, tuple(names))
    r = _open_cache.get(k)
    if r is None:
        r = _open_cache[k] = _open_mono(m, names)
    return list(r[0]), r[1], r[2]


def _open_mono(m, names):
    env = {bv(m.h, i): var(n, 'int') for i, n in enumerate(names)}
    bounds = [subst_atoms(b, env) for b in m.binders]
    # factors are atoms: substitution of a variable by a variable may not stay
    # an atom in principle, but renaming preserves normal forms up to ordering
    fs = []
    for a, e in m.factors:
        fs.append((subst_atoms_atom(a, env), e))
    ph = subst_atoms(m.phase, env) if m.phase is not None else None
    return list(zip(names, bounds)), fs, ph


def norm(binders, factors, phase):
    """
    Normalise SUM_binders prod(factors)*E(phase).
    factors: list of (atom or Poly, int exponent)
    """
    # Merge factors
    fs = {}
    extra = []
    coeff = ONE_F
    for a, e in factors:
        if isinstance(a, Poly):
            if len(a.terms) == 1 and not a.terms[0][0].binders and a.terms[0][0].phase is None:
                m, c = a.terms[0]
                if e < 0 and c == 0:
                    raise KernelError('division by zero')
                coeff *= c ** e
                for b, eb in m.factors:
                    _merge(fs, b, eb * e)
            else:
                extra.append((a, e))
        else:
            _merge(fs, a, e)
    if fs.get(I_ATOM):
        e = fs.pop(I_ATOM) % 4
        if e >= 2:
            coeff = -coeff
            e -= 2
        if e:
            fs[I_ATOM] = e
    for a in [a for a in fs if a.kind == 'INV' and fs[a] < 0]:
        extra.append((a.data[0], -fs.pop(a)))
    # inverses: Inv(p)^e with p polynomial
    if extra:
        base = norm(binders, list(fs.items()), phase) if not binders else None
        if binders:
            # build the body and sum it
            body = norm([], list(fs.items()), phase)
            for a, e in extra:
                body = mul(body, power(a, e))
            return scale(sum_over(binders, body), coeff)
        for a, e in extra:
            base = mul(base, power(a, e))
        return scale(base, coeff)
    # exclusive literals
    eqs = [a for a in fs if a.kind == 'EQ']
    if eqs:
        for a in [a for a in fs if a.kind in LITS]:
            for e in eqs:
                if e is a or a not in fs or a.kind == 'BL' or len(a.data) != 1:
                    continue
                r = _pair(e, a)
                if r is False:
                    return ZERO
                if r is True:
                    del fs[a]
    phase_p = phase if phase is not None and phase.terms else None
    # pow atoms with the same base
    pows = {}
    for a in list(fs):
        if a.kind == 'POW':
            pows.setdefault(a.data[0], []).append(a)
    for base, ats in pows.items():
        if len(ats) > 1 or fs[ats[0]] != 1:
            ex = ZERO
            for a in ats:
                ex = ex + a.data[1] * fs.pop(a)
            rest = norm(binders, list(fs.items()), phase) if not binders else None
            pw = powr(base, ex)
            if binders:
                return scale(sum_over(binders, mul(norm([], list(fs.items()), phase), pw)), coeff)
            return scale(mul(rest, pw), coeff)
    if binders:
        r = norm_binders(binders, fs, phase_p)
        return scale(r, coeff)
    # sqrt(x)^2 = x
    for a in list(fs):
        if a.kind == 'A' and a.data[0] == 'sqrt' and abs(fs[a]) >= 2:
            e = fs.pop(a)
            s = 1 if e > 0 else -1
            q, r = divmod(abs(e), 2)
            if r:
                fs[a] = s
            rest = norm([], list(fs.items()), phase_p)
            return scale(mul(rest, power(a.data[1][0], s * q)), coeff)
    for a in list(fs):
        if a.kind == 'SK' and False:
            pass
    m = Mono((), tuple(sorted(((a, e) for a, e in fs.items() if e != 0), key=lambda t: t[0].key)), phase_p)
    return Poly({m: coeff})


_pairs = {}


def _pair(e, a):
    """Truth of the literal a given the equation e (None: undetermined)"""
    k = (e, a)
    if k in _pairs:
        return _pairs[k]
    p, q = e.data[0], a.data[0]
    r = None
    if p.fv & q.fv or not q.fv:
        for d in (add(q, neg(p)), add(q, p)):
            c = d.const()
            if c is not None:
                r = (c < 0) if a.kind == 'LT' else True if c == 0 else False
                break
            if a.kind == 'EQ' or a.kind == 'LT':
                if const_term(d) > 0 and is_count(d - cst(const_term(d))):
                    r = False
                    break
                if a.kind == 'LT' and is_count(d):
                    r = False
                    break
                if const_term(d) < 0 and is_count(neg(d) + cst(const_term(d))):
                    r = a.kind == 'LT'
                    break
    if len(_pairs) > 200000:
        _pairs.clear()
    _pairs[k] = r
    return r


def _merge(fs, a, e):
    if a.kind in LITS:
        fs[a] = 1
        return
    n = fs.get(a, 0) + e
    if n == 0:
        fs.pop(a, None)
    else:
        fs[a] = n


def _split_linear(p, v):
    """p = c*v + rest with constant c and v not in rest; else None"""
    c = ZERO_F
    rest = {}
    for m, k in p.terms:
        if v in m.fv:
            if not m.binders and m.phase is None and len(m.factors) == 1 and \
               m.factors[0][0].kind == 'V' and m.factors[0][0].data == v and m.factors[0][1] == 1:
                c += k
            else:
                return None
        else:
            rest[m] = k
    if c == 0:
        return None
    return c, Poly(rest)


def norm_binders(binders, fs, phase):
    """binders: list of (name, bound) free names in fs/phase. Returns Poly."""
    k = (tuple(binders), frozenset(fs.items()), phase)
    r = _norm_cache.get(k)
    if r is None:
        r = _norm_cache[k] = _norm_binders(binders, fs, phase)
    return r


_norm_cache = {}


def clear_caches():
    for c in (_norm_cache, _mul_cache, _subst_cache, _open_cache, _range_cache, _support_cache):
        c.clear()


def _norm_binders(binders, fs, phase):
    names = [n for n, _ in binders]
    # 1. Concrete bounds
    for i, (n, b) in enumerate(binders):
        c = b.const()
        if c is not None:
            if c <= 0:
                return ZERO
            if c <= MAXUNROLL:
                rest = binders[:i] + binders[i+1:]
                body = norm([], list(fs.items()), phase)
                return addn([sum_over(subst_binders(rest, n, cst(j)), subst(body, {n: cst(j)})) for j in range(int(c))])
    # Fold literals that are decided by the ranges of the binders
    env = {}
    for n, b in binders:
        for q, val in ((var(n, 'int'), ZERO), (var(n, 'int') - b, ONE)):
            a = _range_lit(q)
            if a is None:
                continue
            a, neg_ = a
            if any(n in x.fv and a is not x and a.key in x.key for x in fs):
                env[a] = ONE - val if neg_ else val
        # the range is not empty
        a = _range_lit(b - ONE)
        if a is not None:
            a, neg_ = a
            if any(a is x or a.key in x.key for x in fs):
                env[a] = ONE if neg_ else ZERO
    if env:
        body = norm([], list(fs.items()), phase)
        new = subst_atoms(body, env)
        if new is not body:
            return sum_over(binders, new)
    # 2. Kronecker
    for a in list(fs):
        if a.kind == 'EQ':
            p = a.data[0]
            if not p.is_int:
                continue
            for i, (n, b) in enumerate(binders):
                if n not in p.fv:
                    continue
                s = _split_linear(p, n)
                if s is None or abs(s[0]) != 1:
                    continue
                e = scale(s[1], -1 / s[0])
                if any(n in bb.fv for _, bb in binders):
                    # substitute also in the other bounds: fine
                    pass
                rest = subst_binders(binders[:i] + binders[i+1:], n, e)
                # bounds that the expression e depends on must be outer/other binders
                fs2 = dict(fs)
                fs2.pop(a)
                body = norm([], list(fs2.items()), phase)
                body = subst(body, {n: e})
                guard = mul(ge0(e), lt0(e - subst(b, {n: e})))
                return sum_over(rest, mul(body, guard))
    # 3. unused binders
    for i, (n, b) in enumerate(binders):
        used = any(n in a.fv for a in fs) or (phase is not None and n in phase.fv) or \
            any(n in bb.fv for j, (_, bb) in enumerate(binders) if j != i)
        if not used:
            rest = binders[:i] + binders[i+1:]
            body = norm([], list(fs.items()), phase)
            return sum_over(rest, mul(body, nonneg_part(b)))
    # 4. selections: SUM_{j<count(c)} g(SEL(n,c,j)) = SUM_{v<n} [c(v)] g(v)
    for i, (n, b) in enumerate(binders):
        r = _try_sel(binders, i, fs, phase)
        if r is not None:
            return r
    # 5. blocks
    r = _try_blocks(binders, fs, phase)
    if r is not None:
        return r
    # 6. flattened arrays
    r = _try_flat(binders, fs, phase)
    if r is not None:
        return r
    # 7. canonical order
    return close(binders, fs, phase)


_range_cache = {}


def _range_lit(q):
    """(atom, negated) of the literal q < 0, if the atom occurs anywhere"""
    r = _range_cache.get(q)
    if r is None:
        c = ctx[0]
        ctx[0] = _NOCTX
        try:
            l = lt0(q)
        finally:
            ctx[0] = c
        r = False
        if len(l.terms) == 1 and l.terms[0][1] == 1:
            neg_ = False
            m = l.terms[0][0]
        elif len(l.terms) == 2 and l + atom_poly_of(l) is ONE:
            neg_ = True
            m = [m for m, c in l.terms if m is not UNIT][0]
        else:
            m = None
        if m is not None and not m.binders and m.phase is None and len(m.factors) == 1 and m.factors[0][1] == 1:
            r = (m.factors[0][0], neg_)
        if len(_range_cache) > 200000:
            _range_cache.clear()
        _range_cache[q] = r
    return r or None


def atom_poly_of(l):
    for m, c in l.terms:
        if m is not UNIT:
            return Poly({m: ONE_F})
    return ZERO


def close(binders, fs, phase):
    m = len(binders)
    h = 0
    for _, b in binders:
        h = max(h, b.h)
    for a in fs:
        h = max(h, a.h)
    if phase is not None:
        h = max(h, phase.h)
    h += 1
    # dependency order: a binder whose bound mentions another comes after it
    names = [n for n, _ in binders]
    best = None
    if m > 1:
        # Pre-sort with a renaming-invariant fingerprint to cut permutations
        def fp(n, b):
            env = {}
            for k in names:
                env[k] = var('_self' if k == n else '_oth', 'int')
            parts = sorted(rename_atom(a, env).key + '^%d' % e for a, e in fs.items() if n in a.fv)
            ph = subst(phase, env).key if phase is not None and n in phase.fv else ''
            deps = sorted(subst(bb, env).key for nn, bb in binders if n in bb.fv)
            return (subst(b, env).key, tuple(parts), ph, tuple(deps))
        groups = {}
        for n, b in binders:
            groups.setdefault(fp(n, b), []).append((n, b))
        keys = sorted(groups)
        count = 1
        for k in keys:
            for j in range(2, len(groups[k]) + 1):
                count *= j
        if count > 5040:
            raise KernelError('too many binders')
        cands = iproduct(*[list(permutations(groups[k])) for k in keys])
        cands = [sum(map(list, c), []) for c in cands]
    else:
        cands = [binders]
    for order in cands:
        env = {Atom('V', n, 'int'): atom_poly(bv(h, i)) for i, (n, b) in enumerate(order)}
        bounds = tuple(subst_atoms(b, env) for _, b in order)
        fl = []
        for a, e in fs.items():
            fl.append((subst_atoms_atom(a, env), e))
        fl = tuple(sorted(fl, key=lambda t: t[0].key))
        ph = subst_atoms(phase, env) if phase is not None else None
        if len(cands) == 1:
            return Poly({Mono(bounds, fl, ph): ONE_F})
        k = (';'.join(b.key for b in bounds), '*'.join('%s^%d' % (a.key, e) for a, e in fl), ph.key if ph is not None else '')
        if best is None or k < best[0]:
            best = (k, bounds, fl, ph)
    return Poly({Mono(best[1], best[2], best[3]): ONE_F})


def rename_atom(a, env):
    return subst_atoms_atom(a, {Atom('V', k, 'int'): v for k, v in env.items()})


def subst_binders(binders, n, e):
    return [(k, subst(b, {n: e})) for k, b in binders]


def sum_over(binders, body):
    """SUM over the list of (name, bound) of the polynomial body"""
    if not binders:
        return body
    out = []
    out_names = set()
    for n, b in binders:
        out_names.add(n)
        out_names |= b.fv
    for m, c in body.terms:
        b2, f2, p2 = open_mono(m, out_names | m.fv)
        out.append(scale(norm(list(binders) + b2, list(f2), p2), c))
    return addn(out)


def mk_sum(name, bound, body):
    return sum_over([(name, to_poly(bound))], body)


# ---------------------------------------------------------------- context

class Context(object):
    """Facts under which terms are simplified; set by the verifier"""
    def entails(self, lit_atom, sign):
        return False


ctx = [Context()]
_NOCTX = ctx[0]


def nonneg_part(b):
    """max(0,b), with b if known to be nonnegative"""
    c = b.const()
    if c is not None:
        return b if c >= 0 else ZERO
    if is_count(b):
        return b
    if ctx[0].entails_ge0(b):
        return b
    return mul(b, ge0(b))


NONNEG = set()


def nonneg_name(n):
    """Names of nonnegative constants and functions (_v, _z: indices of sequences and sums)"""
    return n.startswith(('len_', '_v', '_z')) or n in NONNEG


def is_count(b):
    """Syntactically nonnegative"""
    for m, c in b.terms:
        if c < 0:
            return False
        if m.phase is not None:
            return False
        for a, e in m.factors:
            if e % 2 == 0 and a.sort != 'cplx':
                continue
            if not (a.kind in ('CNT', 'SLEN', 'LT', 'EQ', 'BL', 'NSK', 'SEL') or (a.kind == 'V' and nonneg_name(a.data)) or
                    (a.kind == 'A' and nonneg_name(a.data[0]))):
                return False
    return True


# ---------------------------------------------------------------- literals

def _content(p):
    """positive rational g such that p/g is primitive with integer coefficients (nonconstant part)"""
    nums = [c for m, c in p.terms if m is not UNIT]
    if not nums:
        return None
    den = 1
    for c in nums:
        den = den * c.denominator // gcd(den, c.denominator)
    g = 0
    for c in nums:
        g = gcd(g, abs(int(c * den)))
    return Fraction(g, den)


def _lead(p):
    for m, c in p.terms:
        if m is not UNIT:
            return c
    return ZERO_F


def _clear_inv(p):
    return p


def lt0(p):
    """Indicator of p < 0"""
    c = p.const()
    if c is not None:
        return ONE if c < 0 else ZERO
    q = _logical(p, lambda x: x < 0)
    if q is not None:
        return q
    q = _absolute(p)
    if q is not None:
        # |u| + w < 0
        u, w = q
        return mul(lt0(u + w), lt0(w - u))
    q = _sum_product(p)
    if q is not None:
        u, v = q
        return mul(lt0(u), gt0(v)) + mul(gt0(u), lt0(v))
    if p.is_int:
        g = _content(p)
        k = p.const_term()
        q = Poly({m: c / g for m, c in p.terms if m is not UNIT})
        # g*q + k < 0  <=>  q <= floor((-k-1)/g)
        b = (Fraction(-k - 1) / g).__floor__()
        if b in (0, -1) and any(m.binders for m, _ in q.terms):
            # a count smaller than one, or not
            if b == 0 and counted(q) is not None:
                return eq0(q)
            if b == -1 and counted(neg(q)) is not None:
                return ONE - eq0(neg(q))
        if _lead(q) > 0:
            return _lit('LT', q - cst(b) - ONE)
        # q < b+1  <=>  not (-q < -b)
        return ONE - _lit('LT', neg(q) + cst(b))
    g = _content(p)
    p = scale(p, 1 / g)
    if _lead(p) > 0:
        return _lit('LT', p)
    return ONE - _lit('LT', neg(p)) - eq0(p)


_counted = {}


def counted(q):
    """
    The sums of q as [(binders, body, values)], if each one has a nonnegative body
    made of literals; values are those the body may take. None otherwise.
    """
    if q not in _counted:
        _counted[q] = _count(q)
    return _counted[q]


def _count(q):
    groups = {}
    rest = []
    for m, c in q.terms:
        if m.phase is not None or c.denominator != 1:
            return None
        if not m.binders:
            rest.append((m, c))
            continue
        bs, fs, _ = _open_mono(m, ['_q%d' % i for i in range(len(m.binders))])
        if any(not isinstance(a, Atom) or a.kind not in LITS or e != 1 for a, e in fs):
            return None
        groups.setdefault(tuple(bs), []).append((int(c), frozenset(a for a, _ in fs)))
    if rest:
        # the number of iterations, as a sum of ones
        if len(groups) != 1:
            return None
        bs = list(groups)[0]
        if len(bs) != 1 or len(bs[0][1].terms) != 1:
            return None
        (m, c), = bs[0][1].terms
        if len(rest) != 1 or rest[0][0] is not m or (rest[0][1] / c).denominator != 1:
            return None
        groups[bs].append((int(rest[0][1] / c), frozenset()))
    out = []
    for bs, terms in groups.items():
        atoms = sorted(set().union(*[fs for _, fs in terms]), key=lambda a: a.key)
        if len(atoms) > 9:
            return None
        values = set()
        for k in range(1 << len(atoms)):
            true = {a for i, a in enumerate(atoms) if k >> i & 1}
            zero = {a.data[0] for a in true if a.kind == 'EQ'}
            if any(a.kind == 'LT' and a.data[0] in zero for a in true):
                continue
            values.add(sum(c for c, fs in terms if fs <= true))
        if min(values) < 0:
            return None
        body = ZERO
        for c, fs in terms:
            t = cst(c)
            for a in fs:
                t = t * atom_poly(a)
            body = body + t
        out.append((list(bs), body, values))
    return out


def _logical(p, holds):
    """Indicator of holds(p) for a function p of literals alone, or None"""
    atoms = []
    for m, c in p.terms:
        if m.binders or m.phase is not None:
            return None
        for a, e in m.factors:
            if a.kind not in LITS or e != 1:
                return None
            if a not in atoms:
                atoms.append(a)
    if not atoms or len(atoms) > 3:
        return None
    r = ZERO
    for k in range(1 << len(atoms)):
        true = {a for i, a in enumerate(atoms) if k >> i & 1}
        zero = {a.data[0] for a in true if a.kind == 'EQ'}
        if any(a.kind == 'LT' and a.data[0] in zero for a in true):
            continue
        if holds(sum(c for m, c in p.terms if all(a in true for a, _ in m.factors))):
            t = ONE
            for a in atoms:
                t = mul(t, atom_poly(a) if a in true else ONE - atom_poly(a))
            r = r + t
    return r


def _absolute(p):
    """p as |u| + w, or None"""
    for m, _ in p.terms:
        if m.binders or m.phase is not None:
            continue
        for a, e in m.factors:
            if a.kind != 'LT' or e != 1:
                continue
            u = a.data[0]
            coef = {}
            for n, c in p.terms:
                if n.binders or n.phase is not None or not any(b is a for b, _ in n.factors):
                    continue
                fs = tuple((b, x) for b, x in n.factors if b is not a)
                n = Mono((), fs, None) if fs else UNIT
                coef[n] = coef.get(n, ZERO_F) + c
            coef = Poly(coef)
            g = -_lead(coef) / _lead(u) / 2 if _lead(u) else ZERO_F
            if g > 0:
                # abs(u), of integers too
                for v in (u, u - ONE):
                    v = scale(v, g)
                    if (coef + scale(v, 2)).const() == 0:
                        w = p - absp(v)
                        own = {m for m, _ in v.terms}
                        if not any(m in own or any(b is a for b, _ in m.factors) for m, _ in w.terms):
                            return v, w
    return None


def const_term(self):
    for m, c in self.terms:
        if m is UNIT:
            return c
    return ZERO_F


Poly.const_term = const_term


def ge0(p):
    return ONE - lt0(p)


def le0(p):
    return ge0(neg(p))


def gt0(p):
    return lt0(neg(p))


def eq0(p):
    """Indicator of p == 0"""
    c = p.const()
    if c is not None:
        return ONE if c == 0 else ZERO
    q = _logical(p, lambda x: x == 0)
    if q is not None:
        return q
    q = _sum_product(p)
    if q is not None:
        u, v = eq0(q[0]), eq0(q[1])
        return u + v - mul(u, v)
    g = _content(p)
    p = scale(p, 1 / g)
    if _lead(p) < 0:
        p = neg(p)
    if p.is_int or all(a.sort == 'int' and e > 0 for m, _ in p.terms for a, e in m.factors) and all(m.phase is None for m, _ in p.terms):
        # integer combination with fractional constant
        if p.const_term().denominator != 1:
            return ZERO
        if len(p.terms) <= 16 and any(m.binders for m, _ in p.terms) and all(len(m.binders) <= 1 for m, _ in p.terms):
            c = counted(p) or counted(neg(p))
            if c is not None and all(values <= {0, 1} for _, _, values in c):
                # nothing is counted
                r = ONE
                for bs, body, _ in c:
                    r = r * boolatom('NOEX', lam(bs[0][0], body), bs[0][1])
                return r
    return _lit('EQ', p)


def _lit(kind, p):
    a = Atom(kind, (p,), 'int')
    v = ctx_decide(a)
    if v is True:
        return ONE
    if v is False:
        return ZERO
    return atom_poly(a)


def ctx_decide(a):
    f = getattr(ctx[0], 'decide', None)
    if f is None:
        return None
    return f(a)


def boolatom(name, *args):
    a = Atom('BL', (name, tuple(x if isinstance(x, Lam) else to_poly(x) for x in args)), 'int')
    v = ctx_decide(a)
    if v is True:
        return ONE
    if v is False:
        return ZERO
    return atom_poly(a)


# ---------------------------------------------------------------- inverse, powers, floor...

_factored = {}


def factored(p):
    """(u, v) with p = u*v, v of degree one in an atom; None if not found"""
    if p not in _factored:
        _factored[p] = _factor(p) if 2 <= len(p.terms) <= 24 else None
    return _factored[p]


def _factor(p):
    deg = {}
    for m, _ in p.terms:
        if m.phase is not None:
            return None
        for a, e in m.factors:
            if isinstance(a, Atom) and a.kind in ('V', 'A') and '#' not in a.key:
                deg.setdefault(a, []).append(e)
    for a in sorted(deg, key=lambda a: a.key):
        es = deg[a]
        if any(e != 1 for e in es) or len(es) == len(p.terms):
            continue
        # p = A*a + B
        A = Poly({m: c for m, c in p.terms if a in dict(m.factors)}) * inv(atom_poly(a))
        B = Poly({m: c for m, c in p.terms if a not in dict(m.factors)})
        C = _divide(B, A) if A.const() is None else None
        if C is not None:
            return A, atom_poly(a) + C
    return None


def _divide(b, a):
    """c with b = a*c, or None"""
    q = b.terms[0][1] / dict(a.terms)[b.terms[0][0]] if b.terms[0][0] in dict(a.terms) else None
    if q is not None and scale(a, q) is b:
        return cst(q)
    if any(m.binders or m.phase is not None or any(a_.kind in LITS or e < 0 for a_, e in m.factors) for x in (a, b) for m, _ in x.terms):
        return None
    atoms = sorted({t for x in (a, b) for m, _ in x.terms for t, _ in m.factors}, key=lambda t: t.key)
    if len(atoms) > 8:
        return None
    vec = lambda m: tuple(dict(m.factors).get(t, 0) for t in atoms)
    da = {vec(m): c for m, c in a.terms}
    rest = {vec(m): c for m, c in b.terms}
    la = max(da)
    quotient = ZERO
    for _ in range(16):
        if not rest:
            return quotient
        lb = max(rest)
        e = tuple(x - y for x, y in zip(lb, la))
        if min(e) < 0 or any(x.denominator != 1 for x in map(Fraction, e)):
            return None
        c = rest[lb] / da[la]
        t = cst(c)
        for at, k in zip(atoms, e):
            for _ in range(int(k)):
                t = t * atom_poly(at)
        quotient = quotient + t
        for v, ca in da.items():
            k = tuple(x + y for x, y in zip(v, e))
            r = rest.get(k, 0) - c * ca
            if r:
                rest[k] = r
            else:
                rest.pop(k, None)
    return None


def _sum_product(p):
    """Factors of p, sums of two terms at least without binders; None otherwise"""
    if not 4 <= len(p.terms) <= 12 or any(m.binders for m, _ in p.terms):
        return None
    f = factored(p)
    return f if f is not None and len(f[0].terms) > 1 and len(f[1].terms) > 1 else None


def inv(p):
    c = p.const()
    if c is not None:
        if c == 0:
            raise KernelError('division by zero')
        return cst(1 / c)
    if len(p.terms) == 1:
        m, c = p.terms[0]
        if not m.binders and not any(a.kind in LITS for a, _ in m.factors):
            fs = [(a, -e) for a, e in m.factors]
            return scale(norm([], fs, neg(m.phase) if m.phase is not None else None), 1 / c)
        if m.binders and m.phase is None:
            parts = independent(m)
            if len(parts) > 1:
                r = cst(1 / c)
                for q in parts:
                    r = mul(r, inv(q))
                return r
    # common factors come out
    com = None
    for m, c in p.terms:
        fs = {} if m.binders else dict((a, e) for a, e in m.factors if a.kind not in LITS)
        com = fs if com is None else dict((a, min(e, fs[a])) for a, e in com.items() if a in fs)
        if not com:
            break
    if com:
        com = [(a, e) for a, e in com.items() if e != 0]
    if com:
        f = norm([], [(a, -e) for a, e in com], None)
        dc = dict(com)
        q = addn([scale(norm([], [(a, e - dc.get(a, 0)) for a, e in m.factors], m.phase), c) for m, c in p.terms])
        return mul(f, inv(q))
    q = factored(p)
    if q is not None:
        return mul(inv(q[0]), inv(q[1]))
    # normalise leading coefficient
    c = p.terms[0][1]
    q = scale(p, 1 / c)
    return scale(atom_poly(Atom('INV', (q,), 'real')), 1 / c)


def power(p, n):
    if isinstance(n, Poly):
        c = n.const()
        if c is not None:
            n = c
        else:
            return powr(p, n)
    n = Fraction(n)
    if n.denominator == 1:
        n = int(n)
        if n < 0:
            return power(inv(p), -n)
        r = ONE
        for _ in range(n):
            r = mul(r, p)
        return r
    if n == Fraction(1, 2):
        return sqrt(p)
    return powr(p, cst(n))


def independent(m):
    """A sum as a product of sums over disjoint sets of binders"""
    b, f, ph = open_mono(m)
    if ph is not None:
        return [Poly({m: ONE_F})]
    names = [n for n, _ in b]
    group = {n: {n} for n in names}

    def join(vs):
        vs = [v for v in vs if v in group]
        new = set().union(*[group[v] for v in vs]) if vs else set()
        for v in new:
            group[v] = new
    for n, hi in b:
        join([n] + [v for v in names if v in hi.fv])
    for a, e in f:
        join([v for v in names if v in a.fv])
    out, done = [], set()
    for n in names:
        if n in done:
            continue
        done |= group[n]
        body = norm([], [(a, e) for a, e in f if a.fv & group[n]], None)
        out.append(sum_over([(x, hi) for x, hi in b if x in group[n]], body))
    rest = [(a, e) for a, e in f if not a.fv & set(names)]
    if rest:
        out.append(norm([], rest, None))
    return out


def sqrt(p):
    c = p.const()
    if c is not None:
        if c == 0:
            return ZERO
        if c > 0:
            from math import isqrt
            a, b = isqrt(c.numerator), isqrt(c.denominator)
            if a*a == c.numerator and b*b == c.denominator:
                return cst(Fraction(a, b))
    return app('sqrt', p)


def powr(b, e):
    """Real power of a positive base"""
    c = e.const()
    if c is not None and c.denominator == 1:
        return power(b, c)
    if b.const() == 1:
        return ONE
    if c is not None and c.denominator == 2:
        return mul(power(b, c - Fraction(1, 2)), sqrt(b))
    # (b0^e0)^e = b0^(e0*e)
    if len(b.terms) == 1 and b.terms[0][1] == 1:
        m = b.terms[0][0]
        if not m.binders and m.phase is None and len(m.factors) == 1 and m.factors[0][0].kind == 'POW':
            a, k = m.factors[0]
            return powr(a.data[0], a.data[1] * e * k)
    # split an integer constant
    k = e.const_term()
    i = k.__floor__()
    if i != 0 and len(e.terms) > 1 or (i != 0 and e.const() is not None):
        return mul(power(b, i), powr(b, e - cst(i)))
    return atom_poly(Atom('POW', (b, e), 'real'))


def expi(p):
    """exp(i*p)"""
    if not p.terms:
        return ONE
    return Poly({Mono((), (), p): ONE_F})


def floor(p):
    if p.is_int:
        return p
    c = p.const()
    if c is not None:
        return cst(c.__floor__())
    # pull out integer part
    ints = {}
    rest = {}
    for m, k in p.terms:
        q = Poly({m: ONE_F})
        if q.is_int and k.denominator == 1 and m is not UNIT:
            ints[m] = k
        elif m is UNIT:
            f = Fraction(k.__floor__())
            if f:
                ints[m] = f
            if k - f:
                rest[m] = k - f
        else:
            rest[m] = k
    r = Poly(rest)
    if not r.terms:
        return Poly(ints)
    if r.const() is not None:
        return Poly(ints)
    return add(Poly(ints), atom_poly(Atom('FLOOR', (r,), 'int')))


def ceil(p):
    return neg(floor(neg(p)))


def minp(a, b):
    return a + (b - a) * lt0(b - a)


def maxp(a, b):
    return a + (b - a) * lt0(a - b)


def absp(a):
    if _lead(a) < 0:
        a = neg(a)
    return a - 2 * a * lt0(a)


def cnt(lo, hi, step):
    """Number of elements of range(lo, hi, step), step>=1 (or <=-1 if constant)"""
    c = step.const()
    d = hi - lo
    if c is not None and c < 0:
        lo, hi, step = neg(lo), neg(hi), neg(step)
        d = hi - lo
        c = step.const()
    k = d.const()
    if k is not None and k <= 0:
        return ZERO
    if c == 1:
        if k is not None:
            return cst(max(ZERO_F, k))
        if is_count(d) or ctx[0].entails_ge0(d):
            return d
    if k is not None and c is not None:
        return cst(max(0, -((-k) // c)))
    return atom_poly(Atom('CNT', (d, step), 'int'))


def slen(lo, hi, n):
    """Length of a[lo:hi] for a sequence of length n, 0<=lo"""
    # min(hi, n) - min(lo, n), clipped
    E = ctx[0].entails_ge0
    if E(lo) and E(n - hi) and E(hi - lo):
        return hi - lo
    if E(lo) and E(n - lo) and E(hi - n):
        return n - lo
    return atom_poly(Atom('SLEN', (lo, hi, n), 'int'))


def sel(n, c, j):
    """Index of the j-th (from 0) v<n such that c(v), c a Lam whose body is an indicator"""
    return atom_poly(Atom('SEL', (n, c, to_poly(j)), 'int'))


def sk(l, j):
    """j-th smallest key of the multiset whose multiplicity is the Lam l"""
    return atom_poly(Atom('SK', (support(l), to_poly(j)), 'int'))


def nsk(l):
    return atom_poly(Atom('NSK', (support(l),), 'int'))


_support_cache = {}


def support(l):
    """A function with the same keys: positive constant factors of the multiplicity are dropped"""
    k = (l, id(ctx[0]))
    r = _support_cache.get(k)
    if r is not None:
        return r
    com = None
    for m, c in l.body.terms:
        fs = dict((a, e) for a, e in m.factors if a.kind in ('A', 'V', 'CNT') and a.sort == 'int' and e > 0 and '#' not in a.key)
        com = fs if com is None else dict((a, min(e, fs[a])) for a, e in com.items() if a in fs)
        if not com:
            break
    body = l.body
    for a, e in sorted((com or {}).items(), key=lambda x: x[0].key):
        if ctx[0].entails_ge0(atom_poly(a) - 1):
            body = mul(body, norm([], [(a, -e)], None))
    if len(body.terms) == 1 and body.terms[0][1] > 0:
        body = scale(body, 1 / body.terms[0][1])
    r = l if body is l.body else Lam(body, l.h, l.nvars)
    _support_cache[k] = r
    return r


def _sel_atoms(p, out):
    """Collect the SEL atoms in a poly/atom (deep)"""
    for m, c in p.terms:
        for b in m.binders:
            _sel_atoms(b, out)
        for a, e in m.factors:
            _sel_in_atom(a, out)
        if m.phase is not None:
            _sel_atoms(m.phase, out)


def _sel_in_atom(a, out):
    if a.kind == 'SEL':
        out.add(a)
    for d in _subs(a.kind, a.data):
        _sel_atoms(d.body if isinstance(d, Lam) else d, out)


def _try_sel(binders, i, fs, phase):
    n, b = binders[i]
    if not any('SEL(' in a.key for a in fs) and not (phase is not None and 'SEL(' in phase.key):
        return None
    s = set()
    for a in fs:
        _sel_in_atom(a, s)
    if phase is not None:
        _sel_atoms(phase, s)
    vp = var(n, 'int')
    for a in s:
        N, c, j = a.data
        if j is not vp or n in N.fv or n in c.fv:
            continue
        v = fresh_name('_b')
        vv = var(v, 'int')
        count = mk_sum(v, N, c(vv))
        if count is not b:
            continue
        # replace atom by vv and check n disappears
        env = {a: vv}
        body = norm([], [(subst_atoms_poly_atom(x, env), e) for x, e in fs.items()],
                    subst_atoms(phase, env) if phase is not None else None)
        if n in body.fv or any(n in bb.fv for k, (_, bb) in enumerate(binders) if k != i):
            continue
        rest = binders[:i] + binders[i+1:] + [(v, N)]
        return sum_over(rest, mul(body, c(vv)))
    return None


def _try_blocks(binders, fs, phase):
    """
    SUM_{j<CNT(N,B)} SUM_{p<SLEN(B*j, B*j+B, N)} g(B*j+p) = SUM_{p<N} g(p)   (B>=1)
    SUM_{j<CNT(N,B)} SLEN(B*j, B*j+B, N) = N
    """
    for a, e in list(fs.items()):
        if a.kind != 'SLEN' or e != 1:
            continue
        lo, hi, N = a.data
        B = hi - lo
        for k, (j, bj) in enumerate(binders):
            if j not in a.fv or j in B.fv or j in N.fv or lo is not mul(B, var(j, 'int')) or bj is not cnt(ZERO, N, B):
                continue
            if any(j in x.fv for x in fs if x is not a) or (phase is not None and j in phase.fv) or any(j in bb.fv for _, bb in binders):
                continue
            if not ctx[0].entails_ge0(B - ONE):
                continue
            fs2 = dict(fs)
            fs2.pop(a)
            return sum_over(binders[:k] + binders[k+1:], mul(norm([], list(fs2.items()), phase), nonneg_part(N)))
    for i, (p, b) in enumerate(binders):
        if len(b.terms) != 1 or b.terms[0][1] != 1:
            continue
        m = b.terms[0][0]
        if m.binders or m.phase is not None or len(m.factors) != 1 or m.factors[0][0].kind != 'SLEN':
            continue
        lo, hi, N = m.factors[0][0].data
        B = hi - lo
        for k, (j, bj) in enumerate(binders):
            if k == i or j not in lo.fv or j in B.fv or j in N.fv:
                continue
            if lo is not mul(B, var(j, 'int')):
                continue
            if bj is not cnt(ZERO, N, B):
                continue
            if any((j in bb.fv or p in bb.fv) for q, (_, bb) in enumerate(binders) if q not in (i, k)):
                continue
            if not ctx[0].entails_ge0(B - ONE):
                continue
            # p := q - B*j ; j must disappear
            q = fresh_name('_b')
            body = norm([], list(fs.items()), phase)
            body = subst(body, {p: var(q, 'int') - lo})
            if j in body.fv:
                continue
            rest = [x for t, x in enumerate(binders) if t not in (i, k)] + [(q, N)]
            return sum_over(rest, body)
    return None


def _flat_atoms(p, name, out):
    for m, _ in p.terms:
        for b in m.binders:
            _flat_atoms(b, name, out)
        if m.phase is not None:
            _flat_atoms(m.phase, name, out)
        for a, _ in m.factors:
            _flat_in_atom(a, name, out)


def _flat_in_atom(a, name, out):
    if name not in a.fv:
        return
    if a.kind == 'A' and a.data[0] in ('idiv', 'imod') and a.data[1][0] is var(name, 'int'):
        out.append(a)
        return
    for s in _subs(a.kind, a.data):
        if isinstance(s, Lam):
            _flat_atoms(s.body, name, out)
        elif isinstance(s, Poly):
            _flat_atoms(s, name, out)


def divide(p, q):
    """p / q if q is a single monomial that divides every term of p, else None"""
    if len(q.terms) != 1:
        return None
    m, c = q.terms[0]
    if m.binders or m.phase is not None:
        return None
    out = []
    for mm, cc in p.terms:
        if mm.binders or mm.phase is not None:
            return None
        f = dict(mm.factors)
        for a, e in m.factors:
            if f.get(a, 0) < e:
                return None
            f[a] -= e
            if not f[a]:
                del f[a]
        out.append(scale(norm([], list(f.items()), None), cc / c))
    return addn(out)


def _try_flat(binders, fs, phase):
    """
    SUM_{k<q*n} g(k // n, k % n) = SUM_{i<q} SUM_{j<n} g(i, j)
    """
    for i, (k, b) in enumerate(binders):
        found = []
        for a in fs:
            _flat_in_atom(a, k, found)
        if phase is not None:
            _flat_atoms(phase, k, found)
        if not found:
            continue
        n = found[0].data[1][1]
        if any(a.data[1][1] is not n for a in found) or any(k in bb.fv for _, bb in binders):
            continue
        q = divide(b, n)
        if q is None or any(x in n.fv for x, _ in binders):
            continue
        u, v = fresh_name('_b'), fresh_name('_b')
        body = norm([], list(fs.items()), phase)
        env = {app('idiv', var(k, 'int'), n, sort='int').terms[0][0].factors[0][0]: var(u, 'int'),
               app('imod', var(k, 'int'), n, sort='int').terms[0][0].factors[0][0]: var(v, 'int')}
        body = subst_atoms(body, env)
        body = subst(body, {k: var(u, 'int') * n + var(v, 'int')})
        rest = [x for t, x in enumerate(binders) if t != i]
        return sum_over(rest + [(u, q), (v, n)], body)
    return None


# ---------------------------------------------------------------- substitution

_subst_cache = {}


def subst(p, env):
    """env: dict variable name -> Poly. Variables of any sort with that name."""
    if p is None:
        return None
    names = p.fv & set(env)
    if not names:
        return p
    e = {}
    for n in names:
        for s in ('int', 'real', 'cplx', 'obj'):
            a = Atom.table.get(('V', n, s))
            if a is not None:
                e[a] = env[n]
    return subst_atoms(p, e)


def subst_atoms(p, env):
    """env: dict Atom -> Poly; replaces atoms (variables, bound variables, or any atom)"""
    if not p.terms or not env:
        return p
    k = (p, frozenset(env.items()))
    r = _subst_cache.get(k)
    if r is not None:
        return r
    out = []
    ch = False
    for m, c in p.terms:
        q = subst_mono(m, env)
        out.append(scale(q, c))
    r = addn(out)
    _subst_cache[k] = r
    return r


def _touches(fv_holder, env):
    """Can any atom of env occur in the holder? conservative"""
    for a in env:
        if a.kind == 'V':
            if a.data in fv_holder.fv:
                return True
        else:
            return True
    return False


def subst_mono(m, env):
    if not _touches(m, env):
        return Poly({m: ONE_F})
    if m.binders:
        avoid = set(m.fv)
        for a, q in env.items():
            avoid |= q.fv
            avoid |= a.fv
        names = pool(len(m.binders), avoid)
        env2 = dict(env)
        for i, n in enumerate(names):
            env2[bv(m.h, i)] = var(n, 'int')
        # a free bound-variable of same height cannot be captured: levels are by height
        bounds = [(n, subst_atoms(b, env2)) for n, b in zip(names, m.binders)]
        body = _subst_flat(m.factors, m.phase, env2)
        return sum_over(bounds, body)
    return _subst_flat(m.factors, m.phase, env)


def _subst_flat(factors, phase, env):
    fs = []
    polys = []
    for a, e in factors:
        q = subst_in_atom(a, env)
        if isinstance(q, Atom):
            fs.append((q, e))
        else:
            polys.append((q, e))
    ph = subst_atoms(phase, env) if phase is not None else None
    r = norm([], fs, ph)
    for q, e in polys:
        r = mul(r, power(q, e))
    return r


_atom_cache = {}


def subst_in_atom(a, env):
    """Return an Atom (unchanged structure) or a Poly"""
    if a in env:
        q = env[a]
        if len(q.terms) == 1 and q.terms[0][1] == 1:
            m = q.terms[0][0]
            if not m.binders and m.phase is None and len(m.factors) == 1 and m.factors[0][1] == 1:
                return m.factors[0][0]
        return q
    if a.kind in ('V', 'B'):
        return a
    if not _touches(a, env):
        return a
    new = []
    for d in _subs(a.kind, a.data):
        if isinstance(d, Lam):
            new.append(subst_lam(d, env))
        else:
            new.append(subst_atoms(d, env))
    old = list(_subs(a.kind, a.data))
    if all(x is y for x, y in zip(new, old)):
        return a
    return remake(a, new)


def subst_lam(l, env):
    if not _touches(l, env):
        return l
    avoid = set(l.fv)
    for a, q in env.items():
        avoid |= q.fv
        avoid |= a.fv
    names = pool(l.nvars, avoid)
    env2 = dict(env)
    for i, n in enumerate(names):
        env2[bv(l.h, i)] = var(n, 'int')
    return lam(names, subst_atoms(l.body, env2))


def remake(a, new):
    """Rebuild an atom with smart constructors; returns Poly"""
    k = a.kind
    if k == 'LT':
        return lt0(new[0])
    if k == 'EQ':
        return eq0(new[0])
    if k == 'INV':
        return inv(new[0])
    if k == 'POW':
        return powr(new[0], new[1])
    if k == 'FLOOR':
        return floor(new[0])
    if k == 'CNT':
        return cnt(ZERO, new[0], new[1])
    if k == 'SLEN':
        return slen(*new)
    if k == 'A' and a.data[0] == 'sqrt':
        return sqrt(new[0])
    if k == 'A' and a.data[0] in REWRITE:
        return REWRITE[a.data[0]](*new)
    if k == 'A':
        return atom_poly(Atom('A', (a.data[0], tuple(new)), a.sort))
    if k == 'BL':
        return boolatom(a.data[0], *new)
    return atom_poly(Atom(k, tuple(new), a.sort))


# Functions with rewriting on concrete arguments: name -> python function returning Poly
REWRITE = {}


def subst_atoms_atom(a, env):
    """Like subst_in_atom for renamings: must return an Atom"""
    q = subst_in_atom(a, env)
    if isinstance(q, Atom):
        return q
    if len(q.terms) == 1 and q.terms[0][1] == 1:
        m = q.terms[0][0]
        if not m.binders and m.phase is None and len(m.factors) == 1 and m.factors[0][1] == 1:
            return m.factors[0][0]
    # Renaming can flip the orientation of literals; keep as raw atom
    if a.kind in ('LT', 'EQ', 'INV'):
        new = [subst_atoms(d, env) for d in a.data]
        return Atom(a.kind, tuple(new), a.sort)
    raise KernelError('renaming of %s gives %s' % (a, q))


def subst_atoms_poly_atom(a, env):
    q = subst_in_atom(a, env)
    return q


# ---------------------------------------------------------------- complex

def mate(name):
    """Name of the complex conjugate of a complex function or variable"""
    return name[:-1] if name.endswith('~') else name + '~'


def conj_atom(a):
    if a.kind == 'A':
        return atom_poly(Atom('A', (mate(a.data[0]), a.data[1]), 'cplx'))
    if a.kind == 'V':
        return atom_poly(Atom('V', mate(a.data), 'cplx'))
    raise KernelError('conjugate of complex atom')


def conj(p):
    out = []
    for m, c in p.terms:
        b, f, ph = open_mono(m)
        if any(a is I_ATOM for a, _ in f):
            c = -c
        body = None
        g = []
        for a, e in f:
            if a.sort == 'cplx' and a is not I_ATOM:
                q = conj_atom(a)
            elif a.kind == 'INV':
                q = inv(conj(a.data[0]))
            else:
                g.append((a, e))
                continue
            q = power(q, e)
            body = q if body is None else mul(body, q)
        r = norm([] if body is not None else b, g, neg(ph) if ph is not None else None)
        if body is not None:
            r = mul(r, body)
            for x in reversed(b):
                r = sum_over([x], r)
        out.append(scale(r, c))
    return addn(out)


def re(p):
    return scale(add(p, conj(p)), Fraction(1, 2))


def im(p):
    return mul(scale(add(p, neg(conj(p))), Fraction(1, 2)), neg(I))


def mentions_complex(p):
    """Complex numbers occur in p (which the solvers, over the reals, cannot judge)"""
    return 'E{' in p.key or '~(' in p.key or any(a.sort == 'cplx' for m, c in p.terms for a, e in m.factors)


def is_real(p):
    return conj(p) is p


# ---------------------------------------------------------------- rational equality

def inv_atoms(p):
    """INV atoms and negative powers at the top level (outside sums)"""
    out = {}
    for m, c in p.terms:
        if m.binders:
            # INV atoms within sums that do not depend on the binders have been kept inside:
            b, f, ph = open_mono(m)
            names = set(n for n, _ in b)
            for a, e in f:
                if not (a.fv & names):
                    if a.kind == 'INV' and e > 0:
                        out[a] = max(out.get(a, 0), e)
                    elif e < 0:
                        out[a] = max(out.get(a, 0), -e)
        else:
            for a, e in m.factors:
                if a.kind == 'INV' and e > 0:
                    out[a] = max(out.get(a, 0), e)
                elif e < 0:
                    out[a] = max(out.get(a, 0), -e)
    return out


def clear(p):
    """Multiply p by the denominators: returns numerator (zero iff p is zero, denominators being nonzero)"""
    for _ in range(20):
        ia = inv_atoms(p)
        if not ia:
            return p
        a, n = sorted(ia.items(), key=lambda t: t[0].key)[-1]
        out = []
        if a.kind == 'INV':
            d = a.data[0]
        else:
            d = atom_poly(a)
        for m, c in p.terms:
            b, f, ph = open_mono(m)
            names = set(x for x, _ in b)
            e = 0
            rest = []
            for x, ex in f:
                if x is a and not (x.fv & names):
                    e = ex if a.kind == 'INV' else -ex
                else:
                    rest.append((x, ex))
            q = norm(b, rest, ph)
            out.append(scale(mul(q, power(d, n - e)), c))
        p = addn(out)
    return p


# ---------------------------------------------------------------- numeric evaluation

class EvalError(Exception):
    pass


def evaluate(p, env, funcs):
    """
    Numeric value of a poly: env maps variable names to numbers, funcs maps
    function names to python functions. Used to cross-check the kernel.
    """
    import cmath
    import math

    def ev(p, b):
        tot = 0
        for m, c in p.terms:
            tot = tot + (int(c) if c.denominator == 1 else float(c)) * evm(m, b)
        return tot

    def evm(m, b):
        def rec(i, b):
            if i == len(m.binders):
                v = 1
                for a, e in m.factors:
                    x = eva(a, b)
                    if a.kind in LITS and x == 0:
                        return 0
                    v = v * (x ** e if e != 1 else x)
                if m.phase is not None:
                    v = v * cmath.exp(1j * ev(m.phase, b))
                return v
            order = orders[i]
            n = ev(m.binders[order], b)
            s = 0
            for k in range(int(round(n))):
                b2 = dict(b)
                b2[(m.h, order)] = k
                s = s + rec(i+1, b2)
            return s
        # dependency order
        orders = []
        left = list(range(len(m.binders)))
        while left:
            for i in left:
                ok = True
                for j in left:
                    if j != i and _has_bv(m.binders[i], m.h, j):
                        ok = False
                        break
                if ok:
                    orders.append(i)
                    left.remove(i)
                    break
            else:
                raise EvalError('cyclic bounds')
        return rec(0, b)

    def evl(l, b):
        def f(*args):
            b2 = dict(b)
            for i, a in enumerate(args):
                b2[(l.h, i)] = a
            return ev(l.body, b2)
        return f

    def eva(a, b):
        k = a.kind
        if k == 'V':
            if a is I_ATOM:
                return 1j
            return env[a.data]
        if k == 'B':
            return b[a.data]
        if k == 'A':
            args = [evl(x, b) if isinstance(x, Lam) else ev(x, b) for x in a.data[1]]
            if a.data[0] == 'sqrt' and 'sqrt' not in funcs:
                return math.sqrt(args[0])
            return funcs[a.data[0]](*args)
        if k == 'BL':
            return 1 if funcs[a.data[0]](*[evl(x, b) if isinstance(x, Lam) else ev(x, b) for x in a.data[1]]) else 0
        if k == 'LT':
            v = ev(a.data[0], b)
            return 1 if (v.real if isinstance(v, complex) else v) < 0 else 0
        if k == 'EQ':
            v = ev(a.data[0], b)
            return 1 if v == 0 else 0
        if k == 'INV':
            return 1 / ev(a.data[0], b)
        if k == 'POW':
            return ev(a.data[0], b) ** ev(a.data[1], b)
        if k == 'FLOOR':
            return math.floor(ev(a.data[0], b))
        if k == 'CNT':
            d, s = ev(a.data[0], b), ev(a.data[1], b)
            return len(range(0, int(d), int(s)))
        if k == 'SLEN':
            lo, hi, n = [int(ev(x, b)) for x in a.data]
            return len(range(n)[lo:hi])
        if k == 'SEL':
            n = ev(a.data[0], b)
            f = evl(a.data[1], b)
            j = ev(a.data[2], b)
            ok = [v for v in range(int(n)) if f(v)]
            return ok[int(j)]
        if k in ('SK', 'NSK'):
            keys = funcs['__keys__'](a.data[0].key)
            return sorted(keys)[int(ev(a.data[1], b))] if k == 'SK' else len(keys)
        raise EvalError(k)

    return ev(p, {})


def _has_bv(p, h, j):
    return ('#%d.%d' % (h, j)) in p.key
