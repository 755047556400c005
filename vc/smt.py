"""
Back ends: translation of indicator polynomials to z3 (and to cvc5 through
SMT-LIB for the obligations), in exact real/integer arithmetic.

Sums and other higher-order atoms are opaque constants for the solver (two
occurrences of the same normal form are the same constant).
"""

import subprocess
import tempfile
import os
import time
import z3

from . import terms as T

STATS = {'queries': 0, 'time': 0.0, 'cvc5': 0, 'cvc5_time': 0.0}


# Facts about uninterpreted functions, instantiated at each occurrence:
# name -> list of functions of the arguments returning a list of indicator polys
AXIOMS = {}


class Tr(object):

    def __init__(self):
        self.atoms = {}
        self.axioms = []
        self.keep = []
        self.funcs = {}
        self.done_ax = set()

    def const(self, key, sort):
        v = self.atoms.get((key, sort))
        if v is None:
            nm = 'c%d' % len(self.atoms)
            v = z3.Int(nm) if sort == 'int' else z3.Real(nm)
            self.atoms[(key, sort)] = v
        return v

    def uf(self, name, nargs, sort):
        k = (name, nargs, sort)
        f = self.funcs.get(k)
        if f is None:
            f = z3.Function('f%d_%s' % (len(self.funcs), ''.join(c if c.isalnum() else '_' for c in name)),
                            *([z3.RealSort()] * nargs + [z3.IntSort() if sort == 'int' else z3.RealSort()]))
            self.funcs[k] = f
        return f

    def poly(self, p):
        """z3 arithmetic term"""
        out = []
        for m, c in p.terms:
            out.append(self.mono(m, c))
        if not out:
            return z3.RealVal(0)
        r = out[0]
        for x in out[1:]:
            r = r + x
        return r

    def num(self, c):
        if c.denominator == 1:
            return z3.IntVal(c.numerator)
        return z3.RealVal('%d/%d' % (c.numerator, c.denominator))

    def mono(self, m, c):
        if m.binders:
            self.keep.append(m)
            v = self.const(('mono', m), 'int' if T.Poly({m: T.ONE_F}).is_int else 'real')
            nonneg = m.phase is None and all(a.kind in T.LITS or (e % 2 == 0) for a, e in m.factors)
            if nonneg and (m, 'nn') not in self.done_ax:
                self.done_ax.add((m, 'nn'))
                self.axioms.append(v >= 0)
            return self.num(c) * v if c != 1 else v
        r = None
        fl = []
        for a, e in m.factors:
            x = self.atom(a)
            if e < 0:
                x = self.inverse(a, x)
                e = -e
            for _ in range(e):
                r = x if r is None else r * x
                fl.append((a, x))
        if len(fl) == 2 and ('sign', m) not in self.done_ax:
            # instances of the sign of a product, which the solver does not find by itself
            self.done_ax.add(('sign', m))
            (a, x), (b, y) = fl
            if a is not b and a.kind not in T.LITS and b.kind not in T.LITS:
                self.axioms.append(z3.Implies(z3.And(x >= 0, y >= 0), x * y >= 0))
                if a.sort == 'int':
                    self.axioms.append(z3.Implies(z3.And(x >= 1, y >= 0), x * y >= y))
                if b.sort == 'int':
                    self.axioms.append(z3.Implies(z3.And(x >= 0, y >= 1), x * y >= x))
        if m.phase is not None:
            x = self.const(('phase', m.phase), 'real')
            r = x if r is None else r * x
        if r is None:
            return self.num(c)
        return r if c == 1 else self.num(c) * r

    def inverse(self, key, x):
        v = self.const(('inv', key), 'real')
        if ('inv', key) not in self.done_ax:
            self.done_ax.add(('inv', key))
            self.axioms.append(z3.Implies(x != 0, x * v == 1))
            self.axioms.append(z3.Implies(x > 0, v > 0))
            self.axioms.append(z3.Implies(x < 0, v < 0))
        return v

    def boolean(self, a):
        """z3 formula of a literal atom"""
        if a.kind == 'LT':
            return self.poly(a.data[0]) < 0
        if a.kind == 'EQ':
            return self.poly(a.data[0]) == 0
        if any(isinstance(d, T.Lam) for d in a.data[1]):
            k = ('bl', a)
            if k not in self.atoms:
                self.atoms[k] = z3.Bool('b%d' % len(self.atoms))
            return self.atoms[k]
        args = [self.poly(d) for d in a.data[1]]
        args = [z3.ToReal(x) if z3.is_int(x) else x for x in args]
        k = ('blf', a.data[0], len(args))
        if not args:
            if k not in self.atoms:
                self.atoms[k] = z3.Bool('b%d' % len(self.atoms))
            return self.atoms[k]
        if k not in self.funcs:
            self.funcs[k] = z3.Function('p%d' % len(self.funcs), *([z3.RealSort()] * len(args) + [z3.BoolSort()]))
        return self.funcs[k](*args)

    def atom(self, a):
        k = a.kind
        if k in T.LITS:
            return z3.If(self.boolean(a), z3.IntVal(1), z3.IntVal(0))
        if k == 'V':
            v = self.const(a.data, a.sort)
            if T.nonneg_name(a.data):
                self.ax(a, lambda: [v >= 0])
            return v
        if k == 'INV':
            return self.inverse(a.data[0], self.poly(a.data[0]))
        if k == 'FLOOR':
            v = self.const(a, 'int')
            if a not in self.done_ax:
                self.done_ax.add(a)
                p = self.poly(a.data[0])
                self.axioms += [z3.ToReal(v) <= p, p < z3.ToReal(v) + 1]
            return v
        if k == 'CNT':
            v = self.const(a, 'int')
            if a not in self.done_ax:
                self.done_ax.add(a)
                d, s = self.poly(a.data[0]), self.poly(a.data[1])
                self.axioms += [v >= 0, z3.Implies(d <= 0, v == 0),
                                z3.Implies(z3.And(d > 0, s > 0), z3.And((v - 1) * s < d, d <= v * s))]
            return v
        if k == 'SLEN':
            v = self.const(a, 'int')
            if a not in self.done_ax:
                self.done_ax.add(a)
                lo, hi, n = [self.poly(x) for x in a.data]
                mn = lambda x, y: z3.If(x <= y, x, y)
                mx = lambda x, y: z3.If(x >= y, x, y)
                self.axioms += [v >= 0, z3.Implies(z3.And(lo >= 0, hi >= 0), v == mx(0, mn(hi, n) - mn(lo, n)))]
            return v
        if k == 'SEL':
            v = self.const(a, 'int')
            if a not in self.done_ax:
                self.done_ax.add(a)
                self.axioms += [v >= 0, v < self.poly(a.data[0])]
                cond = a.data[1](T.atom_poly(a))
                self.axioms.append(self.poly(cond) == 1)
            return v
        if k == 'NSK':
            v = self.const(a, 'int')
            self.ax(a, lambda: [v >= 0])
            return v
        if k == 'A' and not any(isinstance(d, T.Lam) for d in a.data[1]) and a.data[1]:
            args = [self.poly(d) for d in a.data[1]]
            args = [z3.ToReal(x) if z3.is_int(x) else x for x in args]
            v = self.uf(a.data[0], len(args), a.sort)(*args)
            if a.data[0] in AXIOMS:
                for fn in AXIOMS[a.data[0]]:
                    self.ax((a, fn), lambda: self.axiom(fn, a))
            if a.data[0] == 'sqrt':
                self.ax(a, lambda: [v >= 0, z3.Implies(args[0] >= 0, v * v == args[0]), z3.Implies(args[0] > 0, v > 0)])
            elif T.nonneg_name(a.data[0]):
                self.ax(a, lambda: [v >= 0])
            elif a.data[0] == 'rint' or a.data[0] == 'round':
                self.ax(a, lambda: [2 * (args[0] - v) <= 1, 2 * (args[0] - v) >= -1])
            return v
        if k == 'A' and a.data[0] in ('ARGMIN', 'ARGMAX'):
            v = self.const(a, 'int')
            n = self.poly(a.data[1][1])
            self.ax(a, lambda: [v >= 0, z3.Implies(n > 0, v < n)])
            return v
        if k == 'A' and (a.data[1] or a.data[0] in AXIOMS):
            v = self.const(a, 'int' if a.sort == 'int' else 'real')
            for fn in AXIOMS.get(a.data[0], ()):
                self.ax((a, fn), lambda: self.axiom(fn, a))
            if T.nonneg_name(a.data[0]):
                self.ax(a, lambda: [v >= 0])
            return v
        if k == 'POW':
            v = self.const(a, 'real')
            b, e = self.poly(a.data[0]), self.poly(a.data[1])
            self.ax(a, lambda: [z3.Implies(b > 0, v > 0), z3.Implies(z3.And(b > 1, e > 0), v > 1)])
            return v
        return self.const(a, 'int' if a.sort == 'int' else 'real')

    def axiom(self, fn, a):
        """Instance of an axiom, built without simplification under the facts it is one of"""
        c = T.ctx[0]
        T.ctx[0] = T._NOCTX
        try:
            ps = fn(*a.data[1])
        finally:
            T.ctx[0] = c
        return [self.formula(x) for x in ps]

    def ax(self, key, f):
        if key not in self.done_ax:
            self.done_ax.add(key)
            self.axioms += f()

    def formula(self, p):
        """Indicator polynomial -> formula (p == 1)"""
        if len(p.terms) == 1:
            m, c = p.terms[0]
            if c == 1 and not m.binders and m.phase is None and all(a.kind in T.LITS for a, e in m.factors):
                return z3.And(*[self.boolean(a) for a, e in m.factors]) if m.factors else z3.BoolVal(True)
        if len(p.terms) == 2:
            d = dict(p.terms)
            if d.get(T.UNIT) == 1:
                m, c = [t for t in p.terms if t[0] is not T.UNIT][0]
                if c == -1 and not m.binders and m.phase is None and all(a.kind in T.LITS for a, e in m.factors):
                    return z3.Not(z3.And(*[self.boolean(a) for a, e in m.factors]))
        return self.poly(p) == 1


def _solver(tr, fs, timeout):
    s = z3.Solver()
    s.set('timeout', int(timeout * 1000))
    for f in fs:
        s.add(f)
    n = 0
    # axioms may be extended while translating; they have been all translated here
    for a in tr.axioms:
        s.add(a)
    return s


_cache = {}


def entails(facts, goal, timeout=2.0, want_model=False):
    """
    facts, goal: indicator polys. True (proved), False (counter-model), None (unknown)
    """
    c = goal.const()
    if c == 1:
        return True
    key = (frozenset(facts), goal)
    if key in _cache and not want_model:
        return _cache[key]
    t0 = time.time()
    STATS['queries'] += 1
    tr = Tr()
    fs = [tr.formula(f) for f in facts]
    g = tr.formula(goal)
    s = _solver(tr, fs + [z3.Not(g)], timeout)
    r = s.check()
    STATS['time'] += time.time() - t0
    res = True if r == z3.unsat else (False if r == z3.sat else None)
    if res is None:
        _cache.pop(key, None)
    _cache[key] = res
    if want_model:
        return res, (s, tr)
    return res


ONE, ZERO = T.ONE, T.ZERO


def closed_literals(p, out=None, seen=None):
    """The literals without bound variables in p, at any depth"""
    out = set() if out is None else out
    seen = set() if seen is None else seen
    if p in seen:
        return out
    seen.add(p)
    for m, c in p.terms:
        for b in m.binders:
            closed_literals(b, out, seen)
        for a, k in m.factors:
            if a.kind in ('LT', 'EQ') and '#' not in a.key:
                out.add(a)
            for d in T._subs(a.kind, a.data):
                if isinstance(d, T.Poly):
                    closed_literals(d, out, seen)
    return out


def simplify(p, facts, deep=False):
    """p with the literals decided by the facts replaced"""
    for _ in range(4):
        env = {}
        lits = closed_literals(p) if deep else {a for m, c in p.terms if not m.binders for a, k in m.factors if a.kind in ('LT', 'EQ')}
        for a in sorted(lits, key=lambda a: a.key):
            q = T.atom_poly(a)
            if entails(facts, q, 2.0) is True:
                env[a] = ONE
            elif entails(facts, ONE - q, 2.0) is True:
                env[a] = ZERO
        if not env:
            return p
        p = T.subst_atoms(p, env)
    return p


def by_cases(p, facts, depth=8):
    """p = 0 under the facts, splitting the cases of its literals"""
    p = simplify(T.clear(p), facts)
    if p is ZERO:
        return True
    if entails(facts, ZERO, 2.0) is True:
        return True
    if depth == 0:
        return False
    lits = sorted((a for a in {a for m, c in p.terms for a, k in m.factors} if a.kind in ('EQ', 'LT')), key=lambda a: (a.kind, a.key))
    for a in lits:
        q = T.atom_poly(a)
        if a.kind == 'EQ':
            for v in sorted(a.data[0].fv, key=lambda v: (not v.startswith('_x'), v)):
                sp = T._split_linear(a.data[0], v)
                if sp is not None and sp[0] in (1, -1):
                    break
            else:
                continue
            env = {v: T.scale(sp[1], -1 / sp[0])}
            if not by_cases(T.subst(p, env), [T.subst(f, env) for f in facts], depth - 1):
                return False
        elif not by_cases(T.subst_atoms(p, {a: ONE}), facts + [q], depth - 1):
            return False
        return by_cases(T.subst_atoms(p, {a: ZERO}), facts + [ONE - q], depth - 1)
    return False


def sat(facts, timeout=3.0):
    tr = Tr()
    fs = [tr.formula(f) for f in facts]
    s = _solver(tr, fs, timeout)
    r = s.check()
    STATS['queries'] += 1
    return True if r == z3.sat else (False if r == z3.unsat else None)


def cvc5_entails(facts, goal, timeout=10.0):
    """Second back end"""
    c = goal.const()
    if c == 1:
        return True
    tr = Tr()
    fs = [tr.formula(f) for f in facts]
    g = tr.formula(goal)
    s = _solver(tr, fs + [z3.Not(g)], timeout)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    t0 = time.time()
    STATS['cvc5'] += 1
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout * 1000), f.name],
                           capture_output=True, text=True, timeout=timeout + 5)
        out = r.stdout.strip().splitlines()
    except subprocess.TimeoutExpired:
        out = []
    finally:
        os.unlink(f.name)
    STATS['cvc5_time'] += time.time() - t0
    if out and out[0] == 'unsat':
        return True
    if out and out[0] == 'sat':
        return False
    return None


def clear_cache():
    _cache.clear()
