"""
Obligations: collection and discharge.

A contract file calls `P.verify(...)` for every function it specifies.  The
function's source is read from the repository at every run, executed
symbolically with its callees replaced by their own contracts, and every goal
of the postcondition (as well as the side obligations raised on the way: array
definedness, loop invariants, callee preconditions) is discharged for all
inputs by one of the back ends:

- kernel: equality of normal forms in the algebra of finite sums (terms.py)
- z3: real/integer arithmetic with the path facts
- cvc5: the same, when z3 gives up
"""

import re
import time
import traceback

from . import terms as T
from . import smt
from . import pysym as P
from . import models as M
from .terms import ONE, ZERO

TIMEOUT = 8.0


class Failed(Exception):
    pass


def forgotten(goal):
    if isinstance(goal, tuple):
        if goal[0] == 'eq':
            return forgotten(T.to_poly(goal[1]) - T.to_poly(goal[2]))
        return goal[0] in ('any', 'under') and any(forgotten(g) for g in (goal[1] if goal[0] == 'any' else goal[2:]))
    return isinstance(goal, T.Poly) and re.search(r'_any\d', goal.key) is not None


class Obligation(object):
    __slots__ = ('name', 'function', 'status', 'backend', 'time', 'detail')

    def __init__(self, name, function):
        self.name, self.function = name, function
        self.status, self.backend, self.time, self.detail = 'open', None, 0.0, ''

    def as_dict(self):
        return {'name': self.name, 'function': self.function, 'status': self.status,
                'backend': self.backend, 'time_s': round(self.time, 4), 'detail': self.detail[:3000]}


import os

WIDTH = int(os.environ.get("SHORT", "1500"))


def short(p, n=WIDTH):
    s = str(p)
    return s if len(s) <= n else s[:n] + '... (%d characters)' % len(s)


def unfold_goal(g, facts):
    if isinstance(g, T.Poly):
        if 'named' in g.key:
            g = smt.simplify(g, facts, deep=True)
        return P.unfold(g)
    if isinstance(g, (tuple, list)):
        return type(g)([unfold_goal(x, facts) for x in g])
    return g


class Prover(object):

    def __init__(self, repo='/repo', tier='quick', log=None):
        self.repo = repo
        self.tier = tier
        self.obls = []
        self.functions = []       # qualified names under contract
        self.inlined = set()
        self.contracts_used = set()
        self.assumed = set()
        self.unsupported = []     # (function, reason)
        self.sources = None
        self.paths = 0
        self.log = log
        self.only = None

    # -- discharge

    def eq_backend(self, facts, lhs, rhs):
        """Name of the back end proving lhs == rhs, or None"""
        d = lhs - rhs
        if d.is_zero() if hasattr(d, 'is_zero') else d is ZERO:
            return 'kernel'
        e = T.clear(d)
        if e is ZERO:
            return 'kernel'
        pc = ONE
        for f in facts:
            pc = pc * f
        if pc is ZERO:
            return 'kernel'
        if pc * e is ZERO:
            return 'kernel'
        if T.clear(pc * d) is ZERO:
            return 'kernel'
        fs = list(P.gfacts()) + list(facts)
        if 'INV(' in d.key:
            s = T.clear(smt.simplify(d, fs, deep=True))
            if s is ZERO:
                return 'kernel+z3'
        if not T.mentions_complex(d):
            r = self.smt_backend(facts, T.eq0(d))
            if r:
                return r
        if len(d.terms) <= 200 and any(a.kind in ('EQ', 'LT') for m, c in d.terms for a, k in m.factors) and \
           smt.by_cases(d, list(P.gfacts()) + list(facts)):
            return 'kernel+z3'
        return None

    def smt_backend(self, facts, goal):
        fs = list(P.gfacts()) + list(facts)
        if goal.const() == 1:
            return 'kernel'
        r = smt.entails(fs, goal, TIMEOUT)
        if r is True:
            return 'z3'
        if r is None:
            r = smt.cvc5_entails(fs, goal, TIMEOUT)
            if r is True:
                return 'cvc5'
        return None

    def true_backend(self, facts, goal):
        if goal.const() == 1:
            return 'kernel'
        pc = ONE
        for f in facts:
            pc = pc * f
        if pc is ZERO or pc * goal - pc is ZERO:
            return 'kernel'
        return self.smt_backend(facts, goal)

    def goal(self, function, name, facts, goal):
        o = Obligation(name, function)
        t0 = time.time()
        if P.NAMED and not (isinstance(goal, tuple) and goal[0] == 'eq' and T.to_poly(goal[1]) - T.to_poly(goal[2]) is ZERO):
            facts = [P.unfold(f) for f in facts]
            goal = unfold_goal(goal, list(P.gfacts()) + list(facts))
        try:
            if isinstance(goal, tuple) and goal[0] == 'eq':
                lhs, rhs = T.to_poly(goal[1]), T.to_poly(goal[2])
                o.backend = self.eq_backend(facts, lhs, rhs)
                if o.backend is None:
                    o.detail = 'cannot prove\n  code: %s\n  spec: %s\n  difference: %s' % (
                        short(lhs), short(rhs), short(lhs - rhs))
            elif isinstance(goal, tuple) and goal[0] == 'fail':
                o.detail = goal[1]
            elif isinstance(goal, tuple) and goal[0] == 'ok':
                o.backend = 'kernel'
            elif isinstance(goal, tuple) and goal[0] == 'any':
                for g in goal[1]:
                    o.backend = self.goal_backend(facts, g)
                    if o.backend:
                        break
                else:
                    o.detail = 'none of the alternatives holds: %s' % (short(goal[1]),)
            else:
                g = T.to_poly(goal)
                o.backend = self.true_backend(facts, g)
                if o.backend is None:
                    o.detail = 'cannot prove %s' % short(g)
        except T.KernelError as e:
            o.detail = 'kernel: %s' % e
        o.time = time.time() - t0
        if not o.backend and forgotten(goal):
            # not a failure: the loop rule does not tell what was stored there
            self.unsupported.append((function, '%s: content of an array after a loop is not known' % name))
            o.status = 'unknown'
            return o
        o.status = 'discharged' if o.backend else 'failed'
        if not o.backend:
            o.detail += '\n  under: %s' % '; '.join(short(f, int(os.environ.get('SHORT', '300'))) for f in facts)
        self.obls.append(o)
        if self.log:
            self.log(o)
        return o

    def goal_backend(self, facts, g):
        if isinstance(g, tuple) and g[0] == 'eq':
            return self.eq_backend(facts, T.to_poly(g[1]), T.to_poly(g[2]))
        return self.true_backend(facts, T.to_poly(g))

    def defines(self, module, qual):
        """Is there a function or class of this name in the module, or in any of the package?"""
        name = qual.split('.')[-1]
        if not re.match(r'\w+$', name):
            return True
        if self.sources is None:
            d = os.path.join(self.repo, 'atooms', 'postprocessing')
            self.sources = {}
            for f in sorted(os.listdir(d)):
                if f.endswith(('.py', '.f90')):
                    with open(os.path.join(d, f)) as fh:
                        self.sources[f] = fh.read()
        if module is not None and module + '.py' in self.sources:
            texts = [self.sources[module + '.py']]
        else:
            texts = self.sources.values()
        return any(re.search(r'\b(def|class|subroutine|function)\s+%s\b|^\s*%s\s*=' % (name, name), t, re.I | re.M) for t in texts)

    # -- verification of one function

    def verify(self, function, run, post, facts=(), contracts=None, prepare=None, canary=True,
               allow_exc=(), nonneg=(), axioms=None, module_overrides=None, inline_ok=True, naming=False):
        """
        function: qualified name (module.name or module.Class.method)
        run(I): builds the symbolic inputs (satisfying the precondition) and
            calls the function under verification; its outcome is judged by
        post(I, outcome, value): yields (name, goal)
        facts: precondition, indicator polys on global names
        contracts: callee contracts {qualified name: function(I, args)}
        """
        if self.only and function not in self.only:
            return
        if function not in self.functions:
            self.functions.append(function)
        T.NONNEG.clear()
        T.NONNEG.update(nonneg)
        smt.AXIOMS.clear()
        for k, v in (axioms or {}).items():
            smt.AXIOMS[k] = list(v) if isinstance(v, (list, tuple)) else [v]
        P.set_facts(list(facts))
        t0 = time.time()
        I = P.Interp(self.repo)
        I.target = function
        I.naming = naming
        P.NAMED.clear()
        # the progress bar yields the elements of its argument, in order (assumed)
        I.overrides[('progress', 'progress')] = P.Bi('progress', lambda I, a, k: a[0] if a else k['iterable'])
        for k, v in (contracts or {}).items():
            I.contracts[k] = v
        for k, v in (module_overrides or {}).items():
            I.overrides[k] = v
        try:
            for q in (contracts or {}):
                if not self.defines(q.split('.')[0], q):
                    raise P.Unsupported('%s, assumed by its contract, is not there' % q)
            if not self.defines(None, function):
                raise P.Unsupported('%s is not there' % function)
            if prepare:
                prepare(I)
            if facts and smt.sat(list(facts)) is False:
                self.fail(function, 'vacuity', 'precondition is not satisfiable')
                return
            paths = I.explore(lambda: run(I))
            if not paths:
                self.fail(function, 'vacuity', 'no feasible path')
                return
            n0 = len(self.obls)
            nok = 0
            for pc, (kind, value), heap, pf in paths:
                self.paths += 1
                I.heap = heap
                pf = list(pf)
                I.facts = pf
                if kind == 'exc':
                    if value.name in allow_exc or '*' in allow_exc:
                        for name, goal in (post(I, 'exc', value) or ()):
                            self.goal(function, name, pf, goal)
                        continue
                    self.goal(function, 'no %s' % value.name, pf, ZERO)
                    self.obls[-1].detail = 'raises %s: %s' % (value.name, value.msg) + self.obls[-1].detail
                    continue
                nok += 1
                goals = I.explore(lambda: list(post(I, 'ok', value) or ()))
                for gpc, (gk, gl), gheap, gf in goals:
                    if gk == 'exc':
                        self.fail(function, 'post', 'specification raises %s %s' % (gl.name, gl.msg))
                        continue
                    for name, goal in gl:
                        extra = []
                        if isinstance(goal, tuple) and goal[0] == 'under':
                            extra, goal = list(goal[1]), goal[2]
                        o = self.goal(function, name, pf + list(gf) + extra, goal)
                        if canary and o.backend and isinstance(goal, tuple) and goal[0] == 'eq':
                            canary = False
                            if self.eq_backend(pf + list(gf) + extra, T.to_poly(goal[1]) + 1, T.to_poly(goal[2])) is not None:
                                if self.true_backend(pf + list(gf), ZERO) is None:
                                    self.fail(function, 'canary', 'a wrong postcondition was accepted for ' + name)
                                else:
                                    canary = True
                I.facts = []
            for name, f, goal in I.obls:
                self.goal(function, name, list(f), goal)
            if len(self.obls) == n0:
                self.fail(function, 'vacuity', 'no obligation generated')
        except P.Unsupported as e:
            self.unsupported.append((function, str(e)))
            if self.log:
                self.log('UNSUPPORTED %s: %s' % (function, e))
                self.log(traceback.format_exc())
        except (RecursionError, MemoryError) as e:
            self.unsupported.append((function, type(e).__name__))
        except (T.KernelError, AttributeError, TypeError, KeyError, IndexError, AssertionError, ValueError, NotImplementedError) as e:
            # a shape of code the engine does not expect
            self.unsupported.append((function, 'engine: %s: %s' % (type(e).__name__, e)))
            if self.log:
                self.log('ENGINE %s: %s' % (function, traceback.format_exc()))
        finally:
            self.inlined |= I.inlined
            self.contracts_used |= I.used_contracts
            self.assumed |= set(I.assumed)
            P.set_facts([])

    def fail(self, function, name, detail):
        o = Obligation(name, function)
        o.status, o.detail = 'failed', detail
        self.obls.append(o)
        if self.log:
            self.log(o)

    # -- a lemma over contracts (no code)

    def lemma(self, name, goal, facts=(), function='(lemma)'):
        P.set_facts([])
        return self.goal(function, name, list(facts), goal)

    def summary(self):
        ok = [o for o in self.obls if o.status == 'discharged']
        by = {}
        for o in ok:
            by[o.backend] = by.get(o.backend, 0) + 1
        return {'functions': self.functions, 'inlined': sorted(self.inlined - set(self.functions)),
                'contracts_used': sorted(self.contracts_used), 'obligations': len(self.obls),
                'discharged': len(ok), 'by_backend': by,
                'solver_time_s': round(smt.STATS['time'] + smt.STATS['cvc5_time'], 2),
                'queries': smt.STATS['queries'] + smt.STATS['cvc5'],
                'failed': [o.as_dict() for o in self.obls if o.status != 'discharged'],
                'unsupported': self.unsupported, 'paths': self.paths,
                'assumed': sorted(self.assumed), 'models': sorted(M.USED) if hasattr(M, 'USED') else []}
