"""
Symbolic executor for the Python subset used by the package.

The text executed is the AST of the functions in /repo, parsed on every run.
Numbers are terms (terms.Poly); floats are reals, integers are unbounded.
Loops over sequences of symbolic length are executed once for a generic
iteration, from a state in which every location modified by the body is
arbitrary, and the closed form of each location after k iterations is solved
for by induction (accumulation, last value, append, dictionary accumulation,
element-wise writes, first exit). Calls to functions under contract are
replaced by the contract; other calls are inlined.
"""

import ast
import os
import re
from fractions import Fraction

from . import terms as T
from . import smt
from .terms import ZERO, ONE, cst, var, app, Poly

UNROLL = 6
PARTIAL = object()


class Unsupported(Exception):
    pass


class PyExc(Exception):
    def __init__(self, name, msg=''):
        Exception.__init__(self, name, msg)
        self.name, self.msg = name, msg


class ReturnEx(Exception):
    def __init__(self, value):
        self.value = value


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class Infeasible(Exception):
    pass


# ------------------------------------------------------------------ values

class Val(object):
    __slots__ = ()


class N(Val):
    """Number"""
    __slots__ = ('p', 'ty')

    def __init__(self, p, ty=None):
        self.p = T.to_poly(p)
        if ty is None:
            ty = 'bool' if isinstance(p, bool) else 'int' if isinstance(p, int) else \
                'complex' if isinstance(p, complex) else \
                'int' if isinstance(p, Poly) and p.is_int else 'float'
        self.ty = ty

    def __repr__(self):
        return 'N(%s:%s)' % (self.p, self.ty)


class Tup(Val):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return 'Tup%r' % (self.items,)


class Ref(Val):
    __slots__ = ('oid', 'args')

    def __init__(self, oid, args=()):
        self.oid, self.args = oid, tuple(args)

    def __repr__(self):
        return 'Ref(%s,%s)' % (self.oid, self.args)


class Opq(Val):
    """Opaque immutable value, identified by a term"""
    __slots__ = ('p', 'kind', 'item')

    def __init__(self, p, kind='obj', item=None):
        self.p, self.kind, self.item = p, kind, item

    def __repr__(self):
        return 'Opq(%s:%s)' % (self.p, self.kind)


class Sl(Val):
    __slots__ = ('lo', 'hi', 'st')

    def __init__(self, lo, hi, st):
        self.lo, self.hi, self.st = lo, hi, st


class Seq(Val):
    """Immutable sequence (range, zip, generator output, ...)"""
    __slots__ = ('segs', 'origin')

    def __init__(self, segs, origin=None):
        self.segs = list(segs)
        self.origin = origin


class Clo(Val):
    __slots__ = ('node', 'frame', 'mod', 'name', 'defaults', 'kwdefaults', 'qual', 'cls')

    def __init__(self, node, frame, mod, name, defaults, kwdefaults, qual, cls=None):
        self.node, self.frame, self.mod, self.name = node, frame, mod, name
        self.defaults, self.kwdefaults, self.qual, self.cls = defaults, kwdefaults, qual, cls

    def __repr__(self):
        return 'Clo(%s)' % self.qual


class Bound(Val):
    __slots__ = ('fn', 'obj')

    def __init__(self, fn, obj):
        self.fn, self.obj = fn, obj


class Bi(Val):
    """Model of a library function: fn(I, args, kwargs)"""
    __slots__ = ('name', 'fn')

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return 'Bi(%s)' % self.name


class Mod(Val):
    __slots__ = ('name', 'get')

    def __init__(self, name, get):
        self.name, self.get = name, get


class Cls(Val):
    __slots__ = ('name', 'node', 'mod', 'qual')

    def __init__(self, name, node, mod):
        self.name, self.node, self.mod = name, node, mod
        self.qual = mod.name + '.' + name

    def __repr__(self):
        return 'Cls(%s)' % self.qual


class Ty(Val):
    """Builtin types and exceptions"""
    __slots__ = ('name', 'fn')

    def __init__(self, name, fn=None):
        self.name, self.fn = name, fn

    def __repr__(self):
        return 'Ty(%s)' % self.name


class Sym(Val):
    """Model object: attributes given by python callbacks attr(I) -> value"""
    __slots__ = ('name', 'attrs', 'key', 'ops')

    def __init__(self, name, attrs, key=None, ops=None):
        self.name, self.attrs, self.key, self.ops = name, attrs, key, ops or {}

    def __repr__(self):
        return 'Sym(%s,%s)' % (self.name, self.key)


class Poison(Val):
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why


class Seg(object):
    """value for all binders such that cond, in lexicographic order"""
    __slots__ = ('binders', 'cond', 'value')

    def __init__(self, binders, cond, value):
        self.binders, self.cond, self.value = tuple(binders), cond, value

    def __repr__(self):
        return 'Seg(%s|%s|%s)' % (list(self.binders), self.cond, self.value)


class Hav(object):
    """Unknown initial part of a list modified in a loop"""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class KV(Val):
    """Entry of a dictionary: key, value, mode in acc, set, first"""
    __slots__ = ('key', 'value', 'mode')

    def __init__(self, key, value, mode):
        self.key, self.value, self.mode = key, value, mode


# ------------------------------------------------------------------ heap

class St(object):
    __slots__ = ('kind', 'params', 'd')

    def __init__(self, kind, params, **d):
        self.kind, self.params, self.d = kind, tuple(params), d

    def upd(self, **d):
        n = dict(self.d)
        n.update(d)
        return St(self.kind, self.params, **n)

    def __getattr__(self, k):
        try:
            return self.d[k]
        except KeyError:
            raise AttributeError(k)

    def __repr__(self):
        return '%s%s%s' % (self.kind, self.params, self.d)


def vsubst(v, env):
    """Substitute variables (name -> Poly) in a value"""
    if not env:
        return v
    if isinstance(v, N):
        q = T.subst(v.p, env)
        return v if q is v.p else N(q, v.ty)
    if isinstance(v, Tup):
        return Tup([vsubst(x, env) for x in v.items])
    if isinstance(v, Ref):
        return Ref(v.oid, [T.subst(a, env) for a in v.args])
    if isinstance(v, Opq):
        it = v.item
        return Opq(T.subst(v.p, env), v.kind, it)
    if isinstance(v, Seq):
        return Seq([ssubst(s, env) for s in v.segs], v.origin)
    if isinstance(v, KV):
        return KV(vsubst(v.key, env), vsubst(v.value, env), v.mode)
    if isinstance(v, Sym):
        if v.key is None:
            return v
        k2 = T.subst(v.key, env)
        if k2 is v.key:
            return v
        return v.ops['rekey'](k2)
    if isinstance(v, Bound):
        return Bound(v.fn, vsubst(v.obj, env))
    if isinstance(v, Sl):
        return Sl(vsubst(v.lo, env), vsubst(v.hi, env), vsubst(v.st, env))
    return v


def vsubst_atoms(v, env):
    """Replace atoms in a number (or tuple of numbers)"""
    if isinstance(v, N):
        return N(T.subst_atoms(v.p, env), v.ty)
    if isinstance(v, Tup):
        return Tup([vsubst_atoms(x, env) for x in v.items])
    raise Unsupported('atoms of %r' % (v,))


def ssubst(s, env):
    if isinstance(s, Hav):
        return s
    e = {k: x for k, x in env.items() if k not in [n for n, _ in s.binders]}
    bs = []
    for n, b in s.binders:
        bs.append((n, T.subst(b, e)))
    return Seg(bs, T.subst(s.cond, e), vsubst(s.value, e))


def seg_fresh(s):
    """Rename the binders of a segment to fresh names"""
    env = {}
    bs = []
    for n, b in s.binders:
        f = T.fresh_name('_v')
        bs.append((f, T.subst(b, env)))
        env[n] = var(f, 'int')
    return Seg(bs, T.subst(s.cond, env), vsubst(s.value, env))


def stsubst(st, env):
    if not env:
        return st
    d = {}
    if st.kind in ('list', 'set', 'dict'):
        d = dict(st.d)
        d['segs'] = [ssubst(s, env) for s in st.segs]
        return St(st.kind, (), **d)
    if st.kind == 'arr':
        d = dict(st.d)
        e = {k: x for k, x in env.items() if k not in st.names}
        d['shape'] = tuple(T.subst(x, env) for x in st.shape)
        d['body'] = T.subst(st.body, e)
        if st.d.get('D') is not None:
            d['D'] = T.subst(st.D, e)
        return St('arr', (), **d)
    if st.kind == 'ins':
        return St('ins', (), cls=st.cls, attrs={k: vsubst(v, env) for k, v in st.attrs.items()})
    raise Unsupported('family of %s' % st.kind)


def vfree(v, out):
    if isinstance(v, (N, Opq)):
        out |= v.p.fv
    elif isinstance(v, Tup):
        for x in v.items:
            vfree(x, out)
    elif isinstance(v, Ref):
        for x in v.args:
            out |= x.fv
    elif isinstance(v, KV):
        vfree(v.key, out)
        vfree(v.value, out)
    elif isinstance(v, Seq):
        for s in v.segs:
            for _, b in s.binders:
                out |= b.fv
            out |= s.cond.fv
            vfree(s.value, out)
    elif isinstance(v, Sym) and v.key is not None:
        out |= v.key.fv
    return out


def veq_syn(a, b):
    """Syntactic equality of values"""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, N):
        return a.p is b.p
    if isinstance(a, Opq):
        return a.p is b.p
    if isinstance(a, Tup):
        return len(a.items) == len(b.items) and all(veq_syn(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, Ref):
        return a.oid == b.oid and len(a.args) == len(b.args) and all(x is y for x, y in zip(a.args, b.args))
    if isinstance(a, (str, bool)) or a is None:
        return a == b
    if isinstance(a, Sym):
        return a.name == b.name and a.key is b.key and a.key is not None
    if isinstance(a, Clo):
        return a.node is b.node and a.frame == b.frame
    if isinstance(a, Bound):
        return veq_syn(a.fn, b.fn) and veq_syn(a.obj, b.obj)
    if isinstance(a, Cls):
        return a.qual == b.qual
    if isinstance(a, KV):
        return a.mode == b.mode and veq_syn(a.key, b.key) and veq_syn(a.value, b.value)
    return False


def seg_eq(a, b):
    if a is b:
        return True
    if isinstance(a, Hav) or isinstance(b, Hav):
        return isinstance(a, Hav) and isinstance(b, Hav) and a.name == b.name
    return a.binders == b.binders and a.cond is b.cond and veq_syn(a.value, b.value)


TYORD = {'bool': 0, 'int': 1, 'float': 2, 'complex': 3}


def jty(a, b):
    return a if TYORD[a] >= TYORD[b] else b


class Ctx(T.Context):
    """Facts valid for the whole verification of a function"""

    def __init__(self):
        self.facts = []
        self.memo = {}

    def entails_ge0(self, p):
        if T.is_count(p):
            return True
        r = self.memo.get(p)
        if r is None:
            # Only global facts: any free variable must be one of those
            r = False
            if all(not n.startswith('_') for n in p.fv) and '#' not in p.key:
                T.ctx[0] = _NOCTX
                try:
                    r = smt.entails(self.facts, T.ge0(p), 1.0) is True
                finally:
                    T.ctx[0] = self
            self.memo[p] = r
        return r

    def decide(self, a):
        r = self.memo.get(a)
        if r is None:
            r = 0
            if all(not n.startswith('_') for n in a.fv) and '#' not in a.key and a.kind in ('LT', 'EQ') and self.facts:
                T.ctx[0] = _NOCTX
                try:
                    p = T.atom_poly(a)
                    if smt.entails(self.facts, p, 1.0) is True:
                        r = True
                    elif smt.entails(self.facts, ONE - p, 1.0) is True:
                        r = False
                finally:
                    T.ctx[0] = self
            self.memo[a] = r
        return None if r == 0 and r is not False else r


class _No(T.Context):
    def entails_ge0(self, p):
        return False

    def decide(self, a):
        return None


_NOCTX = _No()


def set_facts(facts):
    """Install the global facts (indicator polys), clearing the caches that depend on them"""
    T.clear_caches()
    T._atom_cache.clear()
    smt.clear_cache()
    c = Ctx()
    T.ctx[0] = _NOCTX
    c.facts = list(facts)
    T.ctx[0] = c
    return c


def gfacts():
    return list(getattr(T.ctx[0], 'facts', ()))


def sort_of(ty):
    return 'int' if ty in ('int', 'bool') else 'cplx' if ty == 'complex' else 'real'


def occurs(h, p):
    """Does the function or variable h, or its conjugate, occur in p?"""
    return h in p.fv or h + '~' in p.fv or h + '(' in p.key or h + '~(' in p.key


def boolean(v):
    return N(cst(int(v)), 'bool') if isinstance(v, bool) else v


def noex(l, i):
    """[no j<i satisfies l(j)]"""
    i = T.to_poly(i)
    if l.body is ZERO:
        return ONE
    if i.const() is not None and i.const() <= 0:
        return ONE
    # the index is in its range
    nm = T.fresh_name('_v')
    v = var(nm, 'int')
    b = l(v)
    env = {}
    for f, x in ((T.lt0(v), ZERO), (T.lt0(v - i), ONE)):
        for m, c in f.terms:
            if len(f.terms) == 1 and len(m.factors) == 1 and m.factors[0][0].key in b.key:
                env[m.factors[0][0]] = x
    if env:
        l = T.lam(nm, T.subst_atoms(b, env))
        if l.body is ZERO:
            return ONE
        b = T.subst_atoms(b, env)
    # factors 0 or 1 that do not depend on the index
    common = None
    for m, _ in b.terms:
        fs = {a: e for a, e in m.factors if e == 1 and a.kind in T.LITS and nm not in a.fv} if not m.binders else {}
        common = fs if common is None else {a: e for a, e in common.items() if a in fs}
    if common:
        g = ONE
        for a in common:
            g = g * T.atom_poly(a)
        rest = T.subst_atoms(b, {a: ONE for a in common})
        return ONE - g + g * noex(T.lam(nm, rest), i)
    return T.boolatom('NOEX', l, i)


# ------------------------------------------------------------------ modules

class Module(object):
    def __init__(self, interp, name, path):
        self.interp, self.name, self.path = interp, name, path
        with open(path) as f:
            self.src = f.read()
        self.tree = ast.parse(self.src)
        self.defs = {}
        self.cache = {}
        for st in self.tree.body:
            self._def(st)

    def _def(self, st):
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            self.defs[st.name] = st
        elif isinstance(st, (ast.Import, ast.ImportFrom)):
            for a in st.names:
                self.defs[(a.asname or a.name).split('.')[0]] = (st, a)
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    self.defs[t.id] = st
        elif isinstance(st, ast.Try):
            # try: preferred definition; on ImportError: fallback. Take the last of body
            # unless the imported module is not available to the package
            ok = True
            for s in st.body:
                if isinstance(s, (ast.Import, ast.ImportFrom)):
                    m = getattr(s, 'module', None) or s.names[0].name
                    if m.startswith('medepy') or m == '_commit':
                        ok = False
            body = st.body if ok else [s for h in st.handlers for s in h.body]
            for s in body:
                self._def(s)
        elif isinstance(st, ast.If):
            pass

    def get(self, name):
        ov = self.interp.overrides.get((self.name, name))
        if ov is not None:
            return ov
        if name in self.cache:
            v = self.cache[name]
            if not (isinstance(v, Ref) and v.oid not in self.interp.heap):
                return v
        if name not in self.defs:
            raise KeyError(name)
        d = self.defs[name]
        I = self.interp
        if isinstance(d, ast.FunctionDef):
            v = I.make_fn(d, None, self, self.name + '.' + name)
        elif isinstance(d, ast.ClassDef):
            v = Cls(name, d, self)
        elif isinstance(d, tuple):
            v = I.resolve_import(d[0], d[1], self)
        else:
            v = I.eval(d.value, I.module_frame(self))
        self.cache[name] = v
        return v


# ------------------------------------------------------------------ interpreter

class Interp(object):

    def __init__(self, repo='/repo', models=None):
        self.repo = repo
        self.pkg = os.path.join(repo, 'atooms', 'postprocessing')
        self.heap = {}
        self.facts = []
        self.modules = {}
        self.overrides = {}
        self.contracts = {}      # qualified name -> function(I, bound args dict) -> value
        self.pre = None
        self.inlined = set()
        self.used_contracts = set()
        self.unwritten = {}           # lists being rewritten: name of the arbitrary value -> (loop variable, binder, value before)
        self.within_target = False    # a recursive call obeys the contract of the function under verification
        self.loopvars = []       # names of binders of enclosing generic loops (params of families)
        self.obls = []
        self.noid = [0]
        self.depth = 0
        self.steps = 0
        self.max_steps = 400000
        self.elemspec = None     # element specification of an array under construction
        self.target = None
        self.naming = False
        self._mframes = {}
        self.genstack = []
        self.assumed = set()
        self.paths = 0
        from . import models as M
        self.M = M

    # -- modules

    def module(self, name):
        if name not in self.modules:
            p = os.path.join(self.pkg, name + '.py')
            if name == '__init__':
                p = os.path.join(self.pkg, '__init__.py')
            if not os.path.exists(p):
                raise Unsupported('module %s' % name)
            self.modules[name] = Module(self, name, p)
        return self.modules[name]

    def module_frame(self, mod):
        if mod.name not in self._mframes:
            self._mframes[mod.name] = ('M', mod)
        return self._mframes[mod.name]

    def resolve_import(self, st, a, mod):
        if isinstance(st, ast.Import):
            nm = a.name if a.asname else a.name.split('.')[0]
            return self.M.module(self, nm)
        m = st.module or ''
        if st.level:
            if m == '':
                # from . import core / api
                return self.pkg_module(a.name)
            return self.module(m).get(a.name)
        if m == 'atooms.postprocessing' or m.startswith('atooms.postprocessing.'):
            sub = m[len('atooms.postprocessing.'):]
            if m == 'atooms.postprocessing':
                return self.pkg_attr(a.name)
            if os.path.exists(os.path.join(self.pkg, sub + '.py')):
                return self.module(sub).get(a.name)
        ov = self.overrides.get((m, a.name))
        if ov is not None:
            return ov
        return self.M.library(self, m, a.name)

    def pkg_module(self, name):
        if os.path.exists(os.path.join(self.pkg, name + '.py')):
            m = self.module(name)
            return Mod(name, lambda k: m.get(k))
        return self.pkg_attr(name)

    def pkg_attr(self, name):
        """Name exported by the package"""
        if os.path.exists(os.path.join(self.pkg, name + '.py')):
            return self.pkg_module(name)
        init = self.module('__init__')
        if ('__init__', name) in self.overrides:
            return self.overrides[('__init__', name)]
        for st in init.tree.body:
            if isinstance(st, ast.ImportFrom) and st.level:
                names = [x.asname or x.name for x in st.names]
                if name in names:
                    return self.module(st.module).get([x.name for x in st.names if (x.asname or x.name) == name][0])
        for st in reversed(init.tree.body):
            if isinstance(st, ast.ImportFrom) and st.level and st.names[0].name == '*':
                m = self.module(st.module)
                if name in m.defs:
                    return m.get(name)
        raise Unsupported('package attribute %s' % name)

    def make_fn(self, node, frame, mod, qual, cls=None):
        fr = frame if frame is not None else self.module_frame(mod)
        defaults = [self.eval(d, fr) for d in node.args.defaults]
        kwd = [self.eval(d, fr) if d is not None else None for d in node.args.kw_defaults]
        return Clo(node, frame, mod, getattr(node, 'name', '<lambda>'), defaults, kwd, qual, cls)

    # -- classes

    def mro(self, cls):
        out = [cls]
        for b in cls.node.bases:
            try:
                bv = self.eval(b, self.module_frame(cls.mod))
            except Unsupported:
                continue
            if isinstance(bv, Cls):
                for c in self.mro(bv):
                    if c not in out:
                        out.append(c)
        return out

    def class_attr(self, cls, name, after=None):
        """(definition, class); definition is an AST node"""
        mro = self.mro(cls)
        if after is not None:
            quals = [c.qual for c in mro]
            mro = mro[quals.index(after.qual) + 1:] if after.qual in quals else mro[1:]
        for c in mro:
            for st in reversed(c.node.body):
                if isinstance(st, ast.FunctionDef) and st.name == name:
                    return st, c
                if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in st.targets):
                    return st, c
        return None, None

    def class_value(self, cls, name, after=None):
        st, c = self.class_attr(cls, name, after)
        if st is None:
            return None, None
        if isinstance(st, ast.FunctionDef):
            return self.make_fn(st, None, c.mod, c.qual + '.' + name, c), c
        return self.eval(st.value, self.module_frame(c.mod)), c

    def instantiate(self, cls, args, kw):
        qual = cls.qual
        if qual in self.contracts:
            self.used_contracts.add(qual)
            return self.contracts[qual](self, args, kw)
        obj = self.alloc(St('ins', (), cls=cls, attrs={}))
        f, c = self.class_value(cls, '__init__')
        if f is not None:
            self.call(f, [obj] + list(args), kw)
        return obj

    # -- heap

    def new_oid(self):
        self.noid[0] += 1
        return self.noid[0]

    def alloc(self, st):
        oid = self.new_oid()
        names = tuple(n for n, _ in self.loopvars)
        if names:
            st = St(st.kind, names, **st.d)
        self.heap[oid] = st
        return Ref(oid, [var(n, 'int') for n in names])

    def state(self, ref):
        st = self.heap[ref.oid]
        if not st.params:
            return st
        if st.kind == 'list' and (st.d.get('over') or st.d.get('only') or st.d.get('upto')):
            st = self.rewritten(ref, st)
            if not st.params:
                return st
        env = {}
        for p, a in zip(st.params, ref.args):
            if a is not var(p, 'int'):
                env[p] = a
        if not env:
            return St(st.kind, (), **st.d)
        return stsubst(st, env)

    def rewritten(self, ref, st):
        """Member of a family of lists, one or all of which have been rewritten"""
        over, only, upto = [st.d.get(x) for x in ('over', 'only', 'upto')]
        plain = St('list', st.params, segs=st.segs)
        if over is not None:
            if len(ref.args) == len(over['args']) and all(a is b for a, b in zip(ref.args, over['args'])):
                return St('list', (), segs=over['segs'])
            raise Unsupported('another member of a family of lists being rewritten')
        if only is not None:
            if not (len(ref.args) == len(only) and all(a is var(x, 'int') for a, x in zip(ref.args, only))):
                raise Unsupported('another member of a family of lists being rewritten')
            return plain
        ks, ns, segs = upto
        for a, n in zip(ref.args, ns):
            if self.known(T.ge0(a) * T.lt0(a - n)) is not True:
                raise Unsupported('member of a family of lists, possibly rewritten')
        return St('list', (), segs=[ssubst(x, dict(zip(ks, ref.args))) for x in segs])

    def at_self(self, ref):
        st = self.heap[ref.oid]
        return all(a is var(p, 'int') for p, a in zip(st.params, ref.args))

    def guard_of(self, ref):
        st = self.heap[ref.oid]
        g = ONE
        env = {}
        for p, a in zip(st.params, ref.args):
            g = g * T.eq0(var(p, 'int') - a)
        return g

    def to_params(self, ref, p):
        """p in terms of the parameters of the family, where they are those of the member ref"""
        env = {}
        for q, a in zip(self.heap[ref.oid].params, ref.args):
            nm = [x for x in a.fv if a is var(x, 'int')]
            if nm:
                env[nm[0]] = var(q, 'int')
        return T.subst(p, env)

    def put(self, ref, **d):
        """Replace parts of the state of the (generic instance of an) object"""
        st = self.heap[ref.oid]
        if not self.at_self(ref):
            raise Unsupported('write to a specific member of a family of %s' % st.kind)
        self.heap[ref.oid] = st.upd(**d)

    # -- decisions

    def known(self, p, timeout=2.0):
        """True, False or None"""
        c = p.const()
        if c is not None:
            return c == 1
        f = [x for x in self.facts]
        g = T.ctx[0].facts if isinstance(T.ctx[0], Ctx) else []
        # quick syntactic
        if p in f:
            return True
        if ONE - p in f:
            return False
        fs = g + f
        if smt.entails(fs, p, timeout) is True:
            return True
        if smt.entails(fs, ONE - p, timeout) is True:
            return False
        return None

    def choose(self, p):
        k = self.known(p)
        if k is not None:
            return k
        if self.pre is None:
            raise Unsupported('fork outside exploration: %s' % p)
        ex = self.pre
        if ex['pos'] < len(ex['prefix']):
            d = ex['prefix'][ex['pos']]
        else:
            d = True
            ex['work'].append(ex['prefix'][:ex['pos']] + [False])
            ex['prefix'] = ex['prefix'][:ex['pos']] + [True]
        ex['pos'] += 1
        self.facts.append(p if d else ONE - p)
        return d

    def explore(self, thunk):
        """All the paths of thunk: list of (condition poly, outcome, heap)"""
        h0, f0, pre0 = self.heap, self.facts, self.pre
        work = [[]]
        res = []
        while work:
            prefix = work.pop()
            self.heap = dict(h0)
            self.facts = list(f0)
            self.pre = {'prefix': list(prefix), 'pos': 0, 'work': work}
            try:
                v = thunk()
                out = ('ok', v)
            except ReturnEx as e:
                out = ('return', e.value)
            except BreakEx:
                out = ('break', None)
            except ContinueEx:
                out = ('ok', None)
            except PyExc as e:
                out = ('exc', e)
            except Infeasible:
                continue
            self.paths += 1
            if self.paths > 20000:
                raise Unsupported('too many paths')
            pc = ONE
            for f in self.facts[len(f0):]:
                pc = pc * f
            res.append((pc, out, self.heap, self.facts[len(f0):]))
        self.heap, self.facts, self.pre = h0, f0, pre0
        return res

    merging = False     # join the branches after each statement and call (otherwise they go on separately)

    def joined(self, thunk):
        """Run thunk, joining its paths: (done, value). Not done when the paths cannot be joined"""
        h0, f0 = self.heap, self.facts
        nobl = len(self.obls)
        res = self.explore(thunk)
        if not res:
            raise Infeasible()
        kinds = {out[0] for _, out, _, _ in res}
        if len(res) > 1 and kinds not in ({'ok'}, {'return'}):
            del self.obls[nobl:]
            return False, None
        if len(res) == 1:
            pc, out, h, fs = res[0]
            self.heap = h
            self.facts = f0 + [f for f in fs if not any(f is g for g in f0)]
            if out[0] == 'exc':
                raise out[1]
            if out[0] == 'return':
                raise ReturnEx(out[1])
            if out[0] == 'break':
                raise BreakEx()
            return True, out[1]
        try:
            heap = dict(h0)
            for _, _, h, _ in res:
                for k, v in h.items():
                    if k not in heap:
                        heap[k] = v
            self.heap = heap
            locs = []
            for _, _, h, _ in res:
                locs += [x for x in self.diff(h0, h) if x not in locs]
            for loc in locs:
                vals = [(pc, self.slot(h, loc)) for pc, _, h, _ in res]
                if isinstance(vals[0][1], St):
                    heap[loc[0]] = self.join_states(h0[loc[0]], vals)
                elif any(v is PARTIAL or isinstance(v, Poison) for _, v in vals):
                    self.set_slot(heap, loc, Poison('assigned in some branches only: %s' % (loc[1],)))
                else:
                    self.set_slot(heap, loc, self.merge(vals))
            v = self.merge([(pc, out[1]) for pc, out, _, _ in res])
        except Unsupported:
            self.heap, self.facts = h0, f0
            del self.obls[nobl:]
            return False, None
        if kinds == {'return'}:
            raise ReturnEx(v)
        return True, v

    def join_states(self, st0, vals):
        sts = [v for _, v in vals]
        if any(s.kind != sts[0].kind for s in sts):
            raise Unsupported('states joined')
        if sts[0].kind == 'arr':
            names = sts[0].names
            return sts[0].upd(body=T.addn([c * T.subst(s.body, {a: var(b, 'int') for a, b in zip(s.names, names)}) for c, s in vals]))
        if sts[0].kind not in ('list', 'dict') or any(s.d.get(x) for s in sts for x in ('over', 'only', 'upto')):
            raise Unsupported('states joined')
        pre = st0.segs
        if all(len(s.segs) >= len(pre) and all(seg_eq(a, b) for a, b in zip(pre, s.segs)) for s in sts):
            return st0.upd(segs=list(pre) + [Seg(g.binders, c * g.cond, g.value) for c, s in vals for g in s.segs[len(pre):]])
        if sts[0].kind == 'list' and all(len(s.segs) == len(pre) for s in sts) and \
           all(isinstance(g, Seg) and not g.binders and g.cond is ONE for s in sts for g in s.segs):
            return st0.upd(segs=[Seg((), ONE, self.merge([(c, s.segs[k].value) for c, s in vals])) for k in range(len(pre))])
        raise Unsupported('states joined')

    def pure(self, thunk):
        """Evaluate thunk for its value only, merging its paths (no side effects kept)"""
        res = self.explore(thunk)
        vals = []
        heap = dict(self.heap)
        for pc, out, h, _ in res:
            if out[0] == 'exc':
                raise Unsupported('exception %s in %s' % (out[1].name, 'pure evaluation'))
            for k, v in h.items():
                if k not in heap:
                    heap[k] = v
            vals.append((pc, out[1]))
        self.heap = heap
        return self.merge(vals)

    def merge(self, vals):
        """vals: list of (cond, value), exhaustive and exclusive"""
        v0 = vals[0][1]
        if all(veq_syn(v0, v) for _, v in vals):
            return v0
        if all(isinstance(v, N) for _, v in vals):
            ty = 'bool'
            for _, v in vals:
                ty = jty(ty, v.ty)
            return N(T.addn([c * v.p for c, v in vals]), ty)
        if all(isinstance(v, Tup) and len(v.items) == len(v0.items) for _, v in vals if isinstance(v0, Tup)) and isinstance(v0, Tup):
            return Tup([self.merge([(c, v.items[k]) for c, v in vals]) for k in range(len(v0.items))])
        if all(isinstance(v, Ref) for _, v in vals):
            if all(v.oid == v0.oid for _, v in vals):
                return Ref(v0.oid, [T.addn([c * v.args[k] for c, v in vals]) for k in range(len(v0.args))])
            sts = [self.state(v) for _, v in vals]
            if all(s.kind == 'arr' and len(s.shape) == len(sts[0].shape) for s in sts) and \
               all(all(x is y for x, y in zip(s.shape, sts[0].shape)) for s in sts):
                names = [T.fresh_name('_m') for _ in sts[0].shape]
                body = T.addn([c * T.subst(s.body, {n: var(m, 'int') for n, m in zip(s.names, names)}) for (c, _), s in zip(vals, sts)])
                return self.arr(sts[0].shape, names, body, sts[0].dtype)
            if all(s.kind == 'list' and len(s.segs) == len(sts[0].segs) and all(isinstance(g, Seg) and not g.binders and g.cond is ONE for g in s.segs) for s in sts):
                return self.new_list([Seg((), ONE, self.merge([(c, s.segs[k].value) for (c, _), s in zip(vals, sts)])) for k in range(len(sts[0].segs))])
        if all(isinstance(v, Opq) and v.kind == v0.kind for _, v in vals if isinstance(v0, Opq)) and isinstance(v0, Opq):
            return Opq(T.addn([c * v.p for c, v in vals]), v0.kind, v0.item)
        if isinstance(v0, Sym) and 'rekey' in v0.ops and all(isinstance(v, Sym) and v.name == v0.name and v.key is not None for _, v in vals):
            return v0.ops['rekey'](T.addn([c * v.key for c, v in vals]))
        raise Unsupported('merge of %r' % ([v for _, v in vals],))

    # -- object builders

    def new_list(self, segs):
        return self.alloc(St('list', (), segs=list(segs)))

    def list_of(self, values):
        return self.new_list([Seg((), ONE, v) for v in values])

    def list_fn(self, n, fn):
        """List of length n with element fn(k poly)"""
        b = T.fresh_name('_v')
        n = T.to_poly(n)
        self.loopvars.append((b, n))    # objects made by fn belong to a family
        try:
            v = fn(var(b, 'int'))
        finally:
            self.loopvars.pop()
        return self.new_list([Seg([(b, n)], ONE, v)])

    def arr(self, shape, names, body, dtype):
        return self.alloc(St('arr', (), shape=tuple(shape), names=tuple(names), body=body, dtype=dtype))

    def arr_fn(self, shape, fn, dtype='float'):
        names = [T.fresh_name('_x') for _ in shape]
        return self.arr([T.to_poly(s) for s in shape], names, fn(*[var(n, 'int') for n in names]), dtype)

    def at(self, ref, *idx):
        """Element of an array (poly)"""
        st = self.state(ref)
        return T.subst(st.body, dict(zip(st.names, [T.to_poly(i) for i in idx])))

    def is_arr(self, v):
        return isinstance(v, Ref) and self.heap[v.oid].kind == 'arr'

    def is_list(self, v):
        return isinstance(v, Ref) and self.heap[v.oid].kind == 'list'

    def kind(self, v):
        return self.heap[v.oid].kind if isinstance(v, Ref) else None

    # -- sequences

    def seq(self, v):
        """Any iterable -> list of Seg"""
        if isinstance(v, Seq):
            return v.segs
        if isinstance(v, Tup):
            return [Seg((), ONE, x) for x in v.items]
        if isinstance(v, str):
            return [Seg((), ONE, x) for x in v]
        if isinstance(v, Ref):
            st = self.state(v)
            if st.kind in ('list', 'set'):
                if any(isinstance(s, Hav) for s in st.segs):
                    raise Unsupported('iteration over a list being built')
                return st.segs
            if st.kind == 'arr':
                n = st.shape[0]
                b = T.fresh_name('_v')
                self.loopvars.append((b, n))
                try:
                    row = self.M.arr_index(self, v, [N(var(b, 'int'), 'int')])
                finally:
                    self.loopvars.pop()
                return [Seg([(b, n)], ONE, row)]
            if st.kind == 'dict':
                return self.M.dict_keys(self, v)
        if isinstance(v, Sym) and 'iter' in v.ops:
            return v.ops['iter'](self)
        if isinstance(v, Sym) and 'item' in v.ops and 'len' in v.ops:
            b = T.fresh_name('_v')
            return [Seg([(b, v.ops['len'](self))], ONE, v.ops['item'](self, var(b, 'int')))]
        if isinstance(v, Opq) and v.item is not None and v.kind == 'tuple':
            raise Unsupported('iteration over opaque tuple')
        raise Unsupported('iteration over %r' % (v,))

    def seg_count(self, s):
        if isinstance(s, Hav):
            raise Unsupported('length of a list being built')
        return T.sum_over(list(s.binders), s.cond)

    lengths = ()

    def length(self, v):
        n = self.length_of(v)
        if self.entries:
            self.lengths = self.lengths + (n,)
        return n

    def length_of(self, v):
        if isinstance(v, Tup):
            return cst(len(v.items))
        if isinstance(v, str):
            return cst(len(v))
        if isinstance(v, Ref):
            st = self.state(v)
            if st.kind == 'arr':
                if not st.shape:
                    raise PyExc('TypeError', 'len() of unsized object')
                return st.shape[0]
            if st.kind == 'dict':
                return self.M.dict_len(self, v)
            if st.kind == 'ins':
                raise PyExc('TypeError', 'object has no len')
            if st.kind == 'set':
                return self.M.set_len(self, v)
        if isinstance(v, Sym) and 'len' in v.ops:
            return v.ops['len'](self)
        if isinstance(v, Opq) and 'len' in (v.item or {}):
            return T.to_poly(v.item['len'](v))
        if isinstance(v, Opq) and v.kind == 'str':
            return T.app('strlen', v.p, sort='int')
        if isinstance(v, Seq) and v.origin == 'set':
            return self.M.set_len(self, v)
        return T.addn([self.seg_count(s) for s in self.seq(v)])

    def seq_get(self, v, k):
        """k-th element (k poly >= 0) of a sequence"""
        if isinstance(v, Sym) and 'item' in v.ops:
            return v.ops['item'](self, k)
        if isinstance(v, Opq) and v.item and 'get' in v.item:
            return v.item['get'](v, k)
        if self.is_arr(v):
            return self.M.arr_index(self, v, [N(k, 'int')])
        segs = self.seq(v)
        return self.segs_get(segs, k)

    def segs_get(self, segs, k):
        kc = k.const()
        pos = ZERO
        for j, s in enumerate(segs):
            n = self.seg_count(s)
            off = k - pos
            last = j == len(segs) - 1
            inside = last
            if not last:
                c = T.lt0(off - n)
                if c.const() is not None:
                    inside = c.const() == 1
                else:
                    inside = self.choose(c)
            if inside:
                if not s.binders:
                    if last and kc is not None and s.cond is ONE and off.const() is not None and off.const() > 0:
                        raise PyExc('IndexError', 'index out of range')
                    return s.value
                if len(s.binders) > 1:
                    if len(s.binders) == 2 and s.cond is ONE and s.binders[0][0] not in s.binders[1][1].fv:
                        # row by row
                        (b, _), (c, m) = s.binders
                        return vsubst(s.value, {b: T.app('idiv', off, m, sort='int'), c: T.app('imod', off, m, sort='int')})
                    raise Unsupported('element of a nested sequence')
                b, bound = s.binders[0]
                if s.cond is ONE:
                    r = vsubst(s.value, {b: off})
                    if isinstance(r, Opq) and r.kind == 'hav':
                        for k, (nm, b0, val) in self.unwritten.items():
                            # the element that this iteration is about to write
                            if r.p is app(k, var(nm, 'int'), sort='obj'):
                                return vsubst(val, {b0: var(nm, 'int')})
                    return r
                return vsubst(s.value, {b: T.sel(bound, T.lam(b, s.cond), off)})
            pos = pos + n
        if kc is not None:
            raise PyExc('IndexError', 'index out of range')
        raise Unsupported('element of an empty sequence')

    def concrete_items(self, v):
        """Python list of values if the sequence has a concrete length, else None"""
        try:
            segs = self.seq(v)
        except Unsupported:
            return None
        out = []
        for s in segs:
            if isinstance(s, Hav):
                return None
            if not s.binders:
                if s.cond is not ONE:
                    return None
                out.append(s.value)
                continue
            if len(s.binders) == 1 and s.cond is ONE:
                c = s.binders[0][1].const()
                if c is not None and c <= 64:
                    for j in range(int(max(0, c))):
                        out.append(vsubst(s.value, {s.binders[0][0]: cst(j)}))
                    continue
            return None
        return out

    # -- loops

    def loop(self, segs, body, tag=None):
        """
        Run body(value) over the segments; returns 'break' if broken.
        """
        for s in segs:
            if isinstance(s, Hav):
                raise Unsupported('iteration over a list being built')
            if not s.binders:
                if self.merging and s.cond is not ONE and self.known(s.cond) is None and \
                   self.joined(lambda: body(s.value, None) if self.choose(s.cond) else None)[0]:
                    continue
                if s.cond is not ONE and not self.choose(s.cond):
                    continue
                try:
                    body(s.value, None)
                except ContinueEx:
                    pass
                except BreakEx:
                    return 'break'
                continue
            if len(s.binders) == 1:
                c = s.binders[0][1].const()
                if c is not None and c <= self.unroll:
                    for j in range(int(max(0, c))):
                        e = {s.binders[0][0]: cst(j)}
                        cond = T.subst(s.cond, e)
                        if cond is not ONE and not self.choose(cond):
                            continue
                        try:
                            body(vsubst(s.value, e), cst(j))
                        except ContinueEx:
                            pass
                        except BreakEx:
                            return 'break'
                    continue
            if len(segs) > 1 and any(isinstance(x, Seg) and x.binders for x in segs) and \
               self.pre is None:
                pass
            r = self.gen_loop(s, body)
            if r == 'break':
                if len(segs) > 1:
                    raise Unsupported('break in a loop over a concatenation')
                return 'break'
        return None

    def diff(self, h0, h1):
        """Locations of h0 modified in h1: set of (oid, slot)"""
        out = set()
        for oid, st in h0.items():
            s1 = h1[oid]
            if s1 is st:
                continue
            if st.kind == 'ins':
                for k in set(st.attrs) | set(s1.attrs):
                    if st.attrs.get(k, PARTIAL) is not s1.attrs.get(k, PARTIAL) and \
                       not (k in st.attrs and k in s1.attrs and veq_syn(st.attrs[k], s1.attrs[k])):
                        out.add((oid, k))
            elif st.kind == 'frame':
                for k in set(st.vars) | set(s1.vars):
                    if st.vars.get(k, PARTIAL) is not s1.vars.get(k, PARTIAL) and \
                       not (k in st.vars and k in s1.vars and veq_syn(st.vars[k], s1.vars[k])):
                        out.add((oid, k))
            elif st.kind in ('list', 'set', 'dict'):
                if st.d.get('over') is not s1.d.get('over') or len(st.segs) != len(s1.segs) or not all(seg_eq(a, b) for a, b in zip(st.segs, s1.segs)):
                    out.add((oid, None))
            elif st.kind == 'arr':
                if st.body is not s1.body or st.d.get('D') is not s1.d.get('D') or st.names != s1.names:
                    out.add((oid, None))
            else:
                out.add((oid, None))
        return out

    def slot(self, heap, loc):
        oid, k = loc
        st = heap[oid]
        if st.kind == 'ins':
            return st.attrs.get(k, PARTIAL)
        if st.kind == 'frame':
            return st.vars.get(k, PARTIAL)
        return st

    def set_slot(self, heap, loc, v):
        oid, k = loc
        st = heap[oid]
        if st.kind in ('ins', 'frame'):
            f = 'attrs' if st.kind == 'ins' else 'vars'
            d = dict(st.d[f])
            if v is PARTIAL:
                d.pop(k, None)
            else:
                d[k] = v
            heap[oid] = St(st.kind, st.params, **dict(st.d, **{f: d}))
        else:
            heap[oid] = v

    def gen_loop(self, s, body):
        s = seg_fresh(s)
        names = [n for n, _ in s.binders]
        single = len(names) == 1
        i = var(names[0], 'int')
        n = s.binders[0][1]
        H0 = self.heap
        base = []
        for b, bound in s.binders:
            base.append(T.ge0(var(b, 'int')))
            base.append(T.lt0(var(b, 'int') - bound))
        if s.cond is not ONE:
            base.append(s.cond)
        base = [f for f in base if f is not ONE]
        mods = {}     # loc -> havoc descriptor
        nobl = len(self.obls)
        types = {}
        for rnd in range(12):
            heap = dict(H0)
            for loc, hv in mods.items():
                self.set_slot(heap, loc, hv['value'])
            self.heap = heap
            f0 = self.facts
            self.facts = f0 + base
            del self.obls[nobl:]
            self.loopvars += list(s.binders)
            idx = i if single else None
            try:
                res = self.explore(lambda: body(s.value, idx))
            finally:
                del self.loopvars[len(self.loopvars) - len(s.binders):]
                self.facts = f0
            # modified locations
            new = False
            fresh = set()
            for pc, out, h, _ in res:
                for loc in self.diff(heap, h):
                    if loc not in mods:
                        mods[loc] = self.havoc(H0, h, loc, names)
                        fresh.add(loc)
                        new = True
                    elif loc in fresh and mods[loc]['mode'] != 'num':
                        pass
                    else:
                        hv = mods[loc]
                        h2 = self.havoc_again(hv, H0, h, loc, names)
                        if h2 is not None:
                            mods[loc] = h2
                            new = True
            if not new:
                break
        else:
            raise Unsupported('loop does not stabilise')
        self.heap = H0
        self.loop_base = base
        r = self.close_loop(s, names, mods, res, H0, heap, body, base, nobl)
        return r

    def havoc(self, H0, H1, loc, names):
        """Descriptor of the arbitrary value of a location at the start of an iteration"""
        v0 = self.slot(H0, loc)
        v1 = self.slot(H1, loc)
        if isinstance(v0, bool) and (isinstance(v1, bool) or isinstance(v1, N)):
            v0, v1 = boolean(v0), boolean(v1)
        k = T.fresh_name('_h')
        par = () if isinstance(v0, St) else H0[loc[0]].params
        if par and isinstance(v0, (N, Opq)) and type(v0) is type(v1):
            args = [var(p, 'int') for p in par]
            if isinstance(v0, N):
                ty = jty(v0.ty, v1.ty)
                hv = N(app(k, *args, sort=sort_of(ty)), ty)
            else:
                hv = Opq(app(k, *args, sort='obj'), v0.kind, v0.item)
            return {'mode': 'fam', 'name': k, 'value': hv, 'old': v0, 'par': par}
        if isinstance(v0, St):
            if v0.kind in ('list', 'set'):
                if v1.d.get('over') is not None:
                    o = v1.d['over']
                    if len(names) == len(o['args']) and all(a is var(x, 'int') for a, x in zip(o['args'], names)) and not v0.d.get('over'):
                        return {'mode': 'members', 'name': k, 'value': St('list', v0.params, segs=v0.segs, only=tuple(names)), 'old': v0}
                    els = self.as_elem(St('list', (), segs=o['old']))
                    if els is None:
                        raise Unsupported('list modified in a loop')
                    b, n0, val = els
                    if len(names) == 1:
                        self.unwritten[k] = (names[0], b, val)
                    hv = dict(o, segs=[Seg([(b, n0)], ONE, Opq(app(k, var(b, 'int'), sort='obj'), 'hav'))], wr=[])
                    return {'mode': 'elemo', 'name': k, 'value': v0.upd(over=hv), 'old': v0, 'b': b, 'n': n0, 'val': val}
                pre = v0.segs
                if len(v1.segs) >= len(pre) and all(seg_eq(a, b) for a, b in zip(pre, v1.segs)):
                    return {'mode': 'append', 'name': k, 'value': v0.upd(segs=[Hav(k)]), 'old': v0}
                # element-wise writes
                if len(pre) == 1 or all(isinstance(x, Seg) and not x.binders for x in pre):
                    els = self.as_elem(v0)
                    if els is not None:
                        b, n0, val = els
                        if isinstance(val, N):
                            args = [var(p, 'int') for p in v0.params] + [var(b, 'int')]
                            hv = N(app(k, *args, sort=sort_of(val.ty)), val.ty)
                            return {'mode': 'elem', 'name': k, 'value': v0.upd(segs=[Seg([(b, n0)], ONE, hv)]),
                                    'old': v0, 'b': b, 'n': n0, 'val': val}
                        if len(names) == 1:
                            self.unwritten[k] = (names[0], b, val)
                        return {'mode': 'elemv', 'name': k,
                                'value': v0.upd(segs=[Seg([(b, n0)], ONE, Opq(app(k, var(b, 'int'), sort='obj'), 'hav'))]),
                                'old': v0, 'b': b, 'n': n0, 'val': val}
                raise Unsupported('list modified in a loop')
            if v0.kind == 'arr':
                args = [var(p, 'int') for p in v0.params] + [var(x, 'int') for x in v0.names]
                if v0.d.get('spec') is not None:
                    return {'mode': 'spec', 'name': k, 'value': v0.upd(D=app(k, *args, sort='int')), 'old': v0}
                return {'mode': 'arr', 'name': k, 'old': v0,
                        'value': v0.upd(body=app(k, *args, sort=sort_of(v0.dtype)))}
            if v0.kind == 'dict':
                return {'mode': 'dict', 'name': k, 'value': v0.upd(segs=[Hav(k)]), 'old': v0}
            raise Unsupported('%s modified in a loop' % v0.kind)
        if isinstance(v0, N) and isinstance(v1, N):
            ty = jty(v0.ty, v1.ty)
            return {'mode': 'num', 'name': k, 'ty': ty, 'old': v0,
                    'value': N(var(k, sort_of(ty)), ty)}
        return {'mode': 'other', 'name': k, 'value': Poison('value carried by a loop: %s' % (loc,)), 'old': v0}

    def havoc_again(self, hv, H0, h, loc, names):
        """Refine the havoc descriptor if the new value is of another nature"""
        v1 = self.slot(h, loc)
        if hv['mode'] == 'num':
            v1 = boolean(v1)
            if isinstance(v1, N):
                if TYORD[v1.ty] > TYORD[hv['ty']]:
                    h2 = dict(hv)
                    h2['ty'] = v1.ty
                    h2['value'] = N(var(hv['name'], sort_of(v1.ty)), v1.ty)
                    return h2
                return None
            h2 = dict(hv)
            h2['mode'] = 'other'
            h2['value'] = Poison('value carried by a loop: %s' % (loc,))
            return h2
        if hv['mode'] == 'append':
            segs = v1.segs
            if not segs or not isinstance(segs[0], Hav):
                raise Unsupported('list modified in a loop')
        return None

    def as_elem(self, st):
        """(binder, length, value) of a list of a single simple segment or of concrete numbers"""
        if len(st.segs) == 1 and isinstance(st.segs[0], Seg) and len(st.segs[0].binders) == 1 and st.segs[0].cond is ONE:
            s = seg_fresh(st.segs[0])
            return s.binders[0][0], s.binders[0][1], s.value
        if all(isinstance(x, Seg) and not x.binders and x.cond is ONE and isinstance(x.value, N) for x in st.segs):
            b = T.fresh_name('_v')
            p = T.addn([T.eq0(var(b, 'int') - j) * x.value.p for j, x in enumerate(st.segs)])
            ty = 'bool'
            for x in st.segs:
                ty = jty(ty, x.value.ty)
            return b, cst(len(st.segs)), N(p, ty)
        return None

    def close_loop(self, s, names, mods, res, H0, Hs, body, base, nobl):
        binders = list(s.binders)
        single = len(names) == 1
        i = var(names[0], 'int')
        n = binders[0][1]
        scond = s.cond
        hnames = {hv['name'] for hv in mods.values()}
        spec = any(hv['mode'] == 'spec' for hv in mods.values())

        falls = [r for r in res if r[1][0] == 'ok']
        exits = [r for r in res if r[1][0] != 'ok']
        if exits and not single:
            raise Unsupported('exit from a nested iteration')

        # 1. numeric locations: value at the start of iteration i
        solved = {}   # name -> poly at start of iteration (in names)
        final = {}    # loc -> value after the loop (no exit)
        pending = {}
        for loc, hv in mods.items():
            if hv['mode'] == 'num':
                vals = [(pc, boolean(self.slot(h, loc))) for pc, out, h, _ in falls]
                if vals and all(isinstance(v, N) for _, v in vals):
                    pending[loc] = self.merge(vals) if vals else hv['value']
                elif not vals:
                    pending[loc] = hv['value']
        last_only = {}

        def closed(p):
            """Substitute the solved values"""
            env = {k: v for k, v in solved.items() if k in p.fv}
            env.update({k + '~': T.conj(v) for k, v in solved.items() if k + '~' in p.fv})
            return T.subst(p, env) if env else p

        def apps_free(p, nm):
            return nm not in p.key

        arrs = {}
        for loc, hv in mods.items():
            if hv['mode'] in ('arr', 'elem', 'spec', 'fam'):
                vals = []
                for pc, out, h, _ in falls:
                    st = self.slot(h, loc)
                    vals.append((pc, st))
                arrs[loc] = vals
        progress = True
        unsolved = dict(pending)
        solved_app = {}   # name -> python function(args polys) giving the value at start of iteration i

        def closed_all(p):
            p = closed(p)
            for nm, fn in solved_app.items():
                if nm in p.key:
                    p = replace_app(p, nm, fn)
            return p

        def has_hav(p):
            return any(occurs(h, p) for h in hnames)

        prefix = lambda d: self.prefix_sum(d, binders, scond, names)
        total = lambda d: T.sum_over(binders, d * scond)
        arr_final = {}
        counts = []
        while progress:
            progress = False
            for loc in list(unsolved):
                hv = mods[loc]
                X = hv['value'].p
                V = closed_all(unsolved[loc].p)
                d = V - X
                old = hv['old'].p if isinstance(hv['old'], N) else None
                if not has_hav(d) and old is not None:
                    solved[hv['name']] = old + prefix(d) if single else None
                    if self.from_zero and single and d * d is d:
                        # a count of iterations is not negative
                        counts.append(prefix(d))
                        self.counts.add(total(d))
                    if not single:
                        solved.pop(hv['name'])
                        # order inside nested iteration is not needed unless read elsewhere
                    final[loc] = N(old + total(d), hv['ty'])
                    del unsolved[loc]
                    progress = True
                elif not has_hav(V):
                    # last value
                    if single and scond is ONE:
                        Vprev = T.subst(V, {names[0]: i - 1})
                        z = T.eq0(i)
                        if old is not None:
                            solved[hv['name']] = z * old + (ONE - z) * Vprev
                        Vn = T.subst(V, {names[0]: n - 1})
                        e = T.le0(n)
                        if self.known(T.gt0(n)) is True:
                            e = ZERO
                        final[loc] = N((e * old if old is not None else ZERO) + (ONE - e) * Vn, hv['ty'])
                        del unsolved[loc]
                        progress = True
                elif single and old is not None and self.running(V, X, has_hav) is not None:
                    # largest (or smallest) value met so far
                    fn, nm, w = self.running(V, X, has_hav)
                    if scond is not ONE or self.known(T.gt0(n)) is not True:
                        continue
                    f = lambda k: fn(old, app(nm, T.lam(names[0], w), k, sort=sort_of(hv['ty'])))
                    z = T.eq0(i)
                    solved[hv['name']] = z * old + (ONE - z) * f(i)
                    final[loc] = N(f(n), hv['ty'])
                    del unsolved[loc]
                    progress = True
                elif single and old is not None:
                    # set to a given value at the iterations that satisfy a condition
                    B = T.subst(V, {hv['name']: ZERO})
                    A = T.subst(V, {hv['name']: ONE}) - B
                    c = ONE - A
                    if has_hav(A) or has_hav(B) or not (V - A * X - B) is ZERO or c * c is not c:
                        continue
                    for g in [ZERO, ONE]:
                        if B is g * c:
                            l = T.lam(names[0], c * scond)
                            f = lambda k: noex(l, k) * old + (ONE - noex(l, k)) * g
                            solved[hv['name']] = f(i)
                            final[loc] = N(f(n), hv['ty'])
                            del unsolved[loc]
                            progress = True
                            break
            for loc in list(arrs):
                hv = mods[loc]
                nm = hv['name']
                r = self.solve_array(loc, hv, arrs[loc], closed_all, has_hav, binders, scond, names, nm, prefix, total, i, n, single)
                if r is None:
                    continue
                solved_app[nm] = r[0]
                final[loc] = r[1]
                del arrs[loc]
                progress = True
            if not progress and self.from_zero:
                # scratch arrays of the kernels: their content is not known
                for loc in list(arrs):
                    hv = mods[loc]
                    if hv['mode'] == 'arr' and single and not hv['old'].params:
                        self.forget(loc, hv, solved_app, final, i)
                        del arrs[loc]
                        progress = True
                        break
        if spec and self.emit_spec and single:
            # second pass: the body from the solved state, to emit the obligations about the array
            self.second_pass(s, names, mods, solved, solved_app, H0, body, base, nobl)
        elif self.from_zero and single and len(self.obls) > nobl and any(occurs(h, p) for _, fs, g in self.obls[nobl:] if isinstance(g, Poly)
                                                                         for p in list(fs) + [g] for h in hnames):
            self.second_pass(s, names, mods, solved, solved_app, H0, body, base + [T.ge0(c) for c in counts], nobl)
        # 2. other locations
        exit_c = T.addn([closed_all(pc) for pc, out, h, _ in exits]) if exits else ZERO
        if has_hav(exit_c):
            raise Unsupported('exit condition depends on the history of the loop')
        lamc = T.lam(names[0], exit_c * scond) if exits else None
        nx = (lambda k: noex(lamc, k)) if exits else (lambda k: ONE)
        H = dict(H0)
        # objects allocated in the body
        for pc, out, h, _ in res:
            for oid, st in h.items():
                if oid not in H:
                    H[oid] = self.close_state(st, closed_all, has_hav)
        none = nx(n) if exits else ONE
        for loc, hv in mods.items():
            m = hv['mode']
            if m in ('append', 'dict'):
                old = hv['old']
                segs = []
                for pc, out, h, _ in res:
                    st = self.slot(h, loc)
                    if not st.segs or not isinstance(st.segs[0], Hav):
                        raise Unsupported('list or dictionary overwritten in a loop')
                    pcc = closed_all(pc) * nx(i) * scond
                    if has_hav(pcc):
                        pcc, ok = self.hav_cond(pcc, hv, st, m)
                    for g in st.segs[1:]:
                        if isinstance(g, Hav):
                            raise Unsupported('nested list under construction')
                        val = self.close_value(g.value, closed_all)
                        cond = closed_all(g.cond)
                        bs = [(b, closed_all(x)) for b, x in g.binders]
                        cc = pcc * cond
                        if m == 'dict':
                            cc, val = self.close_entry(cc, val, hv['name'], has_hav)
                        if has_hav(cc) or self.val_hav(val, hnames):
                            raise Unsupported('append depends on the history of the loop')
                        segs.append(Seg(binders + bs, cc, val))
                if old.kind == 'list':
                    segs = self.merge_branches(segs)
                segs = self.merge_segs(list(old.segs) + segs)
                H[loc[0]] = old.upd(segs=segs)
            elif m == 'members':
                if exits or len(falls) != 1 or scond is not ONE:
                    raise Unsupported('lists modified in a loop')
                o = self.slot(falls[0][2], loc).d.get('over')
                if o is None or any(isinstance(g, Hav) or self.val_hav(g.value, hnames) or has_hav(g.cond) for g in o['segs']):
                    raise Unsupported('lists modified in a loop')
                H[loc[0]] = St('list', hv['old'].params, segs=hv['old'].segs,
                               upto=(tuple(names), [b for _, b in binders], [Seg([(b, closed_all(x)) for b, x in g.binders], closed_all(g.cond), self.close_value(g.value, closed_all)) for g in o['segs']]))
            elif m == 'elemo':
                if exits or not single or len(falls) != 1:
                    raise Unsupported('list modified in a loop')
                o = self.slot(falls[0][2], loc).d.get('over')
                w = o['wr']
                if len(w) != 1 or w[0][0] is not var(names[0], 'int') or (hv['n'] is not n and self.known(T.eq0(hv['n'] - n)) is not True):
                    raise Unsupported('list modified in a loop')
                val = self.close_value(w[0][1], closed_all)
                if self.val_hav(val, hnames):
                    raise Unsupported('list modified in a loop')
                H[loc[0]] = hv['old'].upd(over={'args': o['args'], 'wr': None, 'old': None, 'segs': [
                    Seg([(hv['b'], hv['n'])], ONE, vsubst(val, {names[0]: var(hv['b'], 'int')}))]})
            elif m == 'elemv':
                self.close_elemv(H, loc, hv, falls, exits, names, n, single)
            elif m == 'other' or (m == 'num' and loc in unsolved):
                if exits and any(True for e in exits if e[1][0] == 'break'):
                    self.set_slot(H, loc, Poison('after a loop with exits: %s' % (loc,)))
                    continue
                vals = [(pc, self.slot(h, loc)) for pc, out, h, _ in falls]
                v = Poison('after the loop: %s' % (loc,))
                if vals and all(veq_syn(vals[0][1], x) for _, x in vals) and not isinstance(vals[0][1], (Poison,)) and vals[0][1] is not PARTIAL:
                    w = self.close_value(vals[0][1], closed_all)
                    if not self.val_hav(w, hnames) and scond is ONE:
                        last = vsubst(w, {names[0]: n - 1}) if single else w
                        if not (vfree(w, set()) & set(names)):
                            last = w
                        elif not single:
                            last = Poison('after a nested iteration')
                        if self.known(T.gt0(n)) is True or hv['old'] is PARTIAL or veq_syn(hv['old'], last):
                            v = last
                self.set_slot(H, loc, v)
            elif loc in final:
                if exits and any(e[1][0] == 'break' for e in exits):
                    v = self.final_exit(loc, hv, final[loc], exits, closed_all, nx, names, n, none, has_hav)
                    self.set_slot(H, loc, v)
                else:
                    self.set_slot(H, loc, final[loc])
            else:
                if m in ('arr', 'elem', 'spec', 'fam'):
                    if os.environ.get('DBG'):
                        print('NOCLOSED', loc, m, hv, [(pc, self.slot(h, loc)) for pc, out, h, _ in falls])
                        for pc, out, h, _ in falls:
                            st = self.slot(h, loc)
                            print('   ', pc, getattr(st, 'd', st))
                    raise Unsupported("array modified in a loop: no closed form for %s" % (loc,))
                raise Unsupported('no closed form for %s' % (loc,))
        if os.environ.get('DBG'):
            print('UNSOLVED', {l: (mods[l]['value'], unsolved[l]) for l in unsolved})
        self.heap = H
        # 3. exits
        if exits:
            kinds = {}
            for e in exits:
                kinds.setdefault(e[1][0], []).append(e)
            for kd in ('exc', 'return'):
                if kd not in kinds:
                    continue
                es = kinds[kd]
                if len(kinds) == 1:
                    c = ONE - none
                else:
                    c = T.addn([T.mk_sum(names[0], n, closed_all(pc) * nx(i) * scond) for pc, o, h, _ in es])
                if kd == 'exc':
                    k = self.known(c)
                    if k is False:
                        continue
                    if self.choose(c):
                        raise PyExc(es[0][1][1].name, es[0][1][1].msg)
                    continue
                if self.choose(c):
                    vals = []
                    for pc, o, h, _ in es:
                        vals.append((closed_all(pc) * nx(i) * scond, self.close_value(o[1], closed_all)))
                    raise ReturnEx(self.exit_value(vals, names[0], n))
            if 'break' in kinds:
                return None
        return None

    emit_spec = True

    def exit_value(self, vals, name, n):
        v0 = vals[0][1]
        if len(vals) == 1 and name not in vfree(v0, set()):
            return v0
        if all(isinstance(v, N) for _, v in vals):
            return N(T.addn([T.mk_sum(name, n, c * v.p) for c, v in vals]), v0.ty)
        if all(isinstance(v, Tup) and len(v.items) == len(v0.items) for _, v in vals):
            return Tup([self.exit_value([(c, v.items[k]) for c, v in vals], name, n) for k in range(len(v0.items))])
        if all(veq_syn(v0, v) for _, v in vals) and name not in vfree(v0, set()):
            return v0
        if all(isinstance(v, Opq) for _, v in vals):
            return Opq(T.addn([T.mk_sum(name, n, c * v.p) for c, v in vals]), v0.kind, v0.item)
        raise Unsupported('value returned from a loop')

    def final_exit(self, loc, hv, fin, exits, closed_all, nx, names, n, none, has_hav):
        i = var(names[0], 'int')
        if isinstance(fin, N):
            tot = none * fin.p
            for pc, out, h, _ in exits:
                if out[0] != 'break':
                    continue
                v = self.slot(h, loc)
                p = closed_all(v.p)
                c = closed_all(pc) * nx(i)
                if has_hav(p) or has_hav(c):
                    return Poison('after a loop with exits')
                tot = tot + T.mk_sum(names[0], n, c * p)
            # first exits sum to 1-none
            return N(self.simplify_first(tot, exits, closed_all, nx, names, n, none), fin.ty)
        if isinstance(fin, St) and fin.kind == 'arr' and hv['mode'] == 'arr':
            tot = none * fin.body
            for pc, out, h, _ in exits:
                if out[0] != 'break':
                    continue
                st = self.slot(h, loc)
                p = closed_all(T.subst(st.body, {a: var(b, 'int') for a, b in zip(st.names, fin.names)}))
                c = closed_all(pc) * nx(i)
                if has_hav(p) or has_hav(c):
                    raise Unsupported('array after a loop with exits')
                tot = tot + T.mk_sum(names[0], n, c * p)
            return fin.upd(body=tot)
        raise Unsupported('state after a loop with exits')

    def simplify_first(self, tot, exits, closed_all, nx, names, n, none):
        """SUM_i first(i) = 1 - none"""
        i = var(names[0], 'int')
        fs = T.addn([T.mk_sum(names[0], n, closed_all(pc) * nx(i)) for pc, out, h, _ in exits if out[0] == 'break'])
        if all(out[0] == 'break' for _, out, _, _ in exits):
            # tot = a*fs + rest: replace syntactically when fs is a single monomial
            if len(fs.terms) == 1:
                m, c = fs.terms[0]
                d = dict(tot.terms)
                if m in d:
                    k = d[m] / c
                    return tot - T.scale(fs, k) + T.scale(ONE - none, k)
        return tot

    def hav_cond(self, pcc, hv, st, m):
        return pcc, False

    def close_entry(self, cc, kv, name, has_hav):
        """
        Dictionary entries: conditions of the form (1-[member(key)]) on the same
        dictionary mean that the first entry with a key wins.
        """
        if not has_hav(cc):
            return cc, kv
        mem = T.boolatom('MEM' + name, *self.M.key_polys(kv.key))
        env = {mem.terms[0][0].factors[0][0]: ZERO}
        c0 = T.subst_atoms(cc, env)
        if c0 * (ONE - mem) is cc or (c0 - c0 * mem) is cc:
            if kv.mode == 'set':
                return c0, KV(kv.key, kv.value, 'first')
        return cc, kv

    def close_value(self, v, f):
        if isinstance(v, N):
            return N(f(v.p), v.ty)
        if isinstance(v, Tup):
            return Tup([self.close_value(x, f) for x in v.items])
        if isinstance(v, Ref):
            return Ref(v.oid, [f(a) for a in v.args])
        if isinstance(v, Opq):
            return Opq(f(v.p), v.kind, v.item)
        if isinstance(v, KV):
            return KV(self.close_value(v.key, f), self.close_value(v.value, f), v.mode)
        if isinstance(v, Sym) and v.key is not None:
            k = f(v.key)
            return v if k is v.key else v.ops['rekey'](k)
        return v

    def close_state(self, st, f, has_hav):
        """State of an object allocated in the body of a loop"""
        try:
            if st.kind == 'arr':
                return st.upd(body=f(st.body), shape=tuple(f(x) for x in st.shape))
            if st.kind in ('list', 'set', 'dict'):
                return st.upd(segs=[g if isinstance(g, Hav) else
                                    Seg([(b, f(x)) for b, x in g.binders], f(g.cond), self.close_value(g.value, f)) for g in st.segs])
            if st.kind == 'ins':
                return st.upd(attrs={k: self.close_value(v, f) for k, v in st.attrs.items()})
            if st.kind == 'frame':
                # closures created in the body keep the variables of a specific iteration
                return st.upd(vars={k: v if not vfree(v, set()) else Poison('variable %s of a closure created in a loop' % k)
                                    for k, v in st.vars.items()})
        except T.KernelError:
            raise
        return st

    def val_hav(self, v, hnames):
        if isinstance(v, (N, Opq)):
            return any((h in v.p.fv) or (h + '(' in v.p.key) for h in hnames)
        if isinstance(v, Tup):
            return any(self.val_hav(x, hnames) for x in v.items)
        if isinstance(v, KV):
            return self.val_hav(v.key, hnames) or self.val_hav(v.value, hnames)
        if isinstance(v, Poison):
            return True
        return False

    def running(self, V, X, has_hav):
        """V = max(X, w) or min(X, w), w free of X: (function, name, w)"""
        for a in sorted({a for m, c in V.terms for a, k in m.factors if a.kind == 'LT'}, key=lambda a: a.key):
            for s, o in ((1, 0), (-1, 0), (1, 1), (-1, 1), (1, -1), (-1, -1)):
                w = X - s * a.data[0] + o
                if has_hav(w):
                    continue
                for fn, nm in ((T.maxp, 'MAX'), (T.minp, 'MIN')):
                    if V is fn(X, w):
                        return fn, nm, w
        return None

    def merge_branches(self, segs):
        """
        Elements appended to a list at each iteration, in the different
        branches of the body: at most one per iteration, since the segments of
        a list follow one another
        """
        segs = [g for g in segs if g.cond is not ZERO]
        if len(segs) < 2:
            return segs
        out = segs[0]
        for g in segs[1:]:
            if g.binders != out.binders:
                raise Unsupported('several elements appended at each iteration')
            if out.cond * g.cond is not ZERO and self.known(ONE - out.cond * g.cond) is not True:
                raise Unsupported('several elements appended at each iteration')
            if veq_syn(g.value, out.value):
                v = out.value
            else:
                v = self.merge([(out.cond, out.value), (g.cond, g.value)])
            out = Seg(out.binders, out.cond + g.cond, v)
        return [out]

    def merge_segs(self, segs):
        """Merge consecutive segments with the same binders and value and exclusive conditions"""
        out = []
        for g in segs:
            if out and isinstance(g, Seg) and isinstance(out[-1], Seg) and g.binders == out[-1].binders and \
               veq_syn(g.value, out[-1].value) and g.binders:
                out[-1] = Seg(g.binders, out[-1].cond + g.cond, g.value)
            else:
                if isinstance(g, Seg) and g.cond is ZERO:
                    continue
                out.append(g)
        return out

    def prefix_sum(self, d, binders, scond, names):
        """SUM over the iterations before the current one (single binder)"""
        if len(names) != 1:
            return None
        j = T.fresh_name('_v')
        e = {names[0]: var(j, 'int')}
        return T.mk_sum(j, var(names[0], 'int'), T.subst(d * scond, e))

    def solve_array(self, loc, hv, vals, closed_all, has_hav, binders, scond, names, nm, prefix, total, i, n, single):
        old = hv['old']
        if hv['mode'] == 'elem':
            xs = [hv['b']]
            oldbody = hv['val'].p
            par = list(old.params)
            H = hv['value'].segs[0].value.p
            tot = ZERO
            for pc, st in vals:
                e = self.as_elem(st)
                if e is None or e[1] is not hv['n'] or not isinstance(e[2], N):
                    raise Unsupported('list modified in a loop')
                tot = tot + pc * T.subst(e[2].p, {e[0]: var(hv['b'], 'int')})
        elif hv['mode'] == 'fam':
            xs = []
            par = list(hv['par'])
            H = hv['value'].p
            oldbody = old.p
            tot = T.addn([pc * st.p for pc, st in vals])
        else:
            xs = list(old.names)
            par = list(old.params)
            f = 'D' if hv['mode'] == 'spec' else 'body'
            oldbody = old.d[f]
            H = hv['value'].d[f]
            tot = ZERO
            for pc, st in vals:
                b = st.d[f]
                if tuple(st.names) != tuple(xs):
                    b = T.subst(b, {a: var(c, 'int') for a, c in zip(st.names, xs)})
                tot = tot + pc * b
        V = self.same_element(closed_all(tot), nm, par + xs, H, names)
        hv_ty = None
        if hv['mode'] == 'elem':
            hv_ty = 'bool'
            for pc, st in vals:
                hv_ty = jty(hv_ty, self.as_elem(st)[2].ty)
            hv_ty = jty(hv_ty, hv['val'].ty)
        allx = par + xs

        def mk(start, fin):
            fn = lambda *args: T.subst(start, dict(zip(allx, args)))
            if hv['mode'] == 'fam':
                return fn, N(fin, hv['value'].ty) if isinstance(old, N) else Opq(fin, old.kind, old.item)
            if hv['mode'] == 'elem':
                return fn, old.upd(segs=[Seg([(hv['b'], hv['n'])], ONE, N(fin, hv_ty))])
            if hv['mode'] == 'spec':
                return fn, old.upd(D=fin)
            if any(a.kind == 'LT' for a in self.atoms_of(fin)):
                # the indices are in their range
                rng = []
                for x, m in zip(xs, old.shape):
                    rng += [T.ge0(var(x, 'int')), T.lt0(var(x, 'int') - m)]
                fin = self.simplify(fin, gfacts() + list(self.facts) + rng)
            return fn, old.upd(body=fin)
        d = V - H
        if single and has_hav(d) and nm in d.key:
            r = self.solve_additive(hv, V, d, oldbody, allx, mk, prefix, total, i, names, has_hav)
            if r is not None:
                return r
        if not has_hav(d):
            return mk(oldbody + (prefix(d) if single else ZERO), oldbody + total(d))
        if single and hv['mode'] == 'arr' and len(xs) == 1 and scond is ONE:
            r = self.solve_compaction(hv, vals, closed_all, has_hav, xs[0], names, total, prefix, n, i)
            if r is not None:
                return mk(lambda_at(r[0], oldbody), lambda_at(r[1], oldbody))
        # overwrite: V = A*H + B
        hatom = H.terms[0][0].factors[0][0]
        B = T.subst_atoms(V, {hatom: ZERO})
        A = T.subst_atoms(V, {hatom: ONE}) - B
        if has_hav(A):
            # the terms that leave the element as it is
            A = ZERO
            for m, q in V.terms:
                fs = dict(m.factors)
                if not m.binders and fs.get(hatom) == 1:
                    r = Poly({m: q}) * T.inv(H)
                    if nm not in r.key:
                        A = A + r
            B = V - A * H
            if has_hav(A):
                return None
        c = ONE - A
        if has_hav(B):
            if not single:
                return None
            r = self.solve_triangular(hv, V, B, c, oldbody, allx, mk, prefix, total, i, n, names, scond)
            if r is None and hv['mode'] in ('arr', 'elem') and scond is ONE:
                dims = list(zip(xs, old.shape)) if hv['mode'] == 'arr' else [(hv['b'], hv['n'])]
                r = self.solve_recurrence(hv, V, B, c, oldbody, allx, mk, prefix, total, i, n, names, dims)
            return r
        if c * c is not c:
            # every element is modified by one iteration at most
            D = A - ONE
            both = Poly({m: T.ONE_F for m, _ in tuple(D.terms) + tuple(B.terms)})
            if single:
                if self.determined(both, names):
                    f = D * oldbody + B
                    return mk(oldbody + prefix(f), oldbody + total(f))
            return None
        # uniqueness of the writing iteration
        S = total(c)
        if single and S.fv & set(names) == set() and not any(m.binders and not self._outer_binders(m) for m, _ in S.terms):
            uniq = self.determined(c, names)
            if uniq:
                return mk((ONE - prefix(c)) * oldbody + prefix(B), (ONE - S) * oldbody + total(B))
        if single and names[0] not in c.fv:
            if names[0] not in B.fv or True:
                # same location at every iteration: the last one wins
                z = T.le0(n)
                if self.known(T.gt0(n)) is True:
                    z = ZERO
                Bn = T.subst(B, {names[0]: n - 1})
                Bp = T.subst(B, {names[0]: i - 1})
                z0 = T.eq0(i)
                start = z0 * oldbody + (ONE - z0) * (A * oldbody + Bp)
                return mk(start, z * oldbody + (ONE - z) * (A * oldbody + Bn))
        if not single:
            if self.determined(c, names):
                return mk(oldbody, (ONE - S) * oldbody + total(B))
        elif c.terms:
            # the same value, written at the iterations that satisfy a condition
            qs = [q for m, q in B.terms if m is c.terms[0][0]]
            g = ZERO if not B.terms else cst(qs[0] / c.terms[0][1]) if qs else None
            if g is not None and B is g * c:
                l = T.lam(names[0], c * scond)
                f = lambda k: noex(l, k) * oldbody + (ONE - noex(l, k)) * g
                return mk(f(i), f(n))
        return None

    def forget(self, loc, hv, solved_app, final, i):
        """Any content, at each iteration and after the loop"""
        old = hv['old']
        sort = hv['value'].d['body'].terms[0][0].factors[0][0].sort
        nm = T.fresh_name('_any')
        solved_app[hv['name']] = lambda *a: app(nm, i, *a, sort=sort)
        nm2 = T.fresh_name('_any')
        final[loc] = old.upd(body=app(nm2, *[var(x, 'int') for x in old.names], sort=sort))

    def solve_compaction(self, hv, vals, closed_all, has_hav, x, names, total, prefix, n, i):
        """
        a[k] = value, where k counts the iterations that satisfy a condition:
        the elements written are the values at the selected iterations
        """
        H = hv['value'].d['body']
        hatom = H.terms[0][0].factors[0][0]
        nm = names[0]
        writing = []
        for pc, st in vals:
            b = st.d['body']
            if tuple(st.names) != (x,):
                b = T.subst(b, {st.names[0]: var(x, 'int')})
            b = closed_all(b)
            if b is not H:
                writing.append((closed_all(pc), b))
        if len(writing) != 1 or has_hav(writing[0][0]):
            return None
        pc, b = writing[0]
        B = T.subst_atoms(b, {hatom: ZERO})
        c = ONE - (T.subst_atoms(b, {hatom: ONE}) - B)
        if has_hav(B) or has_hav(c) or len(c.terms) != 1 or c.terms[0][1] != 1:
            return None
        fs = c.terms[0][0].factors
        if c.terms[0][0].binders or len(fs) != 1 or fs[0][0].kind != 'EQ':
            return None
        sp = T._split_linear(fs[0][0].data[0], x)
        if sp is None or sp[0] not in (1, -1) or x in sp[1].fv:
            return None
        K = T.scale(sp[1], -1 / sp[0])
        k0 = K - prefix(T.subst(pc, {nm: var(nm, 'int')}))
        k0 = K - T.subst(prefix(pc), {i.terms[0][0].factors[0][0].data: var(nm, 'int')}) if nm in k0.fv and i is not None and i.terms else k0
        if nm in k0.fv:
            if os.environ.get('DBG'):
                print('COMPACT', k0, K, prefix(pc))
            return None
        val = T.subst(B, {x: K})
        if x in val.fv:
            return None
        j = T.fresh_name('_v')
        cond = T.lam([j], T.subst(pc, {nm: var(j, 'int')}))
        p = var(x, 'int') - k0
        tot = total(pc)
        at = T.subst(val, {nm: T.sel(n, cond, p)})
        written = T.ge0(p) * T.lt0(p - tot)
        before = T.ge0(p) * T.lt0(p - prefix(pc))
        return (before, at), (written, at)

    def same_element(self, V, nm, xs, H, names):
        """Under an equation between the indices, the element read is the generic one"""
        if not xs:
            return V
        out = []
        for m, c in V.terms:
            p = Poly({m: c})
            if nm in m.key and not m.binders:
                env = {}
                for a, e in m.factors:
                    if a.kind == 'EQ' and a.data[0].fv & set(xs):
                        for n in sorted(a.data[0].fv - set(xs)):
                            sp = T._split_linear(a.data[0], n) if n not in env else None
                            if sp is not None and sp[0] in (1, -1) and sp[1].fv & set(xs):
                                env[n] = T.scale(sp[1], -1 / sp[0])
                                break
                value = {}
                for a, e in m.factors:
                    if a.kind == 'EQ':
                        for x in xs:
                            sp = T._split_linear(a.data[0], x) if x in a.data[0].fv and x not in value else None
                            if sp is not None and sp[0] in (1, -1) and not sp[1].fv & set(xs):
                                value[x] = T.scale(sp[1], -1 / sp[0])
                if env or value:
                    gen = [var(x, 'int') for x in xs]

                    def fn(*args):
                        if all(T.subst(a, env) is g for a, g in zip(args, gen)):
                            return H
                        if all(a is g or a is value.get(x) for a, g, x in zip(args, gen, xs)):
                            return H
                        return app(nm, *args, sort=H.terms[0][0].factors[0][0].sort)
                    p = replace_app(p, nm, fn)
            out.append(p)
        return T.addn(out)

    def solve_triangular(self, hv, V, B, c, oldbody, allx, mk, prefix, total, i, n, names, scond):
        """
        An element is written from another one, not written yet or already
        final: guess which, and check the guess by induction on the iterations
        """
        k = hv['name']
        if c * c is not c or not self.determined(c, names):
            return None
        at = lambda p: (lambda *a: T.subst(p, dict(zip(allx, a))))
        S = total(c)
        facts = list(self.facts) + self.loop_base
        zero = {names[0]: ZERO}
        first = T.subst(replace_app(V, k, at(oldbody)), zero)
        guesses = [oldbody, T.eq0(i) * oldbody + (ONE - T.eq0(i)) * first]
        try:
            guesses.insert(1, (ONE - S) * oldbody + total(replace_app(B, k, lambda *a: ZERO)))
        except T.KernelError:
            pass
        for G in guesses:
            Bg = replace_app(B, k, at(G))
            if occurs(k, Bg):
                continue
            start = (ONE - prefix(c)) * oldbody + prefix(Bg)
            step = replace_app(V, k, at(start)) - T.subst(start, {names[0]: i + 1})
            if self.vanishes(step, facts):
                return mk(start, (ONE - S) * oldbody + total(Bg))
        return None

    def simplify(self, p, facts):
        return smt.simplify(p, facts)

    def by_cases(self, p, facts, depth=8):
        return smt.by_cases(p, facts, depth)

    def solve_recurrence(self, hv, V, B, c, oldbody, allx, mk, prefix, total, i, n, names, dims):
        """
        Each iteration writes new elements from those written by the previous
        one: guess a geometric or arithmetic progression from the first two
        iterations, and check the guess by induction on the iterations
        """
        k, nm = hv['name'], names[0]
        if c * c is not c or not self.determined(c, names):
            return None
        facts = gfacts() + list(self.facts) + self.loop_base
        for x, m in dims:
            facts = facts + [T.ge0(var(x, 'int')), T.lt0(var(x, 'int') - m)]
        at = lambda p: (lambda *a: T.subst(p, dict(zip(allx, a))))
        # the terms of B by the region they are written in
        regions = {}
        for m, q in B.terms:
            if m.binders:
                return None
            g = frozenset(a for a, e in m.factors if a.kind == 'EQ' and a.data[0].fv & set(allx))
            rest = T.norm([], [(a, e) for a, e in m.factors if a not in g], m.phase)
            regions[g] = regions.get(g, ZERO) + T.scale(rest, q)
        sol = []
        for g, h in regions.items():
            env = {}
            for a in g:
                for x in allx:
                    sp = T._split_linear(a.data[0], x) if x in a.data[0].fv and x not in env else None
                    if sp is not None and sp[0] in (1, -1) and not sp[1].fv & set(allx):
                        env[x] = T.scale(sp[1], -1 / sp[0])
                        break
                else:
                    return None
            if not g:
                return None
            sol.append((T.norm([], [(a, 1) for a in g], None), None, T.subst(h, env)))
        first = lambda p, j: T.subst(p, {nm: cst(j)})
        two = facts + [T.gt0(n - 1)]
        drop = lambda fs: [f for f in fs if nm not in f.fv]

        def step(state, j):
            return [self.simplify(replace_app(first(h, j), k, at(state)), drop(two)) for _, _, h in sol]
        g0 = step(oldbody, 0)
        s1 = (ONE - first(c, 0)) * oldbody + T.addn([first(g, 0) * v for (g, _, _), v in zip(sol, g0)])
        g1 = step(s1, 1)
        j = var(nm, 'int')
        for kind in ('geometric', 'arithmetic'):
            vals = []
            for a, b in zip(g0, g1):
                if kind == 'geometric':
                    r = b * T.inv(a)
                    if len(r.terms) != 1 or r.terms[0][0].binders:
                        break
                    m, q = r.terms[0]
                    w = ONE
                    if m.phase is not None:
                        w = T.expi(m.phase * j)
                    if q != 1 or m.factors:
                        w = w * T.powr(T.scale(T.norm([], list(m.factors), None), q), j)
                    vals.append(a * w)
                else:
                    vals.append(a + (b - a) * j)
            else:
                Bg = T.addn([g * v for (g, _, _), v in zip(sol, vals)])
                if occurs(k, Bg):
                    continue
                start = (ONE - prefix(c)) * oldbody + prefix(Bg)
                err = replace_app(V, k, at(start)) - T.subst(start, {nm: i + 1})
                if os.environ.get('DBG'):
                    print('REC', kind, vals)
                if self.by_cases(err, facts):
                    S = total(c)
                    return mk(start, (ONE - S) * oldbody + total(Bg))
        return None

    def solve_additive(self, hv, V, d, oldbody, allx, mk, prefix, total, i, names, has_hav):
        """Increments that depend on elements not modified yet: guess, and check by induction"""
        k = hv['name']
        at = lambda p: (lambda *a: T.subst(p, dict(zip(allx, a))))
        dg = replace_app(d, k, at(oldbody))
        if has_hav(dg):
            return None
        start = oldbody + prefix(dg)
        step = replace_app(V, k, at(start)) - T.subst(start, {names[0]: i + 1})
        if self.vanishes(step, list(self.facts) + self.loop_base):
            return mk(start, oldbody + total(dg))
        return None

    loop_base = []
    # the indices have been checked: negative ones do not count from the end
    from_zero = False
    unroll = UNROLL
    entries = False     # elements of arrays made from lists are opaque
    zero_d = False      # numbers given to numpy.array are arrays that can be modified
    counts = set()

    def vanishes(self, p, facts, depth=2):
        """p = 0 under the facts; splits the cases of the equations between variables in p"""
        e = T.clear(p)
        for f in facts:
            if e is ZERO:
                return True
            e = e * f
        if e is ZERO:
            return True
        if depth:
            for a in sorted(self.atoms_of(e), key=lambda a: a.key):
                if a.kind != 'EQ':
                    continue
                d = a.data[0]
                for v in sorted(d.fv):
                    sp = T._split_linear(d, v)
                    if sp is None or sp[0] not in (1, -1) or not v.startswith('_'):
                        continue
                    env = {v: T.scale(sp[1], -1 / sp[0])}
                    if v in env[v].fv:
                        continue
                    if not self.vanishes(T.subst(p, env), [T.subst(f, env) for f in facts], depth - 1):
                        return False
                    ne = {a: ZERO}
                    for b in self.atoms_of(e):
                        if b.kind == 'LT':
                            if b.data[0] is d - 1:
                                ne[b] = T.lt0(d)
                            elif b.data[0] is -d - 1:
                                ne[b] = T.lt0(-d)
                    return self.vanishes(T.subst_atoms(e, ne), facts, depth - 1)
        return not T.mentions_complex(p) and smt.entails(gfacts() + facts, T.eq0(p), 5.0) is True

    def atoms_of(self, p):
        return {a for m, c in p.terms for a, k in m.factors}

    def _outer_binders(self, m):
        return False

    def determined(self, c, names):
        """Does c(names, x)=1 determine the values of the names? c: indicator poly"""
        left = set(names)
        for m, k in c.terms:
            ok = set()
            for a, e in m.factors:
                if a.kind == 'EQ':
                    for nme in names:
                        if nme in a.data[0].fv:
                            s = T._split_linear(a.data[0], nme)
                            if s is not None and not (s[1].fv & set(names)):
                                ok.add(nme)
            if ok != left:
                return False
        if not c.terms:
            return False
        if len(c.terms) == 1:
            return True
        # a union of regions: those of different iterations must not overlap
        common = None
        for m, k in c.terms:
            e = {a for a, x in m.factors if a.kind == 'EQ'}
            common = e if common is None else common & e
        if all(any(nme in a.data[0].fv and (lambda s: s is not None and not (s[1].fv & left))(T._split_linear(a.data[0], nme))
                   for a in common) for nme in names):
            return True
        env = {nme: var(T.fresh_name('_w'), 'int') for nme in names}
        facts = gfacts() + list(self.facts) + self.loop_base
        facts = facts + [T.subst(f, env) for f in self.loop_base if f.fv & left]
        for nme in names:
            other = T.subst(c, env)
            for m, k in c.terms:
                for m2, k2 in other.terms:
                    q = Poly({m: T.ONE_F}) * Poly({m2: T.ONE_F}) * (ONE - T.eq0(var(nme, 'int') - env[nme]))
                    if q is ZERO:
                        continue
                    if smt.entails(facts, ONE - q, 5.0) is not True:
                        return False
        return True

    def second_pass(self, s, names, mods, solved, solved_app, H0, body, base, nobl):
        heap = dict(H0)
        for loc, hv in mods.items():
            v = hv['value']
            if hv['mode'] == 'spec':
                fn = solved_app.get(hv['name'])
                if fn is None:
                    raise Unsupported('region written in a loop')
                st = hv['old']
                v = st.upd(D=fn(*[var(p, 'int') for p in list(st.params) + list(st.names)]))
            elif hv['mode'] == 'num' and hv['name'] in solved:
                v = N(solved[hv['name']], hv['ty'])
            elif hv['mode'] == 'arr' and self.from_zero and hv['name'] in solved_app:
                st = hv['old']
                v = st.upd(body=solved_app[hv['name']](*[var(p, 'int') for p in list(st.params) + list(st.names)]))
            self.set_slot(heap, loc, v)
        save = (self.heap, self.facts)
        self.heap = heap
        self.facts = self.facts + base
        del self.obls[nobl:]
        self.loopvars += list(s.binders)
        try:
            self.explore(lambda: body(s.value, var(names[0], 'int')))
        finally:
            del self.loopvars[len(self.loopvars) - len(s.binders):]
            self.heap, self.facts = save

    def close_elemv(self, H, loc, hv, falls, exits, names, n, single):
        """List whose i-th element (any value) is replaced at iteration i"""
        if exits or not single or len(falls) != 1:
            raise Unsupported('list modified in a loop')
        st = self.slot(falls[0][2], loc)
        w = st.d.get('wr')
        if w is None or len(w) != 1 or w[0][0] is not var(names[0], 'int'):
            raise Unsupported('list modified in a loop')
        if hv['n'] is not n and self.known(T.eq0(hv['n'] - n)) is not True:
            raise Unsupported('list partly modified in a loop')
        H[loc[0]] = hv['old'].upd(segs=[Seg([(hv['b'], hv['n'])], ONE, vsubst(w[0][1], {names[0]: var(hv['b'], 'int')}))], wr=None)

    # -- obligations

    def oblige(self, name, goal):
        """goal: indicator poly to be proved under the current facts"""
        self.obls.append((name, list(self.facts), goal))

    # ------------------------------------------------------------------ calls

    def call(self, f, args, kw=None):
        kw = kw or {}
        self.steps += 1
        if isinstance(f, Bi):
            return f.fn(self, list(args), dict(kw))
        if isinstance(f, Ty):
            if f.fn is None:
                return PyExc(f.name, args[0] if args and isinstance(args[0], str) else '')
            return f.fn(self, list(args), dict(kw))
        if isinstance(f, Bound):
            return self.call(f.fn, [f.obj] + list(args), kw)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kw)
        if isinstance(f, Clo):
            return self.call_clo(f, args, kw)
        if isinstance(f, Sym) and 'call' in f.ops:
            return f.ops['call'](self, list(args), dict(kw))
        if isinstance(f, Poison):
            raise Unsupported(f.why)
        raise Unsupported('call of %r' % (f,))

    def bind(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.args]
        env = {}
        pos = list(args)
        for nm in names:
            if pos:
                env[nm] = pos.pop(0)
        if pos:
            if a.vararg is None:
                raise PyExc('TypeError', 'too many arguments for %s' % f.name)
            env[a.vararg.arg] = Tup(pos)
        elif a.vararg is not None:
            env[a.vararg.arg] = Tup(())
        extra = {}
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in env:
                    raise PyExc('TypeError', 'multiple values for %s' % k)
                env[k] = v
            else:
                extra[k] = v
        if extra and a.kwarg is None:
            raise PyExc('TypeError', 'unexpected keyword %s for %s' % (sorted(extra), f.name))
        nd = len(f.defaults)
        for nm, d in zip(names[len(names) - nd:], f.defaults):
            if nm not in env:
                env[nm] = d
        for x, d in zip(a.kwonlyargs, f.kwdefaults):
            if x.arg not in env and d is not None:
                env[x.arg] = d
        for nm in names:
            if nm not in env:
                raise PyExc('TypeError', 'missing argument %s of %s' % (nm, f.name))
        if a.kwarg is not None:
            env[a.kwarg.arg] = self.M.dict_of(self, extra)
        return env

    def call_clo(self, f, args, kw):
        env = self.bind(f, args, kw)
        c = self.contracts.get(f.qual)
        if c is not None and (f.qual != self.target or self.within_target):
            self.used_contracts.add(f.qual)
            return c(self, env)
        if f.qual == self.target and not self.within_target:
            self.within_target = True
            try:
                return self.run_body(f, env)
            finally:
                self.within_target = False
        self.inlined.add(f.qual)
        return self.run_body(f, env)

    def run_body(self, f, env):
        self.depth += 1
        if self.depth > 40:
            self.depth = 0
            raise Unsupported('recursion in %s' % f.name)
        try:
            oid = self.new_oid()
            self.heap[oid] = St('frame', (), vars=dict(env), parent=f.frame, mod=f.mod, cls=f.cls, gen=None)
            fr = ('F', oid, f.mod)
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, fr)
            if self.is_generator(f.node):
                return self.run_generator(f, fr)
            try:
                if self.merging and self.joined(lambda: self.block(f.node.body, fr))[0]:
                    return None
                self.block(f.node.body, fr)
            except ReturnEx as e:
                return e.value
            return None
        finally:
            self.depth -= 1

    def is_generator(self, node):
        for x in ast.walk(node):
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                # not in nested function
                return True
        return False

    def run_generator(self, f, fr):
        """Generators are executed eagerly: the sequence of values yielded"""
        lst = self.new_list([])
        self.genstack.append(lst)
        try:
            try:
                self.block(f.node.body, fr)
            except ReturnEx:
                pass
        finally:
            self.genstack.pop()
        return Seq(self.state(lst).segs, 'gen')

    # -- frames

    def lookup(self, name, fr):
        f = fr
        while f is not None and f[0] == 'F':
            st = self.heap[f[1]]
            if name in st.vars:
                v = st.vars[name]
                if isinstance(v, Poison):
                    raise Unsupported(v.why)
                return v
            f = st.parent
        mod = fr[2] if fr[0] == 'F' else fr[1]
        ov = self.overrides.get((mod.name, name))
        if ov is not None:
            return ov
        if name in mod.defs:
            return mod.get(name)
        # star imports
        for st in mod.tree.body:
            if isinstance(st, ast.ImportFrom) and st.names[0].name == '*' and st.level:
                m = self.module(st.module)
                if name in m.defs:
                    return m.get(name)
        v = self.M.builtin(self, name)
        if v is None:
            raise Unsupported('name %s' % name)
        return v

    def assign_name(self, name, v, fr):
        if fr[0] != 'F':
            raise Unsupported('assignment at module level')
        st = self.heap[fr[1]]
        d = dict(st.vars)
        d[name] = v
        self.heap[fr[1]] = St('frame', st.params, **dict(st.d, vars=d))

    # ------------------------------------------------------------------ statements

    def block(self, stmts, fr):
        for st in stmts:
            self.stmt(st, fr)

    def stmt(self, st, fr):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported('too many steps')
        k = type(st).__name__
        m = getattr(self, 's_' + k, None)
        if m is None:
            raise Unsupported('statement %s' % k)
        try:
            return m(st, fr)
        except Unsupported as e:
            if not getattr(e, 'where', None):
                e.where = '%s:%d' % ((fr[2] if fr[0] == 'F' else fr[1]).name, st.lineno)
                e.args = ('%s (at %s)' % (e.args[0], e.where),)
            raise

    def s_Pass(self, st, fr):
        pass

    def s_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, fr)

    def s_Global(self, st, fr):
        raise Unsupported('global')

    def s_Assign(self, st, fr):
        v = self.eval(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, fr), fr)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            if isinstance(v, Tup):
                items = list(v.items)
            else:
                ln = self.length(v)
                items = [self.seq_get(v, cst(j)) for j in range(n)]
                if ln.const() is not None and ln.const() != n:
                    raise PyExc('ValueError', 'unpacking')
            if len(items) != n:
                raise PyExc('ValueError', 'unpacking')
            for x, y in zip(t.elts, items):
                self.assign(x, y, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, fr), self.index(t.slice, fr), v)
        else:
            raise Unsupported('assignment target')

    def s_AugAssign(self, st, fr):
        t = st.target
        rhs = None
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
            rhs = self.eval(st.value, fr)
            if self.inplace(cur, st.op, rhs):
                return
            self.assign_name(t.id, self.binop(st.op, cur, rhs), fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            cur = self.getattr(o, t.attr)
            rhs = self.eval(st.value, fr)
            if self.inplace(cur, st.op, rhs):
                return
            self.setattr(o, t.attr, self.binop(st.op, cur, rhs))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            ix = self.index(t.slice, fr)
            cur = self.getitem(o, ix)
            rhs = self.eval(st.value, fr)
            if isinstance(cur, Ref) and not self.is_arr(o) and self.inplace(cur, st.op, rhs):
                return
            self.setitem(o, ix, self.binop(st.op, cur, rhs))
        else:
            raise Unsupported('augmented assignment')

    def inplace(self, cur, op, rhs):
        """In-place operators on lists and arrays"""
        if self.is_list(cur) and isinstance(op, ast.Add):
            self.M.list_extend(self, cur, rhs)
            return True
        if self.is_arr(cur):
            st = self.heap[cur.oid]
            if st.d.get('view'):
                raise Unsupported('in-place operation on a view')
            if st.dtype in ('int', 'bool') and isinstance(op, ast.Div):
                raise Unsupported('true division in place of integers')
            new = self.state(self.binop(op, cur, rhs))
            if len(new.shape) != len(st.shape):
                raise Unsupported('in-place broadcasting')
            if new.dtype != st.dtype and TYORD[new.dtype] > TYORD[st.dtype]:
                raise Unsupported('in-place operation changes type')
            self.store_arr(cur, T.subst(new.body, {a: var(b, 'int') for a, b in zip(new.names, st.names)}))
            return True
        return False

    def store_arr(self, ref, body):
        """Replace the elements of the array instance"""
        st = self.heap[ref.oid]
        if st.d.get('frozen'):
            self.violate_frame(ref)
        if self.at_self(ref):
            self.heap[ref.oid] = st.upd(body=body)
        else:
            env = {p: a for p, a in zip(st.params, ref.args)}
            if not all(self._inj(a) for a in ref.args):
                raise Unsupported('write to a member of a family')
            g = self.guard_of(ref)
            self.heap[ref.oid] = st.upd(body=g * self.to_params(ref, body) + (ONE - g) * st.body)

    def _inj(self, a):
        return True

    framed = False
    results = ()

    def violate_frame(self, ref):
        if not self.framed:
            raise Unsupported('write to an input array')
        self.oblige('inputs are not modified', ZERO)

    def freeze(self, kinds=('arr',)):
        """Objects in memory now are not to be modified"""
        for oid, st in list(self.heap.items()):
            if st.kind in kinds:
                self.heap[oid] = st.upd(frozen=True)

    def s_If(self, st, fr):
        t = self.eval(st.test, fr)
        if self.merging and self.known(self.truth_poly(t)) is None:
            p = self.truth_poly(t)
            if self.joined(lambda: self.block(st.body if self.choose(p) else st.orelse, fr))[0]:
                return
        if self.truth(t):
            self.block(st.body, fr)
        else:
            self.block(st.orelse, fr)

    def s_For(self, st, fr):
        it = self.eval(st.iter, fr)
        segs = self.seq(it)

        def body(v, idx):
            self.assign(st.target, v, fr)
            self.block(st.body, fr)
        r = self.loop(segs, body)
        if st.orelse:
            if any(isinstance(x, ast.Break) for b in st.body for x in ast.walk(b)):
                raise Unsupported('for-else with break')
            self.block(st.orelse, fr)

    def s_While(self, st, fr):
        for _ in range(20):
            t = self.eval(st.test, fr)
            k = self.known(self.truth_poly(t))
            if k is None:
                raise Unsupported('while loop')
            if not k:
                return
            try:
                self.block(st.body, fr)
            except ContinueEx:
                pass
            except BreakEx:
                return
        raise Unsupported('while loop')

    def s_Break(self, st, fr):
        raise BreakEx()

    def s_Continue(self, st, fr):
        raise ContinueEx()

    def s_Return(self, st, fr):
        raise ReturnEx(self.eval(st.value, fr) if st.value is not None else None)

    def s_Raise(self, st, fr):
        if st.exc is None:
            raise PyExc('reraise')
        e = self.eval(st.exc, fr) if not isinstance(st.exc, ast.Call) else None
        if isinstance(st.exc, ast.Call) and isinstance(st.exc.func, ast.Name):
            raise PyExc(st.exc.func.id, '')
        if isinstance(e, Ty):
            raise PyExc(e.name)
        if isinstance(e, PyExc):
            raise e
        raise Unsupported('raise')

    def s_Assert(self, st, fr):
        if not self.truth(self.eval(st.test, fr)):
            raise PyExc('AssertionError')

    def s_FunctionDef(self, st, fr):
        cur = self.heap[fr[1]]
        owner = None
        self.assign_name(st.name, self.make_fn(st, fr, fr[2], self.frame_qual(fr) + '.<locals>.' + st.name), fr)

    def frame_qual(self, fr):
        return fr[2].name

    def s_Import(self, st, fr):
        for a in st.names:
            if a.name.startswith('matplotlib') or a.name == 'tqdm':
                raise PyExc('ImportError')
            self.assign_name((a.asname or a.name).split('.')[0], self.resolve_import(st, a, fr[2]), fr)

    def s_ImportFrom(self, st, fr):
        for a in st.names:
            self.assign_name(a.asname or a.name, self.resolve_import(st, a, fr[2]), fr)

    def s_Try(self, st, fr):
        try:
            self.block(st.body, fr)
        except PyExc as e:
            for h in st.handlers:
                if h.type is None:
                    names = [e.name]
                elif isinstance(h.type, ast.Tuple):
                    names = [x.id for x in h.type.elts]
                else:
                    names = [h.type.id if isinstance(h.type, ast.Name) else '']
                if e.name in names or 'Exception' in names or \
                   (e.name == 'ModuleNotFoundError' and 'ImportError' in names) or \
                   (e.name in ('IndexError', 'KeyError') and 'LookupError' in names):
                    if h.name:
                        self.assign_name(h.name, Opq(var('exc_' + e.name, 'obj'), 'exc'), fr)
                    self.handling = e
                    try:
                        self.block(h.body, fr)
                    except PyExc as e2:
                        if e2.name == 'reraise':
                            raise e
                        raise
                    break
            else:
                raise
        else:
            self.block(st.orelse, fr)
        finally:
            pass
        self.block(st.finalbody, fr)

    def s_With(self, st, fr):
        for it in st.items:
            v = self.eval(it.context_expr, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        self.block(st.body, fr)

    def s_Delete(self, st, fr):
        raise Unsupported('del')

    # ------------------------------------------------------------------ expressions

    def truth_poly(self, v):
        """Indicator poly of the truth value"""
        if isinstance(v, (bool, int)):
            return ONE if v else ZERO
        if isinstance(v, N):
            if v.ty == 'bool':
                return v.p
            return ONE - T.eq0(v.p)
        if v is None:
            return ZERO
        if isinstance(v, str):
            return ONE if v else ZERO
        if isinstance(v, Tup):
            return ONE if v.items else ZERO
        if isinstance(v, (Clo, Bound, Bi, Mod, Cls, Ty)):
            return ONE
        if isinstance(v, Ref):
            k = self.kind(v)
            if k in ('list', 'set', 'dict'):
                return T.gt0(self.length(v))
            if k == 'ins':
                return ONE
            if k == 'arr':
                st = self.state(v)
                if not st.shape:
                    return ONE - T.eq0(st.body)
                raise Unsupported('truth value of an array')
        if isinstance(v, Sym):
            if 'len' in v.ops and v.ops.get('sized', True):
                return T.gt0(v.ops['len'](self))
            return ONE
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        if isinstance(v, Opq) and v.kind == 'str':
            return T.boolatom('nonempty', v.p)
        raise Unsupported('truth of %r' % (v,))

    def truth(self, v):
        return self.choose(self.truth_poly(v))

    def eval(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        v = e.value
        if isinstance(v, bool):
            return N(v, 'bool')
        if isinstance(v, int):
            return N(v, 'int')
        if isinstance(v, float):
            return N(v, 'float')
        if isinstance(v, complex):
            return N(v, 'complex')
        if v is Ellipsis:
            return Ellipsis
        return v

    def e_Name(self, e, fr):
        if e.id == 'True':
            return N(True)
        if e.id == 'False':
            return N(False)
        return self.lookup(e.id, fr)

    def e_Tuple(self, e, fr):
        return Tup(self.eval_list(e.elts, fr))

    def e_List(self, e, fr):
        return self.list_of(self.eval_list(e.elts, fr))

    def eval_list(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                it = self.concrete_items(self.eval(x.value, fr))
                if it is None:
                    raise Unsupported('starred sequence of symbolic length')
                out += it
            else:
                out.append(self.eval(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = self.M.dict_of(self, {})
        for k, v in zip(e.keys, e.values):
            self.setitem(d, self.eval(k, fr), self.eval(v, fr))
        return d

    def e_Set(self, e, fr):
        return self.M.new_set(self, [Seg((), ONE, v) for v in self.eval_list(e.elts, fr)])

    def e_JoinedStr(self, e, fr):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                if x.format_spec is not None or x.conversion not in (-1, 115):
                    parts.append(self.M.fmt_opaque(self, '{:}', [self.eval(x.value, fr)]))
                else:
                    parts.append(self.M.to_str(self, self.eval(x.value, fr)))
        return self.M.str_concat(self, parts)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for k, x in enumerate(e.values):
            v = self.eval(x, fr)
            if k == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return v
            if not isand and t:
                return v
        return v

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return N(ONE - self.truth_poly(v), 'bool')
        if isinstance(e.op, ast.USub):
            if isinstance(v, N):
                return N(-v.p, jty(v.ty, 'int'))
            return self.M.arr_map(self, lambda p: -p, v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert) and self.is_arr(v):
            return self.M.arr_map(self, lambda p: ONE - p, v)
        raise Unsupported('unary operator')

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        return self.binop(e.op, a, b)

    def binop(self, op, a, b):
        return self.M.binop(self, op, a, b)

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = None
        for op, c in zip(e.ops, e.comparators):
            right = self.eval(c, fr)
            r = self.M.compare(self, op, left, right)
            if res is None:
                res = r
            else:
                res = N(self.truth_poly(res) * self.truth_poly(r), 'bool')
            left = right
        return res

    def e_IfExp(self, e, fr):
        if self.truth(self.eval(e.test, fr)):
            return self.eval(e.body, fr)
        return self.eval(e.orelse, fr)

    def e_Lambda(self, e, fr):
        return self.make_fn(e, fr if fr[0] == 'F' else None, fr[2] if fr[0] == 'F' else fr[1], 'lambda')

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr)

    def e_Subscript(self, e, fr):
        v = self.getitem(self.eval(e.value, fr), self.index(e.slice, fr))
        if self.from_zero and isinstance(v, N) and len(v.p.terms) > 1:
            return N(self.simplify(v.p, gfacts() + list(self.facts)), v.ty)
        return v

    def e_Slice(self, e, fr):
        return self.index(e, fr)

    def scalar(self, v):
        """The number in a 0-d array"""
        if self.zero_d and isinstance(v, Ref) and self.is_arr(v) and len(self.state(v).shape) == 0:
            return N(self.at(v), self.state(v).dtype)
        return v

    def index(self, e, fr):
        if isinstance(e, ast.Slice):
            return Sl(*[self.scalar(self.eval(x, fr)) if x is not None else None for x in (e.lower, e.upper, e.step)])
        if isinstance(e, ast.Tuple):
            return Tup([self.index(x, fr) for x in e.elts])
        return self.scalar(self.eval(e, fr))

    def e_Starred(self, e, fr):
        raise Unsupported('starred')

    def e_Call(self, e, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            return self.make_super(e, fr)
        f = self.eval(e.func, fr)
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                sv = self.eval(x.value, fr)
                it = self.concrete_items(sv)
                if it is None:
                    if isinstance(sv, Opq):
                        args.append(Opq(sv.p, 'star'))
                        continue
                    raise Unsupported('* arguments of symbolic length')
                args += it
            else:
                args.append(self.eval(x, fr))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, fr)
                if isinstance(d, Opq):
                    kw['**'] = d
                    continue
                for key, v in self.M.dict_concrete(self, d).items():
                    kw[key] = v
            else:
                kw[k.arg] = self.eval(k.value, fr)
        return self.call(f, args, kw)

    def make_super(self, e, fr):
        f = fr
        st = self.heap[f[1]]
        if e.args:
            cls = self.eval(e.args[0], fr)
            obj = self.eval(e.args[1], fr)
        else:
            cls = st.cls
            first = None
            # first argument of the enclosing method
            obj = st.vars.get('self')
        if not isinstance(cls, Cls) or obj is None:
            raise Unsupported('super')
        return Sym('super', {}, None, {'super': (cls, obj)})

    def comp(self, e, fr, gens, emit):
        """Run emit() in the scope of the generators (comprehension)"""
        oid = self.new_oid()
        self.heap[oid] = St('frame', (), vars={}, parent=fr if fr[0] == 'F' else None, mod=fr[2] if fr[0] == 'F' else fr[1], cls=None, gen=None)
        f2 = ('F', oid, fr[2] if fr[0] == 'F' else fr[1])

        def rec(k):
            if k == len(gens):
                emit(f2)
                return
            g = gens[k]
            segs = self.seq(self.eval(g.iter, fr if k == 0 else f2))

            def body(v, idx):
                self.assign(g.target, v, f2)
                for c in g.ifs:
                    if not self.truth(self.eval(c, f2)):
                        raise ContinueEx()
                rec(k + 1)
            self.loop(segs, body)
        rec(0)

    def e_ListComp(self, e, fr):
        lst = self.new_list([])
        self.comp(e, fr, e.generators, lambda f2: self.M.list_append(self, lst, self.named(self.eval(e.elt, f2))))
        return lst

    def named(self, v, size=1000):
        """
        A large expression gets a name, a function of its free variables (if
        asked for); the goals are stated on its definition
        """
        if not self.naming or not isinstance(v, N) or v.ty != 'float' or len(v.p.key) < size:
            return v
        if re.search(r'_h\d+\b', v.p.key):
            return v
        names = sorted(n for n in v.p.fv if n.startswith('_'))
        d = T.lam(names, v.p) if names else v.p
        nm = NAMED.get(d)
        if nm is None:
            nm = NAMED[d] = 'named%d' % len(NAMED)
            NAMED[nm] = (names, v.p)
        return N(app(nm, *[var(n, 'int') for n in names]), 'float')

    def e_GeneratorExp(self, e, fr):
        lst = self.e_ListComp(e, fr)
        return Seq(self.state(lst).segs, 'gen')

    def e_SetComp(self, e, fr):
        lst = self.e_ListComp(e, fr)
        return self.M.new_set(self, self.state(lst).segs)

    def e_DictComp(self, e, fr):
        d = self.M.dict_of(self, {})
        self.comp(e, fr, e.generators, lambda f2: self.setitem(d, self.eval(e.key, f2), self.eval(e.value, f2)))
        return d

    def e_Yield(self, e, fr):
        v = self.eval(e.value, fr)
        # arrays yielded may be mutated by the generator afterwards: take a copy
        if self.is_arr(v):
            v = self.M.arr_copy(self, v)
        self.M.list_append(self, self.genstack[-1], v)
        return None

    # ------------------------------------------------------------------ attributes, items

    def getattr(self, o, name):
        if isinstance(o, Poison):
            raise Unsupported(o.why)
        if isinstance(o, Mod):
            try:
                return o.get(name)
            except KeyError:
                raise PyExc('AttributeError', name)
        if isinstance(o, Sym):
            if 'super' in o.ops:
                cls, obj = o.ops['super']
                ocls = self.state(obj).cls
                # method after cls in the mro of the class of obj
                f, c = self.class_value(ocls, name, after=cls)
                if f is None:
                    raise Unsupported('super().%s' % name)
                return Bound(f, obj)
            if name in o.attrs:
                a = o.attrs[name]
                return a(self) if callable(a) and not isinstance(a, Val) else a
            if 'getattr' in o.ops:
                return o.ops['getattr'](self, name)
            raise PyExc('AttributeError', '%s.%s' % (o.name, name))
        if isinstance(o, Ref) and self.kind(o) == 'ins':
            st = self.state(o)
            d, c = self.class_attr(st.cls, name) if isinstance(st.cls, Cls) else (None, None)
            if isinstance(d, ast.FunctionDef) and self.is_property(st.cls, name):
                fn = self.property_fn(st.cls, name, 'get')
                return self.call(fn, [o])
            if name in st.attrs:
                v = st.attrs[name]
                if isinstance(v, Poison):
                    raise Unsupported(v.why)
                return v
            if d is not None:
                v, c = self.class_value(st.cls, name)
                if isinstance(v, Clo) and isinstance(d, ast.FunctionDef):
                    if any(isinstance(x, ast.Name) and x.id == 'staticmethod' for x in d.decorator_list):
                        return v
                    return Bound(v, o)
                return v
            if name == '__class__':
                return st.cls
            if name == '__dict__':
                if '__dict__' in st.attrs:
                    return st.attrs[name]
                raise Unsupported('__dict__')
            raise PyExc('AttributeError', name)
        if isinstance(o, Cls):
            v, c = self.class_value(o, name)
            if c is None:
                if name == '__name__':
                    return o.name
                raise PyExc('AttributeError', name)
            return v
        return self.M.value_attr(self, o, name)

    def property_fn(self, cls, name, what):
        for c in self.mro(cls):
            found = False
            for st in c.node.body:
                if isinstance(st, ast.FunctionDef) and st.name == name:
                    found = True
                    isset = any(isinstance(d, ast.Attribute) and d.attr == 'setter' for d in st.decorator_list)
                    if isset == (what == 'set'):
                        return self.make_fn(st, None, c.mod, c.qual + '.' + name + ('' if what == 'get' else '.setter'), c)
            if found:
                return None
        return None

    def is_property(self, cls, name):
        for c in self.mro(cls):
            for st in c.node.body:
                if isinstance(st, ast.FunctionDef) and st.name == name:
                    return any(isinstance(d, ast.Name) and d.id == 'property' or
                               isinstance(d, ast.Attribute) and d.attr == 'setter' for d in st.decorator_list)
        return False

    def setattr(self, o, name, v):
        if isinstance(o, Ref) and self.kind(o) == 'ins':
            st = self.heap[o.oid]
            if isinstance(st.cls, Cls) and self.is_property(st.cls, name):
                fn = self.property_fn(st.cls, name, 'set')
                if fn is None:
                    raise PyExc('AttributeError', name)
                self.call(fn, [o, v])
                return
            d = dict(st.attrs)
            if not self.at_self(o):
                # a member of a family: the others keep their values
                old = d.get(name)
                if type(old) is not type(v) or not isinstance(v, (N, Opq)):
                    raise Unsupported('attribute of a specific member of a family')
                g = self.guard_of(o)
                p = g * self.to_params(o, v.p) + (ONE - g) * old.p
                d[name] = N(p, jty(v.ty, old.ty)) if isinstance(v, N) else Opq(p, v.kind, v.item)
            else:
                d[name] = v
            self.heap[o.oid] = st.upd(attrs=d)
            return
        if isinstance(o, Sym) and 'setattr' in o.ops:
            return o.ops['setattr'](self, name, v)
        raise Unsupported('attribute %s of %r set' % (name, o))

    def getitem(self, o, ix):
        return self.M.getitem(self, o, ix)

    def setitem(self, o, ix, v):
        return self.M.setitem(self, o, ix, v)


NAMED = {}


def lambda_at(r, old):
    w, v = r
    return w * v + (ONE - w) * old


def unfold(p):
    """Definitions of the named expressions in p"""
    while 'named' in p.key:
        for nm in sorted(set(re.findall(r'\b(named\d+)\(', p.key))):
            names, body = NAMED[nm]
            p = replace_app(p, nm, lambda *a: T.subst(body, dict(zip(names, a))))
    return p


def replace_app(p, nm, fn):
    """Replace the applications of the function nm in p"""
    def in_poly(p):
        if nm + '(' not in p.key and nm + '~(' not in p.key:
            return p
        out = []
        for m, c in p.terms:
            if nm + '(' not in m.key and nm + '~(' not in m.key:
                out.append(Poly({m: c}))
                continue
            b, f, ph = T.open_mono(m)
            b = [(x, in_poly(y)) for x, y in b]
            body = ONE
            for a, e in f:
                body = body * T.power(in_atom(a), e)
            if ph is not None:
                body = body * T.expi(in_poly(ph))
            out.append(T.scale(T.sum_over(b, body), c))
        return T.addn(out)

    def in_atom(a):
        if nm + '(' not in a.key and nm + '~(' not in a.key:
            return T.atom_poly(a)
        if a.kind == 'A' and a.data[0] == nm:
            return fn(*[in_poly(x) for x in a.data[1]])
        if a.kind == 'A' and a.data[0] == nm + '~':
            return T.conj(fn(*[in_poly(x) for x in a.data[1]]))
        new = []
        for d in T._subs(a.kind, a.data):
            if isinstance(d, T.Lam):
                names = [T.fresh_name('_l') for _ in range(d.nvars)]
                new.append(T.lam(names, in_poly(d(*[var(x, 'int') for x in names]))))
            else:
                new.append(in_poly(d))
        return T.remake(a, new)
    return in_poly(p)
