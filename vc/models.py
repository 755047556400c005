"""
Models of the Python built-ins and of the parts of numpy, math, copy,
collections and atooms used by the package. Everything here is assumed, not
verified; the list of the names that were actually used in a run is reported in
the evidence (trusted base).
"""

import ast
from fractions import Fraction

from . import terms as T
from .terms import ZERO, ONE, cst, var, app
from . import pysym as P

USED = set()


def _P():
    return P


# ------------------------------------------------------------------ helpers

def num(v):
    """Poly of a number"""
    if isinstance(v, P.N):
        return v.p
    if isinstance(v, (int, float, complex)):
        return T.to_poly(v)
    if isinstance(v, P.Poison):
        raise P.Unsupported(v.why)
    raise P.Unsupported('number expected, got %r' % (v,))


def is_num(v):
    return isinstance(v, P.N)


def strp(v):
    """Poly identifying a string"""
    if isinstance(v, str):
        return var('str:' + v, 'obj')
    if isinstance(v, P.Opq):
        return v.p
    raise P.Unsupported('string expected')


def ident(I, v):
    """Poly identifying any value (for ghost events, comparisons)"""
    if isinstance(v, P.N):
        return v.p
    if isinstance(v, str):
        return strp(v)
    if v is None:
        return var('None', 'obj')
    if isinstance(v, P.Opq):
        return v.p
    if isinstance(v, P.Tup):
        return app('tuple', *[ident(I, x) for x in v.items], sort='obj')
    if isinstance(v, P.Ref):
        return app('ref%s' % v.oid, *v.args, sort='obj') if v.args else var('ref%s' % v.oid, 'obj')
    if isinstance(v, P.Sym):
        return app('sym:' + v.name, v.key, sort='obj') if v.key is not None else var('sym:' + v.name, 'obj')
    if isinstance(v, P.Clo):
        return var('fn:' + v.qual, 'obj')
    if isinstance(v, P.Cls):
        return var('cls:' + v.qual, 'obj')
    if isinstance(v, (P.Bi, P.Ty)):
        return var('bi:' + v.name, 'obj')
    if isinstance(v, P.Poison):
        raise P.Unsupported(v.why)
    raise P.Unsupported('identity of %r' % (v,))


def raw_add(I, ref, segs):
    """Append segments to (the member of the family) ref"""
    st = I.heap[ref.oid]
    if st.d.get('frozen'):
        I.violate_frame(ref)
    if not I.at_self(ref):
        g = I.guard_of(ref)
        segs = [P.Seg(s.binders, s.cond * g, s.value) for s in segs]
    I.heap[ref.oid] = st.upd(segs=list(st.segs) + list(segs))


def list_append(I, lst, v):
    raw_add(I, lst, [P.Seg((), ONE, v)])


def list_extend(I, lst, rhs):
    raw_add(I, lst, [P.seg_fresh(s) for s in I.seq(rhs)])


def new_set(I, segs):
    return I.alloc(P.St('set', (), segs=list(segs)))


def lt(I, p):
    """Decide p<0 (True/False) by facts or fork"""
    return I.choose(T.lt0(p))


def norm_index(I, p, n):
    """Python index -> index from 0"""
    if I.from_zero:
        return p
    c = p.const()
    if c is not None:
        return p + n if c < 0 else p
    k = I.known(T.ge0(p))
    if k is True:
        return p
    if k is False:
        return p + n
    if I.pre is None:
        return p + n * T.lt0(p)
    if I.choose(T.lt0(p)):
        return p + n
    return p


def slice_params(I, sl, n):
    """(start, length, step) of a slice of a sequence of length n"""
    st = cst(1) if sl.st is None else num(sl.st)
    sc = st.const()
    if sc is not None and sc == -1 and sl.lo is None and sl.hi is None:
        return n - 1, n, st
    if sc is None or sc < 1:
        if sc is None and I.known(T.gt0(st)) is not True:
            raise P.Unsupported('slice step')
        if sc is not None:
            raise P.Unsupported('slice step')
    lo = ZERO if sl.lo is None else num(sl.lo)
    lo = slice_bound(I, lo, n)
    if lo is ZERO and sc == 1 and sl.hi is not None and any(num(sl.hi) is x for x in I.lengths) and among_largest(I, num(sl.hi), n):
        return lo, num(sl.hi), st
    hi = n if sl.hi is None else slice_bound(I, num(sl.hi), n)
    if sc == 1:
        return lo, loc_slen(I, lo, hi, n), st
    if hi is not n:
        if I.known(T.ge0(n - hi)) is not True:
            raise P.Unsupported('slice end')
    return lo, T.cnt(lo, hi, st), st


def among_largest(I, p, n):
    """p is one of the values n is the largest of"""
    a = n.terms[0][0].factors[0][0] if len(n.terms) == 1 and len(n.terms[0][0].factors) == 1 else None
    if a is None or a.kind != 'A' or a.data[0] != 'MAX' or n is not T.atom_poly(a):
        return False
    f, count = a.data[1][:2]
    for x, _ in I.loopvars:
        k = var(x, 'int')
        if f(k) is p and I.known(T.ge0(k) * T.lt0(k - count)) is True:
            return True
    return False


def slice_bound(I, p, n):
    if I.from_zero:
        return p
    c = p.const()
    if c is not None:
        if c >= 0:
            return p
        q = n + p
        k = I.known(T.ge0(q))
        if k is True:
            return q
        if k is False:
            return ZERO
        return T.maxp(ZERO, q)
    k = I.known(T.ge0(p))
    if k is True:
        return p
    if I.choose(T.lt0(p)):
        q = n + p
        k = I.known(T.ge0(q))
        return q if k is True else T.maxp(ZERO, q)
    return p


def loc_slen(I, lo, hi, n):
    r = T.slen(lo, hi, n)
    if r.const() is not None or 'SLEN' not in r.key:
        return r
    if lo is ZERO:
        if hi is n:
            return n
        if I.known(T.ge0(n - hi)) is True:
            return hi if I.known(T.ge0(hi)) is True else r
        return r
    if I.known(T.ge0(n - lo)) is True:
        if hi is n:
            return n - lo
        if I.known(T.ge0(n - hi)) is True and I.known(T.ge0(hi - lo)) is True:
            return hi - lo
    return r


# ------------------------------------------------------------------ arrays

def ast_(I, ref):
    """State of an array, checking that the array it is a view of did not change"""
    st = I.state(ref)
    if st.kind != 'arr':
        raise P.Unsupported('array expected, got %s' % st.kind)
    b = st.d.get('base')
    if b is not None:
        oid, body = b
        cur = I.heap[oid]
        if cur.body is not body:
            raise P.Unsupported('view of an array modified afterwards')
    return st


def mk(I, shape, names, body, dtype, base=None):
    if not shape:
        return P.N(body, dtype)
    r = I.arr(shape, names, body, dtype)
    if base is not None:
        I.heap[r.oid] = I.heap[r.oid].upd(view=True, base=base)
    return r


def fresh_names(n):
    return [T.fresh_name('_x') for _ in range(n)]


def iv(names):
    return [var(n, 'int') for n in names]


def body_at(st, idx):
    return T.subst(st.body, dict(zip(st.names, idx)))


def read_at(I, st, idx):
    if st.d.get('spec') is not None:
        d = T.subst(st.D, dict(zip(st.names, idx)))
        I.oblige('%s: element read is already defined' % st.spec, d)
    return body_at(st, idx)


def arr_copy(I, v):
    st = ast_(I, v)
    return mk(I, st.shape, st.names, st.body, st.dtype)


def arr_map(I, fn, v, dtype=None):
    if is_num(v):
        return P.N(fn(v.p), dtype or v.ty)
    if I.is_list(v):
        v = asarray(I, v)
    if not I.is_arr(v):
        raise P.Unsupported('array expected: %r' % (v,))
    st = ast_(I, v)
    names = fresh_names(len(st.shape))
    return mk(I, st.shape, names, fn(read_at(I, st, iv(names)) if st.d.get('spec') is None else st.body), dtype or st.dtype)


def asarray(I, v, dtype=None):
    """Array with the elements of a (nested) list, a fresh one"""
    if isinstance(v, P.N):
        return v
    if I.is_arr(v):
        r = arr_copy(I, v)
        if dtype and not is_num(r):
            I.heap[r.oid] = I.heap[r.oid].upd(dtype=dtype)
        return r
    if isinstance(v, P.Ref) and I.kind(v) == 'set':
        raise P.Unsupported('array of a set')
    segs = I.seq(v)
    # concrete elements?
    items = None
    if all(isinstance(s, P.Seg) and not s.binders and s.cond is ONE for s in segs):
        items = [s.value for s in segs]
        k = T.fresh_name('_x')
        if not items:
            return mk(I, [ZERO], [k], ZERO, dtype or 'float')
        parts = []
        for j, it in enumerate(items):
            parts.append((T.eq0(var(k, 'int') - j), elem_of(I, it)))
        return join_parts(I, cst(len(items)), k, parts, dtype)
    k = T.fresh_name('_x')
    pos = ZERO
    parts = []
    if I.entries and any(s.cond is not ONE for s in segs) and all(isinstance(s, P.Seg) and len(s.binders) < 2 and is_num(s.value) for s in segs):
        # the k-th element of the list as an opaque function of what the list is made of
        what = []
        for s in segs:
            b, n = s.binders[0] if s.binders else (T.fresh_name('_y'), ONE)
            what += [n, T.lam(b, s.cond), T.lam(b, s.value.p)]
            pos = pos + I.seg_count(s)
        return mk(I, [pos], [k], app('ENTRY', *(what + [var(k, 'int')]), sort='int' if all(s.value.ty in ('int', 'bool') for s in segs) else 'real'),
                  dtype or segs[0].value.ty)
    for s in segs:
        if isinstance(s, P.Hav):
            raise P.Unsupported('array of a list being built')
        n = I.seg_count(s)
        if not s.binders:
            if s.cond is not ONE:
                raise P.Unsupported('array of a conditional list')
            g = T.eq0(var(k, 'int') - pos)
            val = s.value
        else:
            off = var(k, 'int') - pos
            if len(s.binders) == 2 and len(segs) == 1 and s.cond is ONE and s.binders[0][0] not in s.binders[1][1].fv:
                # row by row
                (b, _), (c, m) = s.binders
                val = P.vsubst(s.value, {b: app('idiv', off, m, sort='int'), c: app('imod', off, m, sort='int')})
                parts.append((ONE, elem_of(I, val)))
                pos = n
                continue
            if len(s.binders) != 1:
                raise P.Unsupported('array of a nested sequence')
            b, bound = s.binders[0]
            g = ONE if len(segs) == 1 else T.ge0(off) * T.lt0(off - n)
            val = P.vsubst(s.value, {b: off if s.cond is ONE else T.sel(bound, T.lam(b, s.cond), off)})
        parts.append((g, elem_of(I, val)))
        pos = pos + n
    if not parts:
        return mk(I, [ZERO], [k], ZERO, dtype or 'float')
    return join_parts(I, pos, k, parts, dtype)


def elem_of(I, v):
    """(shape, names, body, dtype) of an element of a list to be packed in an array"""
    if isinstance(v, P.N):
        return ((), (), v.p, v.ty)
    if I.is_arr(v):
        st = ast_(I, v)
        return (st.shape, st.names, st.body, st.dtype)
    if I.is_list(v) or isinstance(v, (P.Tup, P.Seq)):
        r = asarray(I, v)
        st = I.state(r)
        return (st.shape, st.names, st.body, st.dtype)
    if isinstance(v, P.Poison):
        raise P.Unsupported(v.why)
    raise P.Unsupported('array of %r' % (v,))


def join_parts(I, n, k, parts, dtype):
    sh, nm, _, dt = parts[0][1]
    names = fresh_names(len(sh))
    body = ZERO
    dt = 'bool'
    for g, (s2, n2, b2, d2) in parts:
        if len(s2) != len(sh):
            raise P.Unsupported('ragged array')
        for x, y in zip(s2, sh):
            if x is not y and I.known(T.eq0(x - y)) is not True:
                raise P.Unsupported('ragged array')
        body = body + g * T.subst(b2, {a: var(b, 'int') for a, b in zip(n2, names)})
        dt = P.jty(dt, d2)
    for x in sh:
        if k in x.fv:
            raise P.Unsupported('ragged array')
    return mk(I, [n] + list(sh), [k] + names, body, dtype or dt)


def arr_index(I, ref, idx):
    """ref[idx]; idx: list of index values"""
    st = ast_(I, ref)
    nd = len(st.shape)
    nreal = sum(1 for x in idx if x is not Ellipsis and x is not None)
    if Ellipsis in [x for x in idx if x is Ellipsis]:
        j = [k for k, x in enumerate(idx) if x is Ellipsis][0]
        idx = idx[:j] + [P.Sl(None, None, None)] * (nd - nreal) + idx[j+1:]
    else:
        idx = idx + [P.Sl(None, None, None)] * (nd - nreal)
    if nreal > nd:
        raise P.PyExc('IndexError', 'too many indices')
    # boolean mask on the first axis (or whole 1d array)
    fancy = [k for k, x in enumerate(idx) if isinstance(x, P.Ref) or isinstance(x, P.Seq)]
    if fancy:
        return fancy_index(I, st, idx, fancy)
    shape, names, at = [], [], []
    d = 0
    basic = True
    for x in idx:
        if x is None:
            shape.append(ONE)
            names.append(T.fresh_name('_x'))
            continue
        n = st.shape[d]
        if isinstance(x, P.Sl):
            lo, ln, stp = slice_params(I, x, n)
            nm = T.fresh_name('_x')
            names.append(nm)
            shape.append(ln)
            at.append(lo + stp * var(nm, 'int'))
        else:
            p = norm_index(I, num(x), n)
            check_index(I, p, n)
            at.append(p)
        d += 1
    base = (ref.oid, I.heap[ref.oid].body)
    b = read_at(I, st, at)
    return mk(I, shape, names, b, st.dtype, base=base)


def check_index(I, p, n):
    """An index that can never be valid raises"""
    c = (p - n).const()
    if c is not None and c >= 0:
        raise P.PyExc('IndexError', 'index out of bounds')


def fancy_index(I, st, idx, fancy):
    if len(fancy) != 1:
        raise P.Unsupported('several index arrays')
    k = fancy[0]
    ix = idx[k]
    a = ix if I.is_arr(ix) else asarray(I, ix)
    ast = ast_(I, a)
    if len(ast.shape) != 1:
        raise P.Unsupported('multi-dimensional index array')
    for j, x in enumerate(idx):
        if j != k and not (isinstance(x, P.Sl) and x.lo is None and x.hi is None and x.st is None):
            raise P.Unsupported('mixed index')
    names = fresh_names(len(st.shape))
    at = iv(names)
    shape = list(st.shape)
    if ast.dtype == 'bool':
        n = ast.shape[0]
        b = T.fresh_name('_v')
        cond = body_at(ast, [var(b, 'int')])
        cnt = T.mk_sum(b, n, cond)
        shape[k] = cnt
        at[k] = T.sel(n, T.lam(b, cond), at[k])
    else:
        shape[k] = ast.shape[0]
        p = body_at(ast, [at[k]])
        at[k] = p
    return mk(I, shape, names, read_at(I, st, at), st.dtype)


def broadcast(I, shapes):
    """Common shape of shapes, by trailing axes"""
    nd = max(len(s) for s in shapes)
    out = []
    for k in range(nd):
        d = None
        for s in shapes:
            j = k - (nd - len(s))
            if j < 0:
                continue
            x = s[j]
            if d is None or d.const() == 1:
                d = x
            elif x is d or x.const() == 1:
                pass
            elif I.known(T.eq0(x - d)) is True:
                pass
            else:
                raise P.Unsupported('shapes %s and %s' % (x, d))
        out.append(d)
    return out


def pick(st, shape, names):
    """Element of st broadcast to shape at names"""
    if isinstance(st, P.N):
        return st.p
    nd = len(shape)
    at = []
    for j, x in enumerate(st.shape):
        k = nd - len(st.shape) + j
        if x.const() == 1 and shape[k].const() != 1:
            at.append(ZERO)
        else:
            at.append(var(names[k], 'int'))
    return body_at(st, at)


def bmap(I, fn, args, dtype):
    """Elementwise operation with broadcasting"""
    if all(is_num(a) for a in args):
        return P.N(fn(*[a.p for a in args]), dtype)
    sts = []
    for a in args:
        if is_num(a):
            sts.append(a)
        else:
            if not I.is_arr(a):
                a = asarray(I, a)
            sts.append(ast_(I, a))
    for s in sts:
        if not is_num(s) and s.d.get('spec') is not None:
            raise P.Unsupported('whole spec array read')
    shape = broadcast(I, [s.shape for s in sts if not is_num(s)])
    names = fresh_names(len(shape))
    return mk(I, shape, names, fn(*[pick(s, shape, names) for s in sts]), dtype)


def dtype_of(I, v):
    if is_num(v):
        return v.ty
    return I.state(v).dtype


def sum_rows(I, v):
    """Sum of a list of arrays of the same shape, in whatever order they are listed"""
    segs = I.seq(v)
    if not segs or not all(isinstance(s, P.Seg) and isinstance(s.value, P.Ref) and I.is_arr(s.value) for s in segs):
        return None
    sts = [I.state(s.value) for s in segs]
    bound = {b for s in segs for b, _ in s.binders}
    sh = sts[0].shape
    if not sh or any(len(s.shape) != len(sh) or not all(x is y for x, y in zip(s.shape, sh)) for s in sts) or any(bound & set(x.fv) for x in sh):
        return None
    names = fresh_names(len(sh))
    body = T.addn([T.sum_over(list(s.binders), s.cond * T.subst(st.body, dict(zip(st.names, iv(names))))) for s, st in zip(segs, sts)])
    ty = 'int' if sts[0].dtype == 'bool' else sts[0].dtype
    return mk(I, list(sh), names, body, ty)


def reduce_sum(I, v, axis=None):
    if is_num(v):
        return v
    if not I.is_arr(v):
        if axis is not None and num(axis) is ZERO:
            r = sum_rows(I, v)
            if r is not None:
                return r
        v = asarray(I, v)
    st = ast_(I, v)
    ty = 'int' if st.dtype == 'bool' else st.dtype
    nd = len(st.shape)
    if axis is None:
        axes = list(range(nd))
    else:
        a = int(num(axis).const())
        axes = [a % nd]
    names = fresh_names(nd)
    body = T.subst(st.body, dict(zip(st.names, iv(names))))
    body = T.sum_over([(names[k], st.shape[k]) for k in axes], body)
    keep = [k for k in range(nd) if k not in axes]
    return mk(I, [st.shape[k] for k in keep], [names[k] for k in keep], body, ty)


def size_of(I, v, axis=None):
    if not I.is_arr(v):
        v = asarray(I, v)
    st = I.state(v)
    if axis is None:
        p = ONE
        for s in st.shape:
            p = p * s
        return p
    return st.shape[int(num(axis).const()) % len(st.shape)]


def mean(I, v, axis=None):
    if is_num(v):
        return P.N(v.p, 'float')
    if not I.is_arr(v):
        v = asarray(I, v)
    n = size_of(I, v, axis)
    s = reduce_sum(I, v, axis)
    return binop(I, ast.Div(), s, P.N(n, 'int'))


# ------------------------------------------------------------------ binary operators

def opname(op):
    return type(op).__name__


def res_type(nm, a, b):
    if nm == 'Div':
        return 'complex' if 'complex' in (a, b) else 'float'
    t = P.jty(a, b)
    if t == 'bool' and nm in ('Add', 'Sub', 'Mult', 'Pow', 'FloorDiv', 'Mod'):
        return 'int'
    return t


def scalar_op(I, nm, a, b):
    if nm == 'Add':
        return a + b
    if nm == 'Sub':
        return a - b
    if nm == 'Mult':
        return a * b
    if nm == 'Div':
        if b is ZERO:
            raise P.PyExc('ZeroDivisionError')
        return a * T.inv(b)
    if nm == 'FloorDiv':
        if b is ZERO:
            raise P.PyExc('ZeroDivisionError')
        return T.floor(a * T.inv(b))
    if nm == 'Mod':
        return a - b * T.floor(a * T.inv(b))
    if nm == 'Pow':
        return T.power(a, b)
    if nm == 'BitAnd':
        return a * b
    if nm == 'BitOr':
        return a + b - a * b
    raise P.Unsupported('operator %s' % nm)


def binop(I, op, a, b):
    nm = opname(op)
    if isinstance(a, P.Poison) or isinstance(b, P.Poison):
        raise P.Unsupported((a if isinstance(a, P.Poison) else b).why)
    if is_num(a) and is_num(b):
        return P.N(scalar_op(I, nm, a.p, b.p), res_type(nm, a.ty, b.ty))
    isstr = lambda v: isinstance(v, str) or (isinstance(v, P.Opq) and v.kind == 'str')
    if isstr(a):
        if nm == 'Add' and isstr(b):
            return str_concat(I, [a, b])
        if nm == 'Mod':
            args = list(b.items) if isinstance(b, P.Tup) else [b]
            return percent(I, a, args)
        if nm == 'Mult' and isinstance(a, str) and is_num(b) and b.p.const() is not None:
            return a * int(b.p.const())
        raise P.Unsupported('string operator')
    listy = lambda v: I.is_list(v)
    if nm == 'Add' and listy(a) and (listy(b)):
        return I.new_list([P.seg_fresh(s) for s in I.seq(a)] + [P.seg_fresh(s) for s in I.seq(b)])
    if nm == 'Add' and isinstance(a, P.Tup) and isinstance(b, P.Tup):
        return P.Tup(a.items + b.items)
    if nm == 'Mult' and listy(b) and is_num(a):
        a, b = b, a
    if nm == 'Mult' and listy(a) and is_num(b):
        n = b.p
        segs = I.seq(a)
        if n.const() is not None and n.const() <= P.UNROLL:
            return I.new_list([P.seg_fresh(s) for _ in range(int(n.const())) for s in segs])
        k = T.fresh_name('_v')
        return I.new_list([P.Seg(((k, n),) + P.seg_fresh(s).binders, P.ONE, s.value) if not s.binders else
                           (lambda f: P.Seg(((k, n),) + f.binders, f.cond, f.value))(P.seg_fresh(s)) for s in segs]) \
            if len(segs) == 1 else _unsup('repetition of a list')
    arrs = (I.is_arr(a) or is_num(a) or listy(a)) and (I.is_arr(b) or is_num(b) or listy(b))
    if arrs and (I.is_arr(a) or I.is_arr(b)):
        ty = res_type(nm, dtype_of(I, a if not listy(a) else asarray(I, a)), dtype_of(I, b if not listy(b) else asarray(I, b)))
        return bmap(I, lambda x, y: scalar_op(I, nm, x, y), [a, b], ty)
    if isinstance(a, P.Sym) and 'binop' in a.ops:
        return a.ops['binop'](I, nm, b)
    raise P.Unsupported('%s of %r and %r' % (nm, a, b))


def _unsup(msg):
    raise P.Unsupported(msg)


# ------------------------------------------------------------------ comparisons

def eq_values(I, a, b):
    """Indicator of a == b (scalars, strings, tuples, opaque)"""
    if isinstance(a, P.Poison) or isinstance(b, P.Poison):
        raise P.Unsupported('comparison of poisoned values')
    if a is None or b is None:
        return ONE if a is b else ZERO
    if is_num(a) and is_num(b):
        return T.eq0(inj(I, a.p - b.p, a.p, b.p))
    if isinstance(a, str) and isinstance(b, str):
        return ONE if a == b else ZERO
    if isinstance(a, P.Tup) and isinstance(b, P.Tup):
        if len(a.items) != len(b.items):
            return ZERO
        r = ONE
        for x, y in zip(a.items, b.items):
            r = r * eq_values(I, x, y)
        return r
    so = lambda v: isinstance(v, str) or isinstance(v, P.Opq)
    if so(a) and so(b):
        p, q = strp(a), strp(b)
        return T.eq0(inj(I, p - q, p, q))
    if is_num(a) and (so(b) or isinstance(b, P.Tup)):
        if isinstance(b, P.Opq) and b.kind == 'any':
            return T.eq0(a.p - b.p)
        return ZERO
    if is_num(b) and (so(a) or isinstance(a, P.Tup)):
        return eq_values(I, b, a)
    if isinstance(a, P.Tup) or isinstance(b, P.Tup):
        return ZERO
    if isinstance(a, P.Sl) and isinstance(b, P.Sl):
        r = ONE
        for f in ('lo', 'hi', 'st'):
            r = r * eq_values(I, getattr(a, f), getattr(b, f))
        return r
    if isinstance(a, P.Ref) and isinstance(b, P.Ref) and I.kind(a) == I.kind(b) == 'list':
        ia, ib = I.concrete_items(a), I.concrete_items(b)
        if ia is not None and ib is not None:
            if len(ia) != len(ib):
                return ZERO
            r = ONE
            for x, y in zip(ia, ib):
                r = r * eq_values(I, x, y)
            return r
        # symbolic lists of numbers
        if all(len(s) == 1 and len(s[0].binders) == 1 and s[0].cond is ONE and is_num(s[0].value) for s in (I.seq(a), I.seq(b))):
            sa, sb = I.seq(a)[0], I.seq(b)[0]
            k = T.fresh_name('_v')
            va = T.subst(sa.value.p, {sa.binders[0][0]: var(k, 'int')})
            vb = T.subst(sb.value.p, {sb.binders[0][0]: var(k, 'int')})
            if va is vb and sa.binders[0][1] is sb.binders[0][1]:
                return ONE
            return T.eq0(sa.binders[0][1] - sb.binders[0][1]) * P.noex(T.lam(k, ONE - T.eq0(va - vb)), sa.binders[0][1])
    if isinstance(a, P.Ref) != isinstance(b, P.Ref):
        return ZERO
    raise P.Unsupported('comparison of %r and %r' % (a, b))


def inj(I, d, p, q):
    """Injective functions: f(i)-f(j) -> i-j"""
    js = getattr(I, 'injective', None)
    if not js:
        return d

    def single(p):
        if len(p.terms) == 1 and p.terms[0][1] == 1:
            m = p.terms[0][0]
            if not m.binders and m.phase is None and len(m.factors) == 1 and m.factors[0][1] == 1:
                return m.factors[0][0]
        return None
    a, b = single(p), single(q)
    if a is not None and b is not None and a.kind == 'A' and b.kind == 'A' and a.data[0] == b.data[0] and a.data[0] in js:
        return a.data[1][0] - b.data[1][0]
    return d


def is_values(I, a, b):
    if a is None or b is None:
        return ONE if a is b else ZERO
    if isinstance(a, P.Ref) and isinstance(b, P.Ref):
        if a.oid != b.oid:
            return ZERO
        r = ONE
        for x, y in zip(a.args, b.args):
            r = r * T.eq0(x - y)
        return r
    if isinstance(a, P.Ref) or isinstance(b, P.Ref):
        return ZERO
    if is_num(a) and is_num(b) and a.ty == b.ty == 'bool':
        return T.eq0(a.p - b.p)
    if isinstance(a, (P.Sym, P.Opq, P.Clo, P.Cls, P.Ty)):
        if type(a) is not type(b):
            return ZERO
        if P.veq_syn(a, b):
            return ONE
        if isinstance(a, P.Ty):
            return ONE if a.name == b.name else ZERO
        if isinstance(a, P.Opq):
            return T.eq0(a.p - b.p)
        if isinstance(a, P.Sym) and a.name == b.name and a.key is not None:
            return T.eq0(a.key - b.key)
        if isinstance(a, (P.Clo, P.Cls)):
            return ZERO
        return ZERO
    if isinstance(a, str) and isinstance(b, str):
        return ONE if a == b else ZERO
    raise P.Unsupported('identity of %r and %r' % (a, b))


def contains(I, x, s):
    """Indicator of x in s"""
    if isinstance(s, P.Ref) and I.kind(s) == 'dict':
        return dict_has(I, s, x)
    if isinstance(s, P.Seq) and isinstance(s.origin, tuple) and s.origin[0] == 'keys':
        return dict_has(I, s.origin[1], x)
    if isinstance(s, str):
        if isinstance(x, str):
            return ONE if x in s else ZERO
        return T.boolatom('substr', strp(x), strp(s))
    if isinstance(s, P.Opq) and s.kind == 'str':
        return T.boolatom('substr', strp(x), s.p)
    if isinstance(s, P.Sym) and 'contains' in s.ops:
        return s.ops['contains'](I, x)
    it = I.concrete_items(s)
    if it is not None:
        r = ONE
        for y in it:
            r = r * (ONE - eq_values(I, x, y))
        return ONE - r
    segs = I.seq(s)
    if all(len(g.binders) <= 1 for g in segs):
        r = ONE
        for g in segs:
            e = g.cond * eq_values(I, x, g.value)
            if g.binders:
                r = r * P.noex(T.lam(g.binders[0][0], e), g.binders[0][1])
            else:
                r = r * (ONE - e)
        return ONE - r
    raise P.Unsupported('membership in %r' % (s,))


CMP = {'Lt': lambda d: T.lt0(d), 'LtE': lambda d: T.le0(d), 'Gt': lambda d: T.gt0(d),
       'GtE': lambda d: T.ge0(d), 'Eq': lambda d: T.eq0(d), 'NotEq': lambda d: ONE - T.eq0(d)}


def compare(I, op, a, b):
    nm = opname(op)
    if nm == 'Is':
        return P.N(is_values(I, a, b), 'bool')
    if nm == 'IsNot':
        return P.N(ONE - is_values(I, a, b), 'bool')
    if nm == 'In':
        return P.N(contains(I, a, b), 'bool')
    if nm == 'NotIn':
        return P.N(ONE - contains(I, a, b), 'bool')
    if is_num(a) and is_num(b):
        if nm in ('Eq', 'NotEq'):
            e = eq_values(I, a, b)
            return P.N(e if nm == 'Eq' else ONE - e, 'bool')
        return P.N(CMP[nm](a.p - b.p), 'bool')
    if I.is_arr(a) or I.is_arr(b):
        return bmap(I, lambda x, y: CMP[nm](x - y), [a, b], 'bool')
    if isinstance(a, P.Sym) and 'cmp' in a.ops:
        return P.N(a.ops['cmp'](I, nm, b), 'bool')
    if nm in ('Eq', 'NotEq'):
        e = eq_values(I, a, b)
        return P.N(e if nm == 'Eq' else ONE - e, 'bool')
    if isinstance(a, str) and isinstance(b, str):
        return P.N({'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[nm])
    raise P.Unsupported('comparison %s of %r and %r' % (nm, a, b))


# ------------------------------------------------------------------ strings

def to_str(I, v):
    if isinstance(v, str):
        return v
    if isinstance(v, P.Opq) and v.kind == 'str':
        return v
    if is_num(v) and v.ty == 'int' and v.p.const() is not None:
        return str(int(v.p.const()))
    if is_num(v) and v.ty == 'bool' and v.p.const() is not None:
        return str(bool(v.p.const()))
    if v is None:
        return 'None'
    return P.Opq(app('str', ident(I, v), sort='obj'), 'str')


def str_concat(I, parts):
    out = []
    for x in parts:
        if isinstance(x, str):
            if not x:
                continue
            if out and isinstance(out[-1], str):
                out[-1] = out[-1] + x
                continue
        elif isinstance(x, P.Opq):
            m = x.p.terms[0][0] if len(x.p.terms) == 1 else None
            if m is not None and len(m.factors) == 1 and m.factors[0][0].kind == 'A' and m.factors[0][0].data[0] == 'cat':
                # flatten
                fl = []
                for y in m.factors[0][0].data[1]:
                    fl.append(from_strp(y))
                for y in fl:
                    if isinstance(y, str) and out and isinstance(out[-1], str):
                        out[-1] += y
                    else:
                        out.append(y)
                continue
        out.append(x)
    if not out:
        return ''
    if len(out) == 1:
        return out[0]
    return P.Opq(app('cat', *[strp(x) for x in out], sort='obj'), 'str')


def from_strp(p):
    if len(p.terms) == 1:
        m = p.terms[0][0]
        if len(m.factors) == 1:
            a = m.factors[0][0]
            if a.kind == 'V' and a.data.startswith('str:'):
                return a.data[4:]
    return P.Opq(p, 'str')


def fmt_opaque(I, fmt, vals):
    return P.Opq(app('format', strp(fmt), *[ident(I, v) for v in vals], sort='obj'), 'str')


def percent(I, f, args):
    """f % args with %s and %d, opaque otherwise"""
    if not isinstance(f, str):
        return fmt_opaque(I, f, args)
    import re
    parts = re.split(r'(%[^%a-zA-Z]*[%a-zA-Z])', f)
    out = []
    args = list(args)
    for x in parts:
        if x.startswith('%') and len(x) > 1:
            if x == '%%':
                out.append('%')
                continue
            if not args:
                raise P.PyExc('TypeError', 'not enough arguments for format string')
            v = args.pop(0)
            if x == '%s' or (x == '%d' and is_num(v) and v.ty == 'int'):
                out.append(to_str(I, v))
            else:
                out.append(fmt_opaque(I, x, [v]))
        else:
            out.append(x)
    if args:
        raise P.PyExc('TypeError', 'not all arguments converted')
    return str_concat(I, out)


def str_format(I, f, args, kw):
    if not isinstance(f, str):
        vals = list(args) + [kw[k] for k in sorted(kw)]
        return fmt_opaque(I, f, vals + [('|'.join(sorted(kw)))])
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(f):
        if lit:
            out.append(lit)
        if field is None:
            continue
        name = field
        rest = ''
        for k, c in enumerate(field):
            if c in '.[':
                name, rest = field[:k], field[k:]
                break
        if name == '':
            if auto >= len(args):
                raise P.PyExc('IndexError', 'format')
            v = args[auto]
            auto += 1
        elif name.isdigit():
            v = args[int(name)]
        else:
            if name not in kw:
                raise P.PyExc('KeyError', name)
            v = kw[name]
        while rest:
            if rest[0] != '.':
                raise P.Unsupported('format')
            j = rest.find('.', 1)
            a = rest[1:] if j < 0 else rest[1:j]
            rest = '' if j < 0 else rest[j:]
            v = I.getattr(v, a)
        if spec or conv:
            out.append(fmt_opaque(I, '{:%s}' % spec, [v]))
        else:
            out.append(to_str(I, v))
    return str_concat(I, out)


# ------------------------------------------------------------------ dictionaries

def dict_of(I, d):
    segs = [P.Seg((), ONE, P.KV(k, v, 'set')) for k, v in d.items()]
    return I.alloc(P.St('dict', (), segs=segs, default=None))


def dict_concrete(I, v):
    """python dict str -> value of a dictionary with constant keys"""
    st = I.state(v)
    out = {}
    for s in st.segs:
        if isinstance(s, P.Hav) or s.binders or s.cond is not ONE or not isinstance(s.value.key, str):
            raise P.Unsupported('dictionary with symbolic keys')
        out[s.value.key] = s.value.value
    return out


def key_polys(key):
    if isinstance(key, P.Tup):
        out = []
        for x in key.items:
            out += key_polys(x)
        return out
    if isinstance(key, P.N):
        return [key.p]
    if isinstance(key, str):
        return [strp(key)]
    if isinstance(key, P.Opq):
        return [key.p]
    if key is None:
        return [var('None', 'obj')]
    raise P.Unsupported('dictionary key %r' % (key,))


def hav_seg(st):
    return st.segs[0] if st.segs and isinstance(st.segs[0], P.Hav) else None


def dict_has(I, ref, key):
    st = I.state(ref)
    r = ONE
    for s in st.segs:
        if isinstance(s, P.Hav):
            r = r * (ONE - T.boolatom('MEM' + s.name, *(list(ref.args) + key_polys(key))))
            continue
        e = s.cond * eq_values(I, key, s.value.key)
        if s.binders:
            r = r * noex_seg(s.binders, e)
        else:
            r = r * (ONE - e)
    return ONE - r


def noex_seg(binders, e):
    if e is ZERO:
        return ONE
    if len(binders) == 1:
        return P.noex(T.lam(binders[0][0], e), binders[0][1])
    return T.eq0(T.sum_over(list(binders), e))


def solve_binders(binders, e):
    """
    If the indicator e (a single monomial) contains equations determining all
    the binders, return env binder -> poly
    """
    names = [b for b, _ in binders]
    env = {}
    if len(e.terms) != 1:
        return None
    m, c = e.terms[0]
    if m.binders:
        return None
    left = list(names)
    prog = True
    facs = [a for a, k in m.factors if a.kind == 'EQ']
    while left and prog:
        prog = False
        for a in facs:
            p = T.subst(a.data[0], env)
            vs = [n for n in left if n in p.fv]
            if len(vs) == 1:
                s = T._split_linear(p, vs[0])
                if s is not None:
                    k, r = s
                    # p = k*v + r = 0
                    kc = k.const() if hasattr(k, 'const') else Fraction(k)
                    if kc in (1, -1):
                        env[vs[0]] = T.scale(r, -1 / Fraction(kc))
                        left.remove(vs[0])
                        prog = True
                        break
    return env if not left else None


def dict_get(I, ref, key, default=P.PARTIAL):
    """Value of a key"""
    st = I.state(ref)
    # 1. accumulating dictionaries
    if any((isinstance(s, P.Seg) and s.value.mode == 'acc') or (isinstance(s, P.Hav) and st.d.get('default') in ('float', 'int'))
           for s in st.segs) or (not st.segs and st.d.get('default') in ('float', 'int')):
        tot = ZERO
        ty = st.d.get('default') or 'float'
        for s in st.segs:
            if isinstance(s, P.Hav):
                tot = tot + app('DGET' + s.name, *(list(ref.args) + key_polys(key)))
                continue
            if s.value.mode != 'acc':
                raise P.Unsupported('dictionary with mixed entries')
            e = s.cond * eq_values(I, key, s.value.key)
            tot = tot + T.sum_over(list(s.binders), e * num(s.value.value))
            ty = P.jty(ty, s.value.value.ty)
        if ty == 'bool':
            ty = 'int'
        return P.N(tot, ty)
    # 2. plain entries, the last one wins
    conds = []
    for s in reversed(st.segs):
        if isinstance(s, P.Hav):
            if st.d.get('default') == 'list':
                raise P.Unsupported('dictionary of lists under construction')
            hv = app('DGET' + s.name, *(list(ref.args) + key_polys(key)))
            raise P.Unsupported('dictionary under construction read')
        e = s.cond * eq_values(I, key, s.value.key)
        if e is ZERO:
            continue
        if not s.binders:
            if e is ONE:
                return s.value.value
            if I.choose(e):
                return s.value.value
            continue
        env = None
        eqc = eq_values(I, key, s.value.key)
        env = solve_binders(s.binders, eqc)
        if env is not None:
            rng = ONE
            for b, n in s.binders:
                n2 = T.subst(n, env)
                rng = rng * T.ge0(env[b]) * T.lt0(env[b] - n2)
            ok = rng * T.subst(s.cond, env) * T.subst(eqc, env)
            k = I.known(ok)
            if k is None:
                k = I.choose(ok)
            if k:
                return P.vsubst(s.value.value, env)
            continue
        # an entry that the key determines, wherever it has been set
        env = witness(I, s, key)
        if env is not None:
            return P.vsubst(s.value.value, env)
        # unique entry among many: value by selection
        if isinstance(s.value.value, P.N) and s.value.mode in ('first', 'set') and len(s.binders) == 1:
            raise P.Unsupported('dictionary lookup')
        return lookup_select(I, s, e, key)
    if default is not P.PARTIAL:
        return default
    raise P.PyExc('KeyError', '%r' % (key,))


def witness(I, s, key):
    """
    Values of the binders of the segment at which an entry with this key has
    been set, if the value is a function of the key
    """
    a, b = key_polys(s.value.key), key_polys(key)
    if len(a) != len(b):
        return None
    names = set(n for n, _ in s.binders)
    env = {}
    comps = {}
    if len(s.cond.terms) == 1 and not s.cond.terms[0][0].binders:
        for at, e in s.cond.terms[0][0].factors:
            if at.kind == 'EQ':
                for n in sorted(names - set(env)):
                    sp = T._split_linear(at.data[0], n) if n in at.data[0].fv else None
                    if sp is not None and sp[0] in (1, -1) and not sp[1].fv & names:
                        env[n] = T.scale(sp[1], -1 / sp[0])
                        break
    given = dict(env)
    for k, (x, y) in enumerate(zip(a, b)):
        if not unify(x, y, names, env):
            return None
        if x.fv & names:
            at = T.single_atom(x)
            if at is None:
                return None
            comps[at] = y
    if set(env) != names:
        return None
    ok = T.subst(s.cond, env)
    for n, hi in s.binders:
        ok = ok * T.ge0(env[n]) * T.lt0(env[n] - T.subst(hi, env))
    if I.known(ok) is not True:
        return None
    # all the entries with this key have the same value
    v = P.vsubst(P.vsubst_atoms(s.value.value, comps), given)
    free = set()
    P.vfree(v, free)
    return None if free & names else env


def unify(x, y, names, env):
    """Extend env (binder -> poly) so that x becomes y"""
    if not x.fv & names:
        return x is y
    v = T.single_atom(x)
    if v is not None and v.kind == 'V':
        if v.data in env:
            return env[v.data] is y
        env[v.data] = y
        return True
    if v is None or v.kind != 'A':
        return False
    u = T.single_atom(y)
    if u is None or u.kind != 'A' or u.data[0] != v.data[0] or len(u.data[1]) != len(v.data[1]):
        return False
    return all(isinstance(p, T.Poly) and isinstance(q, T.Poly) and unify(p, q, names, env) for p, q in zip(v.data[1], u.data[1]))


def lookup_select(I, s, e, key):
    """
    Entry selected by an equation on the keys that cannot be solved: the first
    (mode first) in the order of the segment is described by a FIRST atom
    """
    if s.value.mode != 'first':
        raise P.Unsupported('dictionary lookup')
    env = {}
    names = [b for b, _ in s.binders]
    h = T.lam(names, e)
    for k, n in enumerate(names):
        env[n] = app('FIRST%d' % k, h, *[T.lam(names, b) if b.fv & set(names) else b for _, b in s.binders], sort='int')
    I.assumed.add('dictionary lookup of a key in the dictionary')
    return P.vsubst(s.value.value, env)


def dict_set(I, ref, key, v):
    st = I.state(ref)
    raw = I.heap[ref.oid]
    if isinstance(v, P.N) and st.d.get('default') in ('float', 'int'):
        cur = dict_get(I, ref, key)
        d = v.p - cur.p
        if 'DGET' not in d.key:
            raw_add(I, ref, [P.Seg((), ONE, P.KV(key, P.N(d, v.ty), 'acc'))])
            return
        raise P.Unsupported('accumulating dictionary overwritten')
    # replace a concrete key
    segs = list(raw.segs)
    if I.at_self(ref) and not any(isinstance(s, P.Hav) for s in segs) and not key_free(key):
        for k, s in enumerate(segs):
            if not s.binders and s.cond is ONE:
                e = eq_values(I, s.value.key, key)
                if e is ONE:
                    segs[k] = P.Seg((), ONE, P.KV(key, v, 'set'))
                    I.heap[ref.oid] = raw.upd(segs=segs)
                    return
    raw_add(I, ref, [P.Seg((), ONE, P.KV(key, v, 'set'))])


def key_free(key):
    out = set()
    P.vfree(key, out)
    return any(n.startswith('_') for n in out)


def dict_mult(I, ref):
    """Multiplicity of the keys: Lam over a single numeric key"""
    st = I.state(ref)
    k = T.fresh_name('_k')
    tot = ZERO
    for s in st.segs:
        if isinstance(s, P.Hav):
            raise P.Unsupported('keys of a dictionary under construction')
        tot = tot + T.sum_over(list(s.binders), s.cond * T.eq0(num(s.value.key) - var(k, 'int')))
    return T.lam(k, tot)


def dict_keys(I, v):
    st = I.state(v)
    if all(isinstance(s, P.Seg) and not s.binders and s.cond is ONE for s in st.segs):
        # distinct concrete keys
        return [P.Seg((), ONE, s.value.key) for s in dedup(I, st.segs)]
    if any(isinstance(s, P.Hav) for s in st.segs):
        raise P.Unsupported('keys of a dictionary under construction')
    if distinct_keys(I, st.segs):
        # the order of insertion is not that of the segments when there are several of them
        I.assumed.update(['order of the keys of a dictionary'] if len(st.segs) > 1 else [])
        return [P.Seg(s.binders, s.cond, s.value.key) for s in map(P.seg_fresh, st.segs)]
    l = dict_mult(I, v)
    j = T.fresh_name('_v')
    # unspecified order
    return [P.Seg([(j, T.nsk(l))], ONE, P.N(app('KEY', l, var(j, 'int'), sort='int'), 'int'))]


def dedup(I, segs):
    out = []
    for s in segs:
        for k, o in enumerate(out):
            e = eq_values(I, o.value.key, s.value.key)
            if e is ONE:
                out[k] = P.Seg((), ONE, P.KV(o.value.key, s.value.value, s.value.mode))
                break
            if e is not ZERO and I.known(e) is not False:
                raise P.Unsupported('keys possibly equal')
        else:
            out.append(s)
    return out


def distinct_keys(I, segs):
    """Are all the keys of the segments distinct? (the key determines the binders, exclusive segments)"""
    if not segs or not all(isinstance(s, P.Seg) and s.binders for s in segs):
        return False
    for k, s in enumerate(segs):
        for l, t in enumerate(segs[:k + 1]):
            f = P.seg_fresh(t)
            e = eq_values(I, s.value.key, f.value.key)
            if e is ZERO:
                continue
            env = solve_binders(f.binders, e)
            if env is None:
                return False
            if k == l:
                if not all(env[b] is var(a, 'int') for (b, _), (a, _) in zip(f.binders, s.binders)):
                    return False
            elif s.cond * T.subst(f.cond, env) is not ZERO:
                return False
    return True


def dict_entries(I, ref, what):
    st = I.state(ref)
    f = {'values': lambda s: s.value.value, 'items': lambda s: P.Tup([s.value.key, s.value.value]), 'keys': lambda s: s.value.key}[what]
    if all(isinstance(s, P.Seg) and not s.binders and s.cond is ONE for s in st.segs):
        return P.Seq([P.Seg((), ONE, f(s)) for s in dedup(I, st.segs)], ('keys', ref) if what == 'keys' else None)
    if any(isinstance(s, P.Hav) for s in st.segs):
        raise P.Unsupported('entries of a dictionary under construction')
    if distinct_keys(I, st.segs):
        return P.Seq([P.Seg(s.binders, s.cond, f(s)) for s in map(P.seg_fresh, st.segs)], ('keys', ref) if what == 'keys' else None)
    if what == 'keys':
        return P.Seq(dict_keys(I, ref), ('keys', ref))
    raise P.Unsupported('%s of a dictionary' % what)


def dict_len(I, v):
    st = I.state(v)
    if all(isinstance(s, P.Seg) and not s.binders and s.cond is ONE for s in st.segs):
        return cst(len(dedup(I, st.segs)))
    if distinct_keys(I, st.segs):
        return T.addn([I.seg_count(s) for s in st.segs])
    return T.nsk(dict_mult(I, v))


# ------------------------------------------------------------------ sets

def set_mult(I, v):
    k = T.fresh_name('_k')
    tot = ZERO
    for s in I.seq(v):
        if isinstance(s, P.Hav):
            raise P.Unsupported('set under construction')
        tot = tot + T.sum_over(list(s.binders), s.cond * T.eq0(num(s.value) - var(k, 'int')))
    return T.lam(k, tot)


def set_len(I, v):
    it = I.concrete_items(v)
    if it is not None and all(not isinstance(x, P.N) or x.p.const() is not None for x in it):
        out = []
        for x in it:
            if not any(eq_values(I, x, y) is ONE for y in out):
                out.append(x)
        return cst(len(out))
    return T.nsk(set_mult(I, v))


def set_iter(I, v):
    l = set_mult(I, v)
    j = T.fresh_name('_v')
    return [P.Seg([(j, T.nsk(l))], ONE, P.N(app('KEY', l, var(j, 'int'), sort='int'), 'int'))]


def value_type(I, v):
    ty = 'int'
    for s in I.seq(v):
        if isinstance(s.value, P.N):
            ty = P.jty(ty, s.value.ty)
    return ty


# ------------------------------------------------------------------ items

def getitem(I, o, ix):
    if isinstance(o, P.Poison):
        raise P.Unsupported(o.why)
    if I.is_arr(o):
        return arr_index(I, o, list(ix.items) if isinstance(ix, P.Tup) else [ix])
    if isinstance(o, P.Ref):
        k = I.kind(o)
        if k == 'dict':
            return dict_getitem(I, o, ix)
        if k == 'ins':
            return I.call(I.getattr(o, '__getitem__'), [ix])
        if k == 'set':
            raise P.PyExc('TypeError')
    if isinstance(o, P.Sym) and 'getitem' in o.ops:
        return o.ops['getitem'](I, ix)
    if isinstance(ix, P.Sl):
        return get_slice(I, o, ix)
    if isinstance(o, str):
        c = num(ix).const()
        if c is None:
            raise P.Unsupported('character of a string')
        try:
            return o[int(c)]
        except IndexError:
            raise P.PyExc('IndexError', 'string index')
    if isinstance(o, P.Opq):
        if o.item and 'getitem' in o.item:
            return o.item['getitem'](I, o, ix)
        if o.item and 'get' in o.item:
            p = num(ix)
            if p.const() is not None and p.const() < 0:
                p = p + T.to_poly(o.item['len'](o))
            return o.item['get'](o, p)
        return P.Opq(app('item', o.p, ident(I, ix), sort='obj'), o.kind if o.kind == 'str' else 'obj')
    p = num(ix)
    if isinstance(o, P.Tup):
        c = p.const()
        if c is not None:
            try:
                return o.items[int(c)]
            except IndexError:
                raise P.PyExc('IndexError', 'tuple index')
    if isinstance(o, (P.Tup, P.Ref, P.Seq, P.Sym)):
        if I.is_list(o) and any(isinstance(s, P.Hav) for s in I.state(o).segs):
            return hav_list_item(I, o, p)
        it = I.concrete_items(o) if not isinstance(o, P.Sym) else None
        if it is not None:
            c = p.const()
            if c is not None:
                try:
                    return it[int(c)]
                except IndexError:
                    raise P.PyExc('IndexError', 'index')
            n = len(it)
            if it and all(is_num(x) for x in it):
                p = norm_index(I, p, cst(n))
                ty = 'bool'
                for x in it:
                    ty = P.jty(ty, x.ty)
                return P.N(T.addn([T.eq0(p - k) * x.p for k, x in enumerate(it)]), ty)
        c = p.const()
        if c is not None and c >= 0:
            return I.seq_get(o, p)
        n = I.length(o)
        p = norm_index(I, p, n)
        check_index(I, p, n)
        return I.seq_get(o, p)
    raise P.Unsupported('item of %r' % (o,))


def hav_list_item(I, o, p):
    """Item of a list under construction: only the last ones appended"""
    segs = I.state(o).segs
    c = p.const()
    if c is not None and c < 0:
        k = len(segs) + int(c)
        if k >= 1 and all(isinstance(s, P.Seg) and not s.binders and s.cond is ONE for s in segs[k:]):
            return segs[k].value
    raise P.Unsupported('item of a list under construction')


def get_slice(I, o, sl):
    if isinstance(o, str):
        f = lambda v: None if v is None else int(num(v).const())
        return o[f(sl.lo):f(sl.hi):f(sl.st)]
    if isinstance(o, P.Opq) and o.kind == 'str':
        return P.Opq(app('strslice', o.p, *[ident(I, x) for x in (sl.lo, sl.hi, sl.st)], sort='obj'), 'str')
    f = lambda v: None if v is None else num(v).const()
    if isinstance(o, P.Tup):
        g = lambda v: None if v is None else int(num(v).const())
        return P.Tup(o.items[g(sl.lo):g(sl.hi):g(sl.st)])
    it = I.concrete_items(o)
    if it is not None and all(x is None or num(x).const() is not None for x in (sl.lo, sl.hi, sl.st)):
        g = lambda v: None if v is None else int(num(v).const())
        return I.list_of(it[g(sl.lo):g(sl.hi):g(sl.st)])
    n = I.length(o)
    lo, ln, st = slice_params(I, sl, n)
    segs = I.seq(o)
    if lo is ZERO and ln is n and st.const() == 1:
        return I.new_list([P.seg_fresh(s) for s in segs])
    if len(segs) == 1 and len(segs[0].binders) == 1:
        s = segs[0]
        b, bound = s.binders[0]
        k = T.fresh_name('_v')
        idx = lo + st * var(k, 'int')
        if s.cond is not ONE:
            idx = T.sel(bound, T.lam(b, s.cond), idx)
        return I.new_list([P.Seg([(k, ln)], ONE, P.vsubst(s.value, {b: idx}))])
    raise P.Unsupported('slice of %r' % (segs,))


def list_entry(I, o, key):
    """Entry of a dictionary of lists: what was appended with this key"""
    def segs():
        out = []
        for s in I.state(o).segs:
            if isinstance(s, P.Hav) or s.value.mode != 'item':
                raise P.Unsupported('entry of a dictionary of lists being built')
            s = P.seg_fresh(s)
            c = s.cond * eq_values(I, key, s.value.key)
            if c is not ZERO:
                out.append(P.Seg(s.binders, c, s.value.value))
        return out

    def append(I, a, k):
        raw_add(I, o, [P.Seg((), ONE, P.KV(key, a[0], 'item'))])

    def length():
        return T.addn([T.sum_over(list(s.binders), s.cond) for s in segs()])
    return P.Sym('entry', {'append': lambda I: P.Bi('append', append)}, key=None, ops={'iter': lambda I: segs(), 'len': lambda I: length()})


def dict_getitem(I, o, ix):
    st = I.state(o)
    if st.d.get('default') in ('float', 'int') or any(isinstance(s, P.Seg) and s.value.mode == 'acc' for s in st.segs):
        return dict_get(I, o, ix)
    if st.d.get('default') == 'list' and all(isinstance(s, P.Hav) or s.value.mode == 'item' for s in st.segs):
        return list_entry(I, o, ix)
    if st.d.get('default') == 'list':
        raise P.Unsupported('dictionary of lists')
    return dict_get(I, o, ix)


def setitem(I, o, ix, v):
    if isinstance(o, P.Poison):
        raise P.Unsupported(o.why)
    if I.is_arr(o):
        return arr_set(I, o, list(ix.items) if isinstance(ix, P.Tup) else [ix], v)
    if isinstance(o, P.Ref):
        k = I.kind(o)
        if k == 'dict':
            return dict_set(I, o, ix, v)
        if k == 'list':
            return list_set(I, o, ix, v)
    if isinstance(o, P.Sym) and 'setitem' in o.ops:
        return o.ops['setitem'](I, ix, v)
    raise P.Unsupported('item of %r set' % (o,))


def fixed(segs):
    """List of a known number of elements"""
    return all(isinstance(s, P.Seg) and not s.binders and s.cond is ONE for s in segs)


def replaced(segs, c, v):
    if not -len(segs) <= c < len(segs):
        raise P.PyExc('IndexError', 'assignment index out of range')
    new = list(segs)
    new[c] = P.Seg((), ONE, v)
    return new


def list_set(I, o, ix, v):
    st = I.heap[o.oid]
    if st.d.get('frozen'):
        I.violate_frame(o)
    if isinstance(ix, P.Sl):
        raise P.Unsupported('slice of a list set')
    p = num(ix)
    if not I.at_self(o):
        g = I.guard_of(o)
    else:
        g = ONE
    if st.d.get('over') is not None:
        w = st.d['over']
        c = p.const()
        if c is not None and fixed(w['segs']) and len(o.args) == len(w['args']) and all(a is b for a, b in zip(o.args, w['args'])):
            I.heap[o.oid] = st.upd(over=dict(w, segs=replaced(w['segs'], int(c), v)))
            return
        if not (len(o.args) == len(w['args']) and all(a is b for a, b in zip(o.args, w['args']))) or w['wr'] is None:
            raise P.Unsupported('list element set')
        I.heap[o.oid] = st.upd(over=dict(w, wr=w['wr'] + [(p, v)], segs=[P.Seg(g.binders, g.cond, P.Opq(app('written', ident(I, v), sort='obj'), 'hav')) for g in w['segs']]))
        return
    segs = st.segs
    n = None
    c = p.const()
    if fixed(segs) and c is not None and g is ONE:
        I.heap[o.oid] = st.upd(segs=replaced(segs, int(c), v))
        return
    if c is not None and g is not ONE and not isinstance(v, P.N) and fixed(I.state(o).segs):
        segs = I.state(o).segs
        I.heap[o.oid] = st.upd(only=None, over={'args': list(o.args), 'old': segs, 'wr': None, 'segs': replaced(segs, int(c), v)})
        return
    e = I.as_elem(st)
    if e is None:
        if len(segs) == 2 and not segs[0].binders and c == 0:
            I.heap[o.oid] = st.upd(segs=[P.Seg((), ONE, v), segs[1]])
            return
        e = piecewise(I, st)
    b, n, val = e
    if c is not None and c < 0:
        p = p + n
    if isinstance(val, P.N) and isinstance(v, P.N):
        w = g * T.eq0(var(b, 'int') - p)
        ty = P.jty(val.ty, v.ty)
        I.heap[o.oid] = st.upd(segs=[P.Seg([(b, n)], ONE, P.N(w * v.p + (ONE - w) * val.p, ty))])
        return
    if g is not ONE:
        segs = I.state(o).segs
        e = I.as_elem(P.St('list', (), segs=segs))
        if e is None:
            raise P.Unsupported('list element set')
        I.heap[o.oid] = st.upd(only=None, over={'args': list(o.args), 'old': segs, 'wr': [(p, v)],
                                     'segs': [P.Seg([(e[0], e[1])], ONE, P.Opq(app('written', ident(I, v), sort='obj'), 'hav'))]})
        return
    wr = list(st.d.get('wr') or [])
    wr.append((p, v))
    I.heap[o.oid] = st.upd(segs=[P.Seg([(b, n)], ONE, P.Opq(app('written%d' % o.oid, var(b, 'int'), p, ident(I, v), sort='obj'), 'hav'))], wr=wr)


def piecewise(I, st):
    """List made of several numeric segments as a single one"""
    b = T.fresh_name('_v')
    pos = ZERO
    tot = ZERO
    ty = 'bool'
    for s in st.segs:
        if isinstance(s, P.Hav) or len(s.binders) > 1 or s.cond is not ONE or not isinstance(s.value, P.N):
            raise P.Unsupported('list element set')
        n = I.seg_count(s)
        off = var(b, 'int') - pos
        if s.binders:
            tot = tot + T.ge0(off) * T.lt0(off - n) * T.subst(s.value.p, {s.binders[0][0]: off})
        else:
            tot = tot + T.eq0(off) * s.value.p
        ty = P.jty(ty, s.value.ty)
        pos = pos + n
    return b, pos, P.N(tot, ty)


def arr_set(I, ref, idx, v):
    raw = I.heap[ref.oid]
    st = raw
    if st.d.get('frozen'):
        I.violate_frame(ref)
    if st.d.get('view'):
        raise P.Unsupported('write through a view')
    nd = len(st.shape)
    nreal = sum(1 for x in idx if x is not Ellipsis)
    if any(x is Ellipsis for x in idx):
        j = [k for k, x in enumerate(idx) if x is Ellipsis][0]
        idx = idx[:j] + [P.Sl(None, None, None)] * (nd - nreal) + idx[j+1:]
    else:
        idx = idx + [P.Sl(None, None, None)] * (nd - nreal)
    g = I.guard_of(ref) if not I.at_self(ref) else ONE
    names = st.names
    sub_shape, sub_at = [], []
    for x, nm, n in zip(idx, names, st.shape):
        a = var(nm, 'int')
        if isinstance(x, P.Sl):
            lo, ln, stp = slice_params(I, x, n)
            if stp.const() != 1:
                raise P.Unsupported('strided write')
            if not (lo is ZERO and ln is n):
                g = g * T.ge0(a - lo) * T.lt0(a - lo - ln)
            sub_shape.append(ln)
            sub_at.append(a - lo)
        elif isinstance(x, P.N):
            p = norm_index(I, x.p, n)
            check_index(I, p, n)
            g = g * T.eq0(a - p)
        elif isinstance(x, P.Ref):
            m = x if I.is_arr(x) else asarray(I, x)
            ms = ast_(I, m)
            if ms.dtype != 'bool' or not is_num(v):
                raise P.Unsupported('write with an index array')
            if len(ms.shape) == nd and len(idx) >= 1 and nd > 1:
                g = g * body_at(ms, iv(names))
            else:
                g = g * body_at(ms, [a])
            sub_shape.append(n)
            sub_at.append(a)
        else:
            raise P.Unsupported('write index')
    if is_num(v):
        val = v.p
        vty = v.ty
    else:
        if not I.is_arr(v):
            v = asarray(I, v)
        vs = ast_(I, v)
        vty = vs.dtype
        at = []
        off = len(sub_shape) - len(vs.shape)
        if off < 0:
            raise P.Unsupported('write shape')
        for j, x in enumerate(vs.shape):
            if x.const() == 1:
                at.append(ZERO)
            else:
                y = sub_shape[off + j]
                if x is not y and I.known(T.eq0(x - y)) is not True:
                    raise P.Unsupported('write shape %s %s' % (x, y))
                at.append(sub_at[off + j])
        val = body_at(vs, at)
    if st.dtype in ('int', 'bool') and vty in ('float', 'complex'):
        if not val.is_int:
            val = app('trunc', val, sort='int')
    if st.d.get('spec') is not None:
        I.obls.append(('%s: value written' % st.spec, list(I.facts), ('eq', g * val, g * st.body)))
        I.heap[ref.oid] = raw.upd(D=ONE - (ONE - st.D) * (ONE - g))
        return
    if not I.at_self(ref):
        val = I.to_params(ref, val)
    I.heap[ref.oid] = raw.upd(body=g * val + (ONE - g) * st.body)


# ------------------------------------------------------------------ attributes of values

def bi(name, fn):
    return P.Bi(name, fn)


def value_attr(I, o, name):
    if is_num(o):
        if name == 'real':
            return P.N(T.re(o.p) if o.ty == 'complex' else o.p, 'float' if o.ty == 'complex' else o.ty)
        if name == 'imag':
            return P.N(T.im(o.p) if o.ty == 'complex' else ZERO, 'float')
        if name in ('conjugate', 'conj'):
            return bi(name, lambda I, a, k: P.N(T.conj(o.p), o.ty))
        if name in ('sum', 'copy', 'mean', 'max', 'min', 'item'):
            return bi(name, lambda I, a, k: o)
        if name == 'flatten':
            return bi(name, lambda I, a, k: mk(I, [ONE], fresh_names(1), o.p, o.ty))
        if name == 'shape':
            return P.Tup(())
        if name == 'astype':
            return bi(name, lambda I, a, k: cast(I, o, a[0]))
        raise P.PyExc('AttributeError', name)
    if I.is_arr(o):
        return arr_attr(I, o, name)
    if isinstance(o, P.Ref):
        k = I.kind(o)
        if k == 'list':
            return list_attr(I, o, name)
        if k == 'dict':
            return dict_attr(I, o, name)
        if k == 'set':
            if name == 'add':
                return bi(name, lambda I, a, kw: raw_add(I, o, [P.Seg((), ONE, a[0])]))
        raise P.PyExc('AttributeError', name)
    if isinstance(o, P.Tup) or isinstance(o, P.Seq):
        if name == 'index':
            return bi(name, lambda I, a, kw: list_index(I, o, a[0]))
        if name == 'count':
            pass
        raise P.PyExc('AttributeError', name)
    if isinstance(o, str) or (isinstance(o, P.Opq) and o.kind == 'str'):
        return str_attr(I, o, name)
    if isinstance(o, P.Sl):
        return {'start': o.lo, 'stop': o.hi, 'step': o.st}[name]
    if isinstance(o, P.Opq):
        if o.item and 'attr' in o.item:
            return o.item['attr'](I, o, name)
        if name == '__dict__':
            return P.Opq(app('dict', o.p, sort='obj'), 'dict')
        return P.Opq(app('attr:' + name, o.p, sort='obj'), 'obj')
    if isinstance(o, P.Clo) and name == '__name__':
        return o.name
    if o is None:
        raise P.PyExc('AttributeError', 'None.%s' % name)
    raise P.Unsupported('attribute %s of %r' % (name, o))


def kwget(a, kw, pos, name, default=None):
    if len(a) > pos:
        return a[pos]
    return kw.get(name, default)


def arr_attr(I, o, name):
    st = I.state(o)
    if name == 'shape':
        return P.Tup([P.N(s, 'int') for s in st.shape])
    if name == 'ndim':
        return P.N(len(st.shape), 'int')
    if name == 'size':
        return P.N(size_of(I, o), 'int')
    if name == 'T':
        return transpose(I, o)
    if name == 'dtype':
        return P.Ty({'int': 'int', 'float': 'float', 'complex': 'complex', 'bool': 'bool'}[st.dtype], None)
    if name == 'real':
        return arr_map(I, T.re, o, 'float') if st.dtype == 'complex' else o
    if name == 'imag':
        return arr_map(I, T.im, o, 'float')
    fns = {
        'sum': lambda I, a, k: reduce_sum(I, o, kwget(a, k, 0, 'axis')),
        'mean': lambda I, a, k: mean(I, o, kwget(a, k, 0, 'axis')),
        'copy': lambda I, a, k: arr_copy(I, o),
        'conjugate': lambda I, a, k: arr_map(I, T.conj, o),
        'conj': lambda I, a, k: arr_map(I, T.conj, o),
        'transpose': lambda I, a, k: transpose(I, o),
        'astype': lambda I, a, k: cast(I, o, a[0]),
        'flatten': lambda I, a, k: flatten(I, o),
        'ravel': lambda I, a, k: flatten(I, o),
        'any': lambda I, a, k: P.N(ONE - T.eq0(reduce_sum(I, o).p), 'bool'),
        'all': lambda I, a, k: P.N(T.eq0(reduce_sum(I, arr_map(I, lambda p: ONE - p, o)).p), 'bool'),
        'tolist': lambda I, a, k: tolist(I, o),
        'repeat': lambda I, a, k: repeat(I, o, a[0]),
        'min': lambda I, a, k: extremum(I, o, 'MIN'),
        'max': lambda I, a, k: extremum(I, o, 'MAX'),
        'std': lambda I, a, k: P.N(app('std', T.lam(st.names, st.body), *st.shape), 'float'),
        'dot': lambda I, a, k: dot(I, o, a[0]),
        'fill': lambda I, a, k: arr_set(I, o, [Ellipsis], a[0]),
    }
    if name in fns:
        return bi('ndarray.' + name, fns[name])
    raise P.PyExc('AttributeError', 'ndarray.' + name)


def transpose(I, o):
    if not I.is_arr(o):
        o = asarray(I, o)
    st = ast_(I, o)
    return mk(I, tuple(reversed(st.shape)), tuple(reversed(st.names)), st.body, st.dtype, base=(o.oid, I.heap[o.oid].body))


def flatten(I, o):
    if not I.is_arr(o):
        o = asarray(I, o)
    st = ast_(I, o)
    if len(st.shape) == 1:
        return arr_copy(I, o)
    if len(st.shape) == 2:
        k = T.fresh_name('_x')
        n = st.shape[1]
        q = T.floor(var(k, 'int') * T.inv(n))
        return mk_flat(I, st, k)
    raise P.Unsupported('flatten')


def mk_flat(I, st, k):
    """Flattened 2d array: element k is (k // n, k % n)"""
    n = st.shape[1]
    q = app('idiv', var(k, 'int'), n, sort='int')
    r = app('imod', var(k, 'int'), n, sort='int')
    a = mk(I, [st.shape[0] * n], [k], T.subst(st.body, {st.names[0]: q, st.names[1]: r}), st.dtype)
    I.heap[a.oid] = I.heap[a.oid].upd(flat=(st.shape, st.names, st.body))
    return a


def tolist(I, o):
    st = ast_(I, o)
    if len(st.shape) == 1:
        b = st.names[0]
        return I.new_list([P.seg_fresh(P.Seg([(b, st.shape[0])], ONE, P.N(st.body, st.dtype)))])
    raise P.Unsupported('tolist')


def repeat(I, o, n):
    st = ast_(I, o)
    if len(st.shape) != 1:
        raise P.Unsupported('repeat')
    k = T.fresh_name('_x')
    p = num(n)
    q = app('idiv', var(k, 'int'), p, sort='int')
    return mk(I, [st.shape[0] * p], [k], T.subst(st.body, {st.names[0]: q}), st.dtype)


def cast(I, o, ty):
    name = ty.name if isinstance(ty, P.Ty) else ty if isinstance(ty, str) else None
    if name is None:
        raise P.Unsupported('cast')
    t = {'int': 'int', 'int32': 'int', 'int64': 'int', 'float': 'float', 'float64': 'float', 'bool': 'bool',
         'complex': 'complex', 'complex128': 'complex'}.get(name)
    if t is None:
        raise P.Unsupported('cast to %s' % name)
    src = dtype_of(I, o)
    if t == 'int' and src in ('float',):
        return arr_map(I, lambda p: trunc(I, p), o, 'int')
    if t == 'bool' and src != 'bool':
        return arr_map(I, lambda p: ONE - T.eq0(p), o, 'bool')
    if is_num(o):
        return P.N(o.p, t)
    return arr_map(I, lambda p: p, o, t)


def trunc(I, p):
    if p.is_int:
        return p
    k = I.known(T.ge0(p))
    if k is True:
        return T.floor(p)
    if k is False:
        return -T.floor(-p)
    n = T.lt0(p)
    return (ONE - n) * T.floor(p) - n * T.floor(-p)


def list_index(I, o, v):
    it = I.concrete_items(o)
    if it is not None:
        pos = None
        for j in range(len(it)):
            e = eq_values(I, it[j], v)
            if e is ONE:
                return P.N(j, 'int')
            if e is ZERO:
                continue
            if I.choose(e):
                return P.N(j, 'int')
        raise P.PyExc('ValueError', 'not in list')
    segs = I.seq(o)
    if len(segs) == 1 and len(segs[0].binders) == 1 and segs[0].cond is ONE:
        s = segs[0]
        b, n = s.binders[0]
        e = eq_values(I, s.value, v)
        env = solve_binders(s.binders, e)
        if env is not None:
            return P.N(env[b], 'int')
        l = T.lam(b, e)
        none = P.noex(l, n)
        if isinstance(v, P.N) and is_extremum_of(v.p, s):
            return P.N(app('ARG' + is_extremum_of(v.p, s), T.lam(b, s.value.p), n, sort='int'), 'int')
        if none is not ZERO and I.choose(none):
            raise P.PyExc('ValueError', 'not in list')
        return P.N(app('FIRST', l, n, sort='int'), 'int')
    raise P.Unsupported('index in %r' % (segs,))


def is_extremum_of(p, s):
    """Is p the MIN or MAX of the elements of the segment?"""
    if len(p.terms) != 1 or p.terms[0][1] != 1:
        return None
    m = p.terms[0][0]
    if len(m.factors) != 1 or m.factors[0][1] != 1 or m.binders:
        return None
    a = m.factors[0][0]
    if a.kind == 'A' and a.data[0] in ('MIN', 'MAX') and a.data[0:1]:
        b, n = s.binders[0]
        if a.data[1][0] is T.lam(b, s.value.p) and a.data[1][1] is n:
            return a.data[0]
    return None


def list_attr(I, o, name):
    if name in ('insert', 'pop', 'remove', 'sort', 'reverse', 'clear') and I.heap[o.oid].d.get('frozen'):
        I.violate_frame(o)
    if name == 'append':
        def f(I, a, k):
            list_append(I, o, a[0])
        return bi('list.append', f)
    if name == 'extend':
        return bi('list.extend', lambda I, a, k: list_extend(I, o, a[0]))
    if name == 'index':
        return bi('list.index', lambda I, a, k: list_index(I, o, a[0]))
    if name == 'copy':
        return bi('list.copy', lambda I, a, k: I.new_list([P.seg_fresh(s) for s in I.seq(o)]))
    if name == 'pop':
        def f(I, a, k):
            st = I.heap[o.oid]
            if not I.at_self(o) or not all(isinstance(s, P.Seg) and not s.binders and s.cond is ONE for s in st.segs):
                raise P.Unsupported('pop')
            segs = list(st.segs)
            j = -1 if not a else int(num(a[0]).const())
            v = segs.pop(j).value
            I.heap[o.oid] = st.upd(segs=segs)
            return v
        return bi('list.pop', f)
    if name == 'insert':
        def f(I, a, k):
            st = I.heap[o.oid]
            if not I.at_self(o) or num(a[0]).const() != 0:
                raise P.Unsupported('insert')
            I.heap[o.oid] = st.upd(segs=[P.Seg((), ONE, a[1])] + list(st.segs))
        return bi('list.insert', f)
    if name == 'sort':
        def f(I, a, k):
            if a or k or not I.at_self(o):
                raise P.Unsupported('sort')
            st = I.heap[o.oid]
            r = sorted_(I, [o], {})
            I.heap[o.oid] = st.upd(segs=I.state(r).segs)
        return bi('list.sort', f)
    if name == 'count':
        def f(I, a, k):
            tot = ZERO
            for s in I.seq(o):
                tot = tot + T.sum_over(list(s.binders), s.cond * eq_values(I, s.value, a[0]))
            return P.N(tot, 'int')
        return bi('list.count', f)
    raise P.PyExc('AttributeError', 'list.' + name)


def dict_attr(I, o, name):
    if name in ('keys', 'values', 'items'):
        return bi('dict.' + name, lambda I, a, k: dict_entries(I, o, name))
    if name == 'get':
        def f(I, a, k):
            h = dict_has(I, o, a[0])
            if h is ONE:
                return dict_get(I, o, a[0])
            st = I.state(o)
            if len(a) > 1 and is_num(a[1]) and a[1].p is ZERO and (st.d.get('default') in ('float', 'int')):
                return dict_get(I, o, a[0])
            if I.choose(h):
                return dict_get(I, o, a[0])
            return a[1] if len(a) > 1 else None
        return bi('dict.get', f)
    if name == 'update':
        def f(I, a, k):
            for key, v in dict_concrete(I, a[0]).items():
                dict_set(I, o, key, v)
        return bi('dict.update', f)
    if name == 'pop':
        def f(I, a, k):
            st = I.heap[o.oid]
            for j, s in enumerate(st.segs):
                if isinstance(s, P.Seg) and not s.binders and s.cond is ONE and s.value.key == a[0]:
                    I.heap[o.oid] = st.upd(segs=st.segs[:j] + st.segs[j+1:])
                    return s.value.value
            if len(a) > 1:
                return a[1]
            raise P.Unsupported('pop')
        return bi('dict.pop', f)
    if name == 'setdefault':
        def f(I, a, k):
            h = dict_has(I, o, a[0])
            if I.choose(h):
                return dict_get(I, o, a[0])
            dict_set(I, o, a[0], a[1])
            return a[1]
        return bi('dict.setdefault', f)
    raise P.PyExc('AttributeError', 'dict.' + name)


def str_attr(I, o, name):
    def op(I, a, k):
        if name == 'format':
            return str_format(I, o, a, k)
        if isinstance(o, str) and all(isinstance(x, str) for x in a) and not k:
            r = getattr(o, name)(*a)
            if isinstance(r, list):
                return I.list_of(r)
            if isinstance(r, bool):
                return P.N(r)
            if isinstance(r, int):
                return P.N(r, 'int')
            return r
        if name == 'join':
            it = I.concrete_items(a[0])
            if it is not None:
                parts = []
                for j, x in enumerate(it):
                    if j:
                        parts.append(o)
                    parts.append(x)
                return str_concat(I, parts)
            return P.Opq(app('join', strp(o), ident_seq(I, a[0]), sort='obj'), 'str')
        if name in ('startswith', 'endswith'):
            return P.N(T.boolatom(name, strp(o), *[strp(x) for x in a]), 'bool')
        if name == 'split':
            p = app('split', strp(o), *[ident(I, x) for x in a], sort='obj')
            return split_value(p)
        if name in ('replace', 'strip', 'lower', 'upper', 'lstrip', 'rstrip'):
            return P.Opq(app(name, strp(o), *[ident(I, x) for x in a], sort='obj'), 'str')
        raise P.Unsupported('str.%s' % name)
    return bi('str.' + name, op)


def split_value(p):
    """Opaque list of strings"""
    def get(v, k):
        return P.Opq(app('item', v.p, k, sort='obj'), 'str')
    return P.Sym('strlist', {}, p, {
        'len': lambda I: app('len_split', p, sort='int'),
        'item': lambda I, k: P.Opq(app('item', p, k, sort='obj'), 'str'),
        'iter': lambda I: _iter_n(lambda k: P.Opq(app('item', p, k, sort='obj'), 'str'), app('len_split', p, sort='int')),
        'rekey': split_value})


def _iter_n(fn, n):
    b = T.fresh_name('_v')
    return [P.Seg([(b, n)], ONE, fn(var(b, 'int')))]


def ident_seq(I, v):
    return ident(I, v)


# ------------------------------------------------------------------ builtins

def b_range(I, a, k):
    a = [num(x) for x in a]
    if len(a) == 1:
        lo, hi, st = ZERO, a[0], ONE
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], ONE
    else:
        lo, hi, st = a
    c = st.const()
    if c is None:
        if I.known(T.gt0(st)) is not True:
            raise P.Unsupported('range step of unknown sign')
    elif c == 0:
        raise P.PyExc('ValueError', 'range step')
    n = T.cnt(lo, hi, st)
    if c == 1 and hi - lo in I.counts:
        n = hi - lo
    elif c == 1 and 'CNT' in n.key and I.known(T.ge0(hi - lo)) is True:
        n = hi - lo
    b = T.fresh_name('_v')
    return P.Seq([P.Seg([(b, n)], ONE, P.N(lo + st * var(b, 'int'), 'int'))], ('range', lo, hi, st))


def b_len(I, a, k):
    return P.N(I.length(a[0]), 'int')


def b_sum(I, a, k):
    v = a[0]
    if I.is_arr(v) and len(I.state(v).shape) > 1:
        return reduce_sum(I, v, P.N(0, 'int'))
    if len(a) == 1 and any(not isinstance(s, P.Hav) and I.is_arr(s.value) for s in I.seq(v)):
        # sum of arrays; that of an empty list is a number
        if I.known(T.gt0(num(b_len(I, [v], {})))) is True:
            return reduce_sum(I, v, P.N(ZERO, 'int'))
        raise P.Unsupported('sum of arrays in a list that may be empty')
    tot = num(a[1]) if len(a) > 1 else ZERO
    ty = 'int'
    for s in I.seq(v):
        if isinstance(s, P.Hav):
            raise P.Unsupported('sum of a list under construction')
        tot = tot + T.sum_over(list(s.binders), s.cond * num(s.value))
        ty = P.jty(ty, s.value.ty)
    return P.N(tot, ty)


def extremum(I, v, nm):
    it = None
    if not I.is_arr(v):
        it = I.concrete_items(v)
    else:
        st = I.state(v)
        if len(st.shape) == 1 and st.shape[0].const() is not None:
            it = [P.N(body_at(st, [cst(j)]), st.dtype) for j in range(int(st.shape[0].const()))]
    if it is not None:
        if not it:
            raise P.PyExc('ValueError', 'empty sequence')
        r = it[0]
        for x in it[1:]:
            r = P.N((T.minp if nm == 'MIN' else T.maxp)(r.p, x.p), P.jty(r.ty, x.ty))
        return r
    if I.is_arr(v):
        st = ast_(I, v)
        if len(st.shape) != 1:
            raise P.Unsupported('extremum of a matrix')
        return P.N(app(nm, T.lam(st.names[0], st.body), st.shape[0], sort=P.sort_of(st.dtype)), st.dtype)
    segs = I.seq(v)
    if len(segs) == 1 and len(segs[0].binders) == 1 and segs[0].cond is ONE:
        b, n = segs[0].binders[0]
        x = segs[0].value
        return P.N(app(nm, T.lam(b, num(x)), n, sort='int' if x.ty == 'int' else 'real'), x.ty)
    raise P.Unsupported('extremum of %r' % (segs,))


def b_minmax(nm):
    def f(I, a, k):
        key = k.get('key')
        if len(a) > 1:
            if key is not None:
                raise P.Unsupported('min with key')
            r = a[0]
            for x in a[1:]:
                r = P.N((T.minp if nm == 'MIN' else T.maxp)(num(r), num(x)), P.jty(r.ty, x.ty))
            return r
        v = a[0]
        if key is None:
            return extremum(I, v, nm)
        segs = I.seq(v)
        if len(segs) == 1 and len(segs[0].binders) == 1 and segs[0].cond is ONE:
            s = P.seg_fresh(segs[0])
            b, n = s.binders[0]
            I.loopvars.append((b, n))
            try:
                kv = I.pure(lambda: I.call(key, [s.value]))
            finally:
                I.loopvars.pop()
            j = app('ARG' + nm, T.lam(b, num(kv)), n, sort='int')
            return P.vsubst(s.value, {b: j})
        raise P.Unsupported('min with key')
    return f


def b_abs(I, a, k):
    v = a[0]
    if is_num(v):
        if v.ty == 'complex':
            return P.N(T.sqrt(v.p * T.conj(v.p)), 'float')
        return P.N(T.absp(v.p), v.ty)
    if dtype_of(I, v) == 'complex':
        return arr_map(I, lambda p: T.sqrt(p * T.conj(p)), v, 'float')
    return arr_map(I, T.absp, v)


def b_int(I, a, k):
    if not a:
        return P.N(0, 'int')
    v = a[0]
    if is_num(v):
        if v.ty in ('int', 'bool'):
            return P.N(v.p, 'int')
        return P.N(trunc(I, v.p), 'int')
    if isinstance(v, str):
        try:
            return P.N(int(v), 'int')
        except ValueError:
            raise P.PyExc('ValueError', 'int')
    if isinstance(v, P.Opq) and v.kind == 'str':
        return P.N(app('int_of', v.p, sort='int'), 'int')
    if I.is_arr(v) and not I.state(v).shape:
        return P.N(trunc(I, I.state(v).body), 'int')
    raise P.Unsupported('int(%r)' % (v,))


def b_float(I, a, k):
    if not a:
        return P.N(0.0, 'float')
    v = a[0]
    if is_num(v):
        return P.N(v.p, 'float')
    if isinstance(v, str):
        try:
            return P.N(T.cst(Fraction(v)), 'float')
        except ValueError:
            raise P.PyExc('ValueError', 'float')
    if isinstance(v, P.Opq):
        if v.item and 'float' in v.item:
            return P.N(v.item['float'], 'float')
        return P.N(app('float_of', v.p), 'float')
    if v is None or isinstance(v, P.Tup):
        raise P.PyExc('TypeError', 'float')
    raise P.Unsupported('float(%r)' % (v,))


def b_round(I, a, k):
    if len(a) > 1:
        raise P.Unsupported('round to digits')
    p = num(a[0])
    if p.is_int:
        return P.N(p, 'int')
    return P.N(app('round', p, sort='int'), 'int')


def sorted_(I, a, k):
    v = a[0]
    if k.get('key') is not None or (k.get('reverse') is not None):
        raise P.Unsupported('sorted with options')
    if isinstance(v, P.Ref) and I.kind(v) == 'set':
        return sorted_keys(I, set_mult(I, v), value_type(I, v))
    if isinstance(v, P.Seq) and isinstance(v.origin, tuple) and v.origin[0] == 'keys':
        ref = v.origin[1]
        it = I.concrete_items(v)
        if it is None or not all(isinstance(x, str) for x in it):
            return sorted_keys(I, dict_mult(I, ref), 'int')
    if isinstance(v, P.Ref) and I.kind(v) == 'dict':
        return sorted_keys(I, dict_mult(I, v), 'int')
    if isinstance(v, P.Ref) and I.kind(v) == 'list' and I.state(v).d.get('keys_of') is not None:
        l, ty = I.state(v).keys_of
        return sorted_keys(I, l, ty)
    it = I.concrete_items(v)
    if it is not None:
        if all(isinstance(x, str) for x in it):
            return I.list_of(sorted(it))
        if len(it) <= 1:
            return I.list_of(it)
        if all(is_num(x) and x.p.const() is not None for x in it):
            return I.list_of(sorted(it, key=lambda x: x.p.const()))
    segs = I.seq(v)
    if len(segs) == 1 and len(segs[0].binders) == 1 and is_num(segs[0].value):
        # already the sorted keys of a collection?
        b, n = segs[0].binders[0]
        p = segs[0].value.p
        if is_sk(p, b):
            return I.new_list([P.seg_fresh(segs[0])])
    # multiset
    l = set_mult(I, v)
    n = I.length(v)
    j = T.fresh_name('_v')
    ty = value_type(I, v)
    return I.new_list([P.Seg([(j, n)], ONE, P.N(app('SORTED', l, var(j, 'int'), sort='int' if ty == 'int' else 'real'), ty))])


def is_sk(p, b):
    if len(p.terms) != 1 or p.terms[0][1] != 1:
        return False
    m = p.terms[0][0]
    return len(m.factors) == 1 and not m.binders and m.factors[0][0].kind == 'SK' and m.factors[0][0].data[1] is var(b, 'int')


def sorted_keys(I, l, ty):
    j = T.fresh_name('_v')
    return I.new_list([P.Seg([(j, T.nsk(l))], ONE, P.N(T.sk(l, var(j, 'int')), ty))])


def b_list(I, a, k):
    if not a:
        return I.new_list([])
    v = a[0]
    if isinstance(v, P.Opq) and v.kind != 'str':
        return P.Opq(app('list', v.p, sort='obj'), v.kind, v.item)
    if isinstance(v, P.Ref) and I.kind(v) == 'set':
        it = I.concrete_items(v)
        l = set_mult(I, v)
        r = I.new_list(set_iter(I, v))
        I.heap[r.oid] = I.heap[r.oid].upd(keys_of=(l, value_type(I, v)))
        return r
    if isinstance(v, P.Seq) and isinstance(v.origin, tuple) and v.origin[0] == 'keys':
        st = I.state(v.origin[1])
        r = I.new_list([P.seg_fresh(s) for s in v.segs])
        if I.concrete_items(v) is None:
            I.heap[r.oid] = I.heap[r.oid].upd(keys_of=(dict_mult(I, v.origin[1]), 'int'))
        return r
    return I.new_list([P.seg_fresh(s) for s in I.seq(v)])


def b_set(I, a, k):
    if not a:
        return new_set(I, [])
    return new_set(I, [P.seg_fresh(s) for s in I.seq(a[0])])


def b_tuple(I, a, k):
    if not a:
        return P.Tup(())
    it = I.concrete_items(a[0])
    if it is not None:
        return P.Tup(it)
    return P.Seq([P.seg_fresh(s) for s in I.seq(a[0])], 'tuple')


def b_dict(I, a, k):
    d = dict_of(I, dict(k))
    if a:
        for key, v in dict_concrete(I, a[0]).items():
            dict_set(I, d, key, v)
    return d


def b_enumerate(I, a, k):
    start = num(a[1]) if len(a) > 1 else num(k['start']) if 'start' in k else ZERO
    out = []
    pos = start
    for s in I.seq(a[0]):
        if isinstance(s, P.Hav):
            raise P.Unsupported('enumerate')
        s = P.seg_fresh(s)
        if not s.binders:
            if s.cond is not ONE:
                raise P.Unsupported('enumerate')
            out.append(P.Seg((), ONE, P.Tup([P.N(pos, 'int'), s.value])))
            pos = pos + 1
            continue
        if len(s.binders) > 1:
            raise P.Unsupported('enumerate of a nested sequence')
        b, n = s.binders[0]
        if s.cond is ONE:
            out.append(P.Seg(s.binders, ONE, P.Tup([P.N(pos + var(b, 'int'), 'int'), s.value])))
        else:
            j = T.fresh_name('_v')
            m = T.mk_sum(b, n, s.cond)
            val = P.vsubst(s.value, {b: T.sel(n, T.lam(b, s.cond), var(j, 'int'))})
            out.append(P.Seg([(j, m)], ONE, P.Tup([P.N(pos + var(j, 'int'), 'int'), val])))
        pos = pos + I.seg_count(s)
    return P.Seq(out)


def b_zip(I, a, k):
    its = [I.concrete_items(x) for x in a]
    if all(x is not None for x in its):
        return P.Seq([P.Seg((), ONE, P.Tup(list(t))) for t in zip(*its)])
    segs = [I.seq(x) for x in a]
    ns = [I.length(x) for x in a]
    n = ns[0]
    for x in ns[1:]:
        if x is not n:
            if I.known(T.eq0(x - n)) is True:
                continue
            n = T.minp(n, x)
    b = T.fresh_name('_v')
    vals = []
    for x, s in zip(a, segs):
        if len(s) == 1 and len(s[0].binders) == 1:
            e = {s[0].binders[0][0]: var(b, 'int')}
            if s[0].cond is not ONE:
                e = {s[0].binders[0][0]: T.sel(s[0].binders[0][1], T.lam(s[0].binders[0][0], s[0].cond), var(b, 'int'))}
            vals.append(P.vsubst(s[0].value, e))
        else:
            raise P.Unsupported('zip of %r' % (s,))
    return P.Seq([P.Seg([(b, n)], ONE, P.Tup(vals))])


def b_isinstance(I, a, k):
    v, t = a
    ts = t.items if isinstance(t, P.Tup) else [t]
    for x in ts:
        if isinstance(x, P.Cls):
            if isinstance(v, P.Ref) and I.kind(v) == 'ins':
                c = I.state(v).cls
                if isinstance(c, P.Cls) and any(m.qual == x.qual for m in I.mro(c)):
                    return P.N(True)
            continue
        n = x.name
        if is_num(v):
            if n == 'int' and v.ty in ('int', 'bool') or n == 'float' and v.ty == 'float' or n == 'bool' and v.ty == 'bool' or n == 'complex' and v.ty == 'complex':
                return P.N(True)
        elif isinstance(v, str) or (isinstance(v, P.Opq) and v.kind == 'str'):
            if n == 'str':
                return P.N(True)
        elif isinstance(v, P.Tup):
            if n == 'tuple':
                return P.N(True)
        elif isinstance(v, P.Ref):
            kd = I.kind(v)
            if kd == 'arr' and n == 'ndarray' or kd == n:
                return P.N(True)
        elif isinstance(v, P.Sym):
            if n in v.ops.get('types', ()):
                return P.N(True)
    return P.N(False)


def b_hasattr(I, a, k):
    try:
        I.getattr(a[0], a[1])
        return P.N(True)
    except P.PyExc as e:
        if e.name == 'AttributeError':
            return P.N(False)
        raise


def b_getattr(I, a, k):
    if not isinstance(a[1], str):
        o = a[0]
        if isinstance(o, P.Sym) and 'getattr_dyn' in o.ops:
            return o.ops['getattr_dyn'](I, a[1])
        raise P.Unsupported('getattr with a symbolic name')
    try:
        return I.getattr(a[0], a[1])
    except P.PyExc as e:
        if e.name == 'AttributeError' and len(a) > 2:
            return a[2]
        raise


def b_setattr(I, a, k):
    if not isinstance(a[1], str):
        o = a[0]
        if isinstance(o, P.Sym) and 'setattr_dyn' in o.ops:
            return o.ops['setattr_dyn'](I, a[1], a[2])
        raise P.Unsupported('setattr with a symbolic name')
    I.setattr(a[0], a[1], a[2])


def b_any(I, a, k):
    v = a[0]
    if I.is_arr(v):
        return P.N(ONE - T.eq0(reduce_sum(I, v).p), 'bool')
    r = ONE
    for s in I.seq(v):
        t = s.cond * I.truth_poly(s.value)
        r = r * (noex_seg(s.binders, t) if s.binders else ONE - t)
    return P.N(ONE - r, 'bool')


def b_all(I, a, k):
    v = a[0]
    r = ONE
    for s in I.seq(v):
        t = s.cond * (ONE - I.truth_poly(s.value))
        r = r * (noex_seg(s.binders, t) if s.binders else ONE - t)
    return P.N(r, 'bool')


def b_reversed(I, a, k):
    it = I.concrete_items(a[0])
    if it is not None:
        return P.Seq([P.Seg((), ONE, x) for x in reversed(it)])
    n = I.length(a[0])
    b = T.fresh_name('_v')
    return P.Seq([P.Seg([(b, n)], ONE, I.seq_get(a[0], n - 1 - var(b, 'int')))])


def b_iter(I, a, k):
    v = a[0]
    if is_num(v) or v is None:
        raise P.PyExc('TypeError', 'not iterable')
    return v


def b_map(I, a, k):
    lst = I.new_list([])

    def body(v, idx):
        list_append(I, lst, I.call(a[0], [v]))
    I.loop(I.seq(a[1]), body)
    return P.Seq(I.state(lst).segs)


def b_callable(I, a, k):
    return P.N(isinstance(a[0], (P.Clo, P.Bi, P.Bound, P.Cls, P.Ty)))


BUILTINS = {
    'range': b_range, 'len': b_len, 'sum': b_sum, 'min': b_minmax('MIN'), 'max': b_minmax('MAX'), 'abs': b_abs,
    'round': b_round, 'sorted': sorted_, 'enumerate': b_enumerate, 'zip': b_zip,
    'isinstance': b_isinstance, 'hasattr': b_hasattr, 'getattr': b_getattr, 'setattr': b_setattr,
    'any': b_any, 'all': b_all, 'iter': b_iter, 'map': b_map, 'print': lambda I, a, k: None,
    'callable': b_callable, 'reversed': b_reversed,
    'id': lambda I, a, k: P.N(app('id', ident(I, a[0]), sort='int'), 'int'),
    'super': None,
    'pow': lambda I, a, k: binop(I, ast.Pow(), a[0], a[1]),
    'divmod': lambda I, a, k: P.Tup([binop(I, ast.FloorDiv(), a[0], a[1]), binop(I, ast.Mod(), a[0], a[1])]),
}

TYPES = {
    'int': b_int, 'float': b_float, 'list': b_list, 'set': b_set, 'tuple': b_tuple, 'dict': b_dict,
    'str': lambda I, a, k: to_str(I, a[0]), 'bool': lambda I, a, k: P.N(I.truth_poly(a[0]), 'bool'),
    'complex': lambda I, a, k: P.N(num(a[0]) + T.I * (num(a[1]) if len(a) > 1 else ZERO), 'complex'),
    'slice': lambda I, a, k: P.Sl(*([None, a[0], None] if len(a) == 1 else list(a) + [None] * (3 - len(a)))),
    'object': None, 'frozenset': b_set,
}

EXC = ['Exception', 'ValueError', 'TypeError', 'KeyError', 'IndexError', 'ImportError', 'ZeroDivisionError',
       'NotImplementedError', 'AttributeError', 'AssertionError', 'RuntimeError', 'IOError', 'OSError', 'StopIteration',
       'ModuleNotFoundError', 'LookupError', 'NameError']


def builtin(I, name):
    ov = I.overrides.get(('builtins', name))
    if ov is not None:
        return ov
    if name in BUILTINS and BUILTINS[name] is not None:
        USED.add('builtins.' + name)
        return P.Bi(name, BUILTINS[name])
    if name in TYPES:
        return P.Ty(name, TYPES[name])
    if name in EXC:
        return P.Ty(name, None)
    if name == '__name__':
        return 'module'
    if name == '__file__':
        return 'file'
    return None


# ------------------------------------------------------------------ numpy

def npdtype(v):
    if v is None:
        return None
    n = v.name if isinstance(v, (P.Ty, P.Bi)) else v if isinstance(v, str) else None
    return {'int': 'int', 'int32': 'int', 'int64': 'int', 'float': 'float', 'float64': 'float', 'complex': 'complex',
            'complex128': 'complex', 'bool': 'bool', 'float32': 'float'}.get(n)


def shape_of(I, v):
    if is_num(v):
        return [v.p]
    return [num(x) for x in I.concrete_items(v)]


def np_array(I, a, k):
    v = a[0]
    dt = npdtype(kwget(a, k, 1, 'dtype'))
    if is_num(v):
        if dt == 'int' and v.ty == 'float':
            return P.N(trunc(I, v.p), 'int')
        return mk0(I, P.N(v.p, dt or v.ty))
    r = asarray(I, v)
    if dt and dtype_of(I, r) != dt:
        return cast(I, r, P.Ty(dt))
    return r


def mk0(I, v):
    """0-d array: treated as a number"""
    if I.zero_d:
        return I.arr_fn((), lambda: v.p, v.ty)
    return v


def np_zeros(val):
    def f(I, a, k):
        sh = shape_of(I, a[0])
        dt = npdtype(kwget(a, k, 1, 'dtype')) or 'float'
        return I.arr_fn(sh, lambda *x: cst(val), dt)
    return f


def np_like(val):
    def f(I, a, k):
        v = a[0] if I.is_arr(a[0]) else asarray(I, a[0])
        if is_num(v):
            return P.N(cst(val), v.ty)
        st = ast_(I, v)
        return I.arr_fn(st.shape, lambda *x: cst(val), npdtype(k.get('dtype')) or st.dtype)
    return f


def np_ndarray(I, a, k):
    sh = shape_of(I, a[0])
    dt = npdtype(kwget(a, k, 1, 'dtype')) or 'float'
    h = T.fresh_name('_undef')
    lv = [var(n, 'int') for n, _ in I.loopvars]
    hook = getattr(I, 'ndarray_hook', None)
    r = I.arr_fn(sh, lambda *x: app(h, *(lv + list(x)), sort=P.sort_of(dt)), dt)
    if hook is not None:
        hook(I, r)
    return r


def np_exp(I, a, k):
    def f(p):
        # exp(i*x) for real x
        q = p * T.conj(T.I)
        if p is not ZERO and any(any(x is T.I_ATOM for x, _ in m.factors) for m, _ in p.terms):
            if T.is_real(q):
                return T.expi(q)
            raise P.Unsupported('complex exponential')
        return app('exp', p)
    v = a[0]
    dt = dtype_of(I, v if (is_num(v) or I.is_arr(v)) else asarray(I, v))
    return arr_map(I, f, v, 'complex' if dt == 'complex' else 'float')


def np_fn(name, fn=None):
    def f(I, a, k):
        return arr_map(I, fn or (lambda p: app(name, p)), a[0], 'float')
    return f


def rint(p):
    if p.is_int:
        return p
    return app('rint', p, sort='int')


def np_floor(I, a, k):
    return arr_map(I, T.floor, a[0], 'float')


def dot(I, x, y):
    x = x if I.is_arr(x) else asarray(I, x)
    y = y if I.is_arr(y) else asarray(I, y)
    sx, sy = ast_(I, x), ast_(I, y)
    if len(sx.shape) == 1 and len(sy.shape) == 1:
        return reduce_sum(I, bmap(I, lambda p, q: p * q, [x, y], P.jty(sx.dtype, sy.dtype)))
    raise P.Unsupported('dot')


def np_sum(I, a, k):
    return reduce_sum(I, a[0], kwget(a, k, 1, 'axis'))


def np_average(I, a, k):
    if k.get('weights') is not None:
        raise P.Unsupported('weighted average')
    return mean(I, a[0], kwget(a, k, 1, 'axis'))


def np_histogram(I, a, k):
    """Counts of the data in the bins given by their edges (last bin closed)"""
    data = a[0]
    bins = kwget(a, k, 1, 'bins')
    e = bins if I.is_arr(bins) else asarray(I, bins)
    es = ast_(I, e)
    nb = es.shape[0] - 1
    b = T.fresh_name('_x')
    bv = var(b, 'int')
    lo = body_at(es, [bv])
    hi = body_at(es, [bv + 1])
    last = T.eq0(bv - nb + 1)
    tot = ZERO
    for s in I.seq(data):
        if isinstance(s, P.Hav):
            raise P.Unsupported('histogram of a list under construction')
        s = P.seg_fresh(s)
        if I.is_arr(data) and len(I.state(data).shape) != 1:
            raise P.Unsupported('histogram of a matrix')
        p = num(s.value)
        inside = T.ge0(p - lo) * T.lt0(p - hi) + last * T.eq0(p - hi) * (ONE - T.eq0(hi - lo))
        tot = tot + T.sum_over(list(s.binders), s.cond * inside)
    h = mk(I, [nb], [b], tot, 'int')
    return P.Tup([h, e])


def np_any(I, a, k):
    return P.N(ONE - T.eq0(reduce_sum(I, a[0]).p), 'bool')


def np_all(I, a, k):
    if len(a) != 1 or k or not I.is_arr(a[0]) or ast_(I, a[0]).dtype != 'bool':
        raise P.Unsupported('numpy.all')
    return P.N(T.eq0(reduce_sum(I, arr_map(I, lambda p: ONE - p, a[0])).p), 'bool')


def np_append(I, a, k):
    """Vectors one after the other"""
    if len(a) != 2 or k:
        raise P.Unsupported('append along an axis')
    x, y = [v if I.is_arr(v) else asarray(I, v if I.is_list(v) or isinstance(v, P.Tup) else I.list_of([v])) for v in a]
    sx, sy = ast_(I, x), ast_(I, y)
    if len(sx.shape) != 1 or len(sy.shape) != 1:
        raise P.Unsupported('append of matrices')
    n = sx.shape[0]
    return I.arr_fn((n + sy.shape[0],), lambda j: T.lt0(j - n) * body_at(sx, [j]) + T.ge0(j - n) * body_at(sy, [j - n]), P.jty(sx.dtype, sy.dtype))


def np_prod(I, a, k):
    it = I.concrete_items(a[0])
    if it is None:
        raise P.Unsupported('product')
    p = ONE
    for x in it:
        p = p * num(x)
    return P.N(p, 'int')


def np_minmax(f):
    def g(I, a, k):
        return bmap(I, f, a[:2], P.jty(dtype_of(I, a[0]), dtype_of(I, a[1])))
    return g


def np_where(I, a, k):
    if len(a) == 3:
        return bmap(I, lambda c, x, y: c * x + (ONE - c) * y, a, P.jty(dtype_of(I, a[1]), dtype_of(I, a[2])))
    raise P.Unsupported('where')


def np_outer(I, a, k):
    x, y = [v if I.is_arr(v) else asarray(I, v) for v in a[:2]]
    sx, sy = ast_(I, x), ast_(I, y)
    n = fresh_names(2)
    return mk(I, [sx.shape[0], sy.shape[0]], n, body_at(sx, [var(n[0], 'int')]) * body_at(sy, [var(n[1], 'int')]), P.jty(sx.dtype, sy.dtype))


def np_linspace(I, a, k):
    lo, hi = num(a[0]), num(a[1])
    n = num(a[2]) if len(a) > 2 else num(k.get('num', P.N(50)))
    return I.arr_fn([n], lambda i: lo + i * (hi - lo) * T.inv(n - 1))


def np_arange(I, a, k):
    r = b_range(I, a, {})
    s = r.segs[0]
    return mk(I, [s.binders[0][1]], [s.binders[0][0]], s.value.p, 'int')


NUMPY = {
    'array': np_array, 'asarray': lambda I, a, k: a[0] if I.is_arr(a[0]) else np_array(I, a, k),
    'asfortranarray': lambda I, a, k: arr_copy(I, a[0]), 'ascontiguousarray': lambda I, a, k: arr_copy(I, a[0]),
    'zeros': np_zeros(0), 'ones': np_zeros(1), 'zeros_like': np_like(0), 'ones_like': np_like(1), 'empty': np_ndarray,
    'sum': np_sum, 'average': np_average, 'mean': np_average,
    'exp': np_exp, 'sin': np_fn('sin'), 'cos': np_fn('cos'), 'sqrt': np_fn('sqrt', T.sqrt), 'log': np_fn('log'),
    'rint': np_fn('rint', rint), 'round': np_fn('rint', rint), 'floor': np_floor, 'abs': b_abs, 'absolute': b_abs, 'fabs': b_abs,
    'append': np_append, 'dot': lambda I, a, k: dot(I, a[0], a[1]), 'histogram': np_histogram,
    'transpose': lambda I, a, k: transpose(I, a[0]), 'any': np_any, 'all': np_all, 'prod': np_prod, 'product': np_prod,
    'minimum': np_minmax(T.minp), 'maximum': np_minmax(T.maxp), 'where': np_where, 'outer': np_outer,
    'min': lambda I, a, k: extremum(I, a[0], 'MIN'), 'max': lambda I, a, k: extremum(I, a[0], 'MAX'),
    'amin': lambda I, a, k: extremum(I, a[0], 'MIN'), 'amax': lambda I, a, k: extremum(I, a[0], 'MAX'),
    'real': lambda I, a, k: arr_map(I, T.re, a[0], 'float'), 'imag': lambda I, a, k: arr_map(I, T.im, a[0], 'float'),
    'conj': lambda I, a, k: arr_map(I, T.conj, a[0]), 'conjugate': lambda I, a, k: arr_map(I, T.conj, a[0]),
    'linspace': np_linspace, 'arange': np_arange, 'square': lambda I, a, k: arr_map(I, lambda p: p * p, a[0]),
    'copy': lambda I, a, k: arr_copy(I, a[0]),
    'multiply': lambda I, a, k: binop(I, ast.Mult(), a[0], a[1]),
    'add': lambda I, a, k: binop(I, ast.Add(), a[0], a[1]),
    'subtract': lambda I, a, k: binop(I, ast.Sub(), a[0], a[1]),
    'logical_and': lambda I, a, k: bmap(I, lambda x, y: x * y, a[:2], 'bool'),
    'count_nonzero': lambda I, a, k: reduce_sum(I, arr_map(I, lambda p: ONE - T.eq0(p), a[0], 'int')),
}
NPTYPES = ['int32', 'int64', 'float64', 'float32']


def np_complex(I, a, k):
    v = a[0]
    if isinstance(v, str):
        c = complex(v)
        return P.N(T.to_poly(c), 'complex')
    return P.N(num(v), 'complex')


def np_get(I, name):
    ov = I.overrides.get(('numpy', name))
    if ov is not None:
        return ov
    USED.add('numpy.' + name)
    if name in NUMPY:
        return P.Bi('numpy.' + name, NUMPY[name])
    if name == 'ndarray':
        return P.Ty('ndarray', np_ndarray)
    if name in ('complex128',):
        return P.Ty('complex128', np_complex)
    if name in NPTYPES:
        f = TYPES['int'] if name.startswith('int') else TYPES['float']
        return P.Ty(name, f)
    if name == 'pi':
        return P.N(var('pi'), 'float')
    if name == 'newaxis':
        return None
    if name in ('int', 'float', 'bool', 'object', 'complex'):
        raise P.PyExc('AttributeError', "module 'numpy' has no attribute '%s'" % name)
    raise P.Unsupported('numpy.%s' % name)


# ------------------------------------------------------------------ other modules

def m_floor(I, a, k):
    return P.N(T.floor(num(a[0])), 'int')


MATH = {'sqrt': lambda I, a, k: I.named(P.N(T.sqrt(num(a[0])), 'float'), 100), 'floor': m_floor,
        'ceil': lambda I, a, k: P.N(T.ceil(num(a[0])), 'int'),
        'exp': lambda I, a, k: P.N(app('exp', num(a[0])), 'float'), 'log': lambda I, a, k: P.N(app('log', num(a[0])), 'float'),
        'sin': lambda I, a, k: P.N(app('sin', num(a[0])), 'float'), 'cos': lambda I, a, k: P.N(app('cos', num(a[0])), 'float'),
        'acos': lambda I, a, k: P.N(app('acos', num(a[0])), 'float'),
        'gamma': lambda I, a, k: P.N(app('gamma', num(a[0])), 'float'),
        'fabs': b_abs}


def math_get(I, name):
    USED.add('math.' + name)
    if name == 'pi':
        return P.N(var('pi'), 'float')
    if name in MATH:
        return P.Bi('math.' + name, MATH[name])
    raise P.Unsupported('math.%s' % name)


def default_dict(I, a, k):
    d = None
    if a:
        f = a[0]
        d = f.name if isinstance(f, P.Ty) else None
        if d is None:
            raise P.Unsupported('defaultdict factory')
    return I.alloc(P.St('dict', (), segs=[], default=d))


def copy_copy(I, a, k):
    v = a[0]
    if is_num(v) or isinstance(v, (str, P.Tup, P.Opq)) or v is None:
        return v
    if I.is_arr(v):
        return arr_copy(I, v)
    if isinstance(v, P.Ref):
        st = I.state(v)
        if st.kind in ('list', 'set'):
            return I.alloc(P.St(st.kind, (), segs=list(st.segs)))
        if st.kind == 'dict':
            return I.alloc(P.St('dict', (), **st.d))
        if st.kind == 'ins':
            return I.alloc(P.St('ins', (), cls=st.cls, attrs=dict(st.attrs)))
    if isinstance(v, P.Sym) and 'copy' in v.ops:
        return v.ops['copy'](I)
    raise P.Unsupported('copy of %r' % (v,))


def noop(name, ret=None):
    return P.Bi(name, lambda I, a, k: ret)


def logger(name='log'):
    return P.Sym('logger', {}, None, {'getattr': lambda I, n: noop('log.' + n)})


def module(I, name):
    ov = I.overrides.get(('module', name))
    if ov is not None:
        return ov
    if name == 'numpy':
        return P.Mod('numpy', lambda k: np_get(I, k))
    if name == 'math':
        return P.Mod('math', lambda k: math_get(I, k))
    if name in ('logging', 'os', 'copy', 'random', 'collections', 'sys', 'datetime', 'os.path', 'warnings', 'string', 're', 'functools', 'itertools'):
        return P.Mod(name, lambda k: library(I, name, k))
    if name == 'atooms' or name.startswith('atooms.postprocessing'):
        if name.startswith('atooms.postprocessing'):
            return P.Mod(name, lambda k: I.pkg_attr(k))
    raise P.Unsupported('module %s' % name)


def library(I, mod, name):
    ov = I.overrides.get((mod, name))
    if ov is not None:
        return ov
    USED.add(mod + '.' + name)
    if mod == 'numpy':
        return np_get(I, name)
    if mod == 'math':
        return math_get(I, name)
    if mod == 'collections' and name == 'defaultdict':
        return P.Ty('defaultdict', default_dict)
    if mod == 'copy' and name == 'copy':
        return P.Bi('copy.copy', copy_copy)
    if mod == 'logging':
        if name == 'getLogger':
            return P.Bi('getLogger', lambda I, a, k: logger())
        return noop('logging.' + name)
    if mod == 'sys' and name == 'float_info':
        return P.Sym('float_info', {'max': lambda I: P.N(var('DBL_MAX'), 'float')})
    if mod == 'sys':
        return P.Opq(var('sys.' + name, 'obj'), 'obj')
    if mod == 'os' and name == 'path':
        return P.Mod('os.path', lambda k: library(I, 'os.path', k))
    if mod.startswith('atooms.') or mod == 'atooms':
        h = getattr(I, 'atooms', None)
        if h is not None:
            v = h(I, mod, name)
            if v is not None:
                return v
        if name == 'Timer':
            return P.Ty('Timer', lambda I, a, k: P.Sym('timer', {'wall_time': lambda I: P.N(var('wall_time'), 'float')}, None,
                                                       {'getattr': lambda I, n: noop('timer.' + n)}))
        return P.Sym('lib:%s.%s' % (mod, name), {}, None, {'call': lambda I, a, k: _unsup('call of %s.%s' % (mod, name))})
    return P.Sym('lib:%s.%s' % (mod, name), {}, None, {'call': lambda I, a, k: _unsup('call of %s.%s' % (mod, name))})
