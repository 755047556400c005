"""
Mechanical translation of the Fortran kernels into the Python subset read by
the verifier.  It is redone from the source at every run; nothing is dropped
but comments, kinds of numbers (arithmetic is mathematical) and the order in
which the elements of an array expression are evaluated (they are pure).

Indices count from one and are checked against the bounds of the array; an
assignment to a whole local array is a fresh array with the declared shape.
"""

import re

TOKEN = re.compile(r"""\s*(?:(?P<num>\d+\.\d*(?:[ed][+-]?\d+)?(?:_\w+)?|\.\d+(?:[ed][+-]?\d+)?(?:_\w+)?|\d+(?:[ed][+-]?\d+)?(?:_\w+)?)
  |(?P<str>'[^']*'|"[^"]*")|(?P<dot>\.\w+\.)|(?P<name>[a-z]\w*)|(?P<op>\*\*|==|/=|<=|>=|=>|::|[-+*/()<>=,:%]))""", re.X)

INTRINSICS = {'size', 'abs', 'sign', 'sqrt', 'sum', 'floor', 'int', 'min', 'max', 'dmin1', 'dmax1', 'acos', 'atan', 'any', 'all', 'count',
              'dot_product', 'conjg', 'nint', 'real', 'dble', 'huge', 'aint', 'anint', 'modulo', 'mod', 'merge', 'ceiling', 'cos', 'sin', 'exp',
              'minval', 'maxval', 'norm2'}
REALS = {'sqrt', 'acos', 'atan', 'cos', 'sin', 'exp', 'real', 'dble', 'huge', 'anint', 'aint', 'norm2', 'dmin1', 'dmax1', 'sum_real'}


class Error(Exception):
    pass


def logical_lines(text):
    """Lines without comments, continued ones joined, in lower case; strings are kept"""
    out, cur, start = [], '', 0
    for no, line in enumerate(text.split('\n'), 1):
        code, quote = '', None
        for ch in line:
            if quote:
                code += ch
                if ch == quote:
                    quote = None
            elif ch in '\'"':
                quote = ch
                code += ch
            elif ch == '!':
                break
            else:
                code += ch.lower()
        code = code.strip()
        if not code:
            continue
        if code.startswith('&'):
            code = code[1:]
        if not cur:
            start = no
        if code.endswith('&'):
            cur += code[:-1] + ' '
            continue
        for part in split_semicolons(cur + code):
            out.append((start, part.strip()))
        cur = ''
    return out


def split_semicolons(s):
    return re.split(r";(?=(?:[^']*'[^']*')*[^']*$)", s)


def tokens(s):
    out, i = [], 0
    s = s.strip()
    while i < len(s):
        m = TOKEN.match(s, i)
        if not m:
            raise Error('cannot read %r' % s[i:])
        k = m.lastgroup
        out.append((k, m.group(k)))
        i = m.end()
        while i < len(s) and s[i] == ' ':
            i += 1
    return out


class Var(object):
    def __init__(self, name, ty, dims, intent, dummy):
        self.name, self.ty, self.dims, self.intent, self.dummy = name, ty, dims, intent, dummy


class Routine(object):
    def __init__(self, kind, name, args, result):
        self.kind, self.name, self.args, self.result = kind, name, args, result
        self.vars, self.body, self.params = {}, [], {}
        self.line = 0


def split_top(s, sep=','):
    out, depth, cur, quote = [], 0, '', None
    for ch in s:
        if quote:
            quote = None if ch == quote else quote
        elif ch in '\'"':
            quote = ch
        elif ch == '(':
            depth += 1
        elif ch == ')':
            depth -= 1
        if ch == sep and depth == 0 and not quote:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


DECL = re.compile(r'^(real|integer|complex|logical|character|double precision)\s*(\([^)]*\))?\s*(.*)$')


def declaration(s):
    m = DECL.match(s)
    if not m or '=' in s.split('::')[0] and 'len' not in s or ('::' not in s and not re.match(r'^[a-z]\w*', m.group(3))):
        return None
    rest = m.group(3)
    if '::' in rest:
        attrs, names = rest.split('::', 1)
    else:
        attrs, names = '', rest
    attrs = [a for a in split_top(attrs) if a]
    ty = {'double precision': 'real'}.get(m.group(1), m.group(1))
    return ty, attrs, names


def parse(text):
    """Routines and parameters of a module"""
    routines, params, cur, stack = {}, {}, None, []
    for no, line in logical_lines(text):
        m = re.match(r'^(?:pure\s+|elemental\s+|recursive\s+)*(subroutine|function)\s+(\w+)\s*\(([^)]*)\)\s*(?:result\s*\(\s*(\w+)\s*\))?$', line)
        if m:
            cur = Routine(m.group(1), m.group(2), [a for a in split_top(m.group(3)) if a], m.group(4))
            cur.line = no
            cur.params = params
            stack = [cur.body]
            continue
        if re.match(r'^end\s*(subroutine|function)\b', line):
            if len(stack) != 1:
                raise Error('line %d: unbalanced blocks' % no)
            routines[cur.name] = cur
            cur = None
            continue
        if re.match(r'^(module\s+\w+|end\s*module.*|contains|implicit\s+none|use\s+.*)$', line):
            continue
        d = declaration(line)
        if d:
            ty, attrs, names = d
            if cur is None:
                if 'parameter' not in attrs:
                    raise Error('line %d: module variable' % no)
                for n in split_top(names):
                    k, v = n.split('=', 1)
                    params[k.strip()] = (ty, v.strip())
                continue
            intent = [a for a in attrs if a.startswith('intent')]
            intent = re.sub(r'[\s()]|intent', '', intent[0]) if intent else None
            dim = [a for a in attrs if a.startswith('dimension')]
            for a in attrs:
                if not a.startswith(('intent', 'dimension', 'parameter')):
                    raise Error('line %d: attribute %s' % (no, a))
            for n in split_top(names):
                if '=' in n:
                    raise Error('line %d: initial value' % no)
                m = re.match(r'^(\w+)\s*(?:\((.*)\))?$', n)
                dims = split_top(m.group(2)) if m.group(2) else (split_top(dim[0][dim[0].index('(') + 1:-1]) if dim else [])
                if ty == 'character':
                    dims = []
                cur.vars[m.group(1)] = Var(m.group(1), ty, dims, intent, m.group(1) in cur.args)
            continue
        if cur is None:
            raise Error('line %d: %s' % (no, line))
        statement(no, line, stack)
    return routines


def closing(s, i):
    depth = 0
    for j in range(i, len(s)):
        if s[j] == '(':
            depth += 1
        elif s[j] == ')':
            depth -= 1
            if depth == 0:
                return j
    raise Error('unbalanced: ' + s)


def statement(no, line, stack):
    put = stack[-1].append
    m = re.match(r'^do\s+(\w+)\s*=\s*(.*)$', line)
    if m:
        b = split_top(m.group(2))
        node = ['do', no, m.group(1), b, []]
        put(node)
        stack.append(node[4])
        return
    m = re.match(r'^do\s+while\s*\((.*)\)$', line)
    if m or line == 'do':
        raise Error('line %d: loop without a count' % no)
    if re.match(r'^end\s*(do|if|where)$', line):
        stack.pop()
        return
    if re.match(r'^if\s*\(', line):
        j = closing(line, line.index('('))
        c, rest = line[line.index('(') + 1:j], line[j + 1:].strip()
        node = ['if', no, c, [], []]
        put(node)
        if rest == 'then':
            stack.append(node[3])
            stack_if.append(node)
        else:
            statement(no, rest, [node[3]])
        return
    m = re.match(r'^else\s*if\s*\((.*)\)\s*then$', line)
    if m:
        stack.pop()
        top = owner(stack)
        node = ['if', no, m.group(1), [], []]
        top[4].append(node)
        stack.append(node[3])
        stack_if[-1] = node
        return
    if line == 'else':
        stack.pop()
        stack.append(owner(stack)[4])
        return
    if re.match(r'^where\s*\(', line):
        j = closing(line, line.index('('))
        c, rest = line[line.index('(') + 1:j], line[j + 1:].strip()
        node = ['where', no, c, []]
        put(node)
        if rest:
            statement(no, rest, [node[3]])
        else:
            stack.append(node[3])
        return
    m = re.match(r'^call\s+(\w+)\s*\((.*)\)$', line)
    if m:
        put(['call', no, m.group(1), split_top(m.group(2))])
        return
    if line in ('cycle', 'exit', 'return'):
        put([line, no])
        return
    i = assignment(line)
    if i is None:
        raise Error('line %d: %s' % (no, line))
    put(['=', no, line[:i].strip(), line[i + 1:].strip()])


stack_if = []


def owner(stack):
    """The innermost open if, of the block just closed"""
    for blk in reversed(stack):
        if blk and blk[-1][0] == 'if':
            n = blk[-1]
            while n[4] and n[4][-1][0] == 'if' and stack_if and stack_if[-1] is not n:
                n = n[4][-1]
            return n
        break
    raise Error('else without if')


def assignment(s):
    depth, quote = 0, None
    for i, ch in enumerate(s):
        if quote:
            quote = None if ch == quote else quote
        elif ch in '\'"':
            quote = ch
        elif ch == '(':
            depth += 1
        elif ch == ')':
            depth -= 1
        elif ch == '=' and depth == 0 and s[i - 1] not in '/<>=' and s[i + 1:i + 2] != '=':
            return i
    return None


class Emit(object):
    """Python text of a routine"""

    def __init__(self, r, routines):
        self.r, self.routines = r, routines
        self.out = []

    # expressions: (python text, type, rank)

    def expr(self, s):
        self.t, self.i = tokens(s), 0
        e = self.disj()
        if self.i != len(self.t):
            raise Error('cannot read %r' % s)
        return e

    def nested(self, s):
        keep = (self.t, self.i) if hasattr(self, 't') else None
        e = self.expr(s)
        if keep:
            self.t, self.i = keep
        return e

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else (None, None)

    def take(self, v=None):
        k, x = self.peek()
        if v is not None and x != v:
            raise Error('%r expected, not %r' % (v, x))
        self.i += 1
        return k, x

    def disj(self):
        a = self.conj()
        while self.peek()[1] == '.or.':
            self.take()
            b = self.conj()
            a = ('_or(%s, %s)' % (a[0], b[0]), 'logical', max(a[2], b[2]))
        return a

    def conj(self):
        a = self.neg()
        while self.peek()[1] == '.and.':
            self.take()
            b = self.neg()
            a = ('_and(%s, %s)' % (a[0], b[0]), 'logical', max(a[2], b[2]))
        return a

    def neg(self):
        if self.peek()[1] == '.not.':
            self.take()
            a = self.neg()
            return '_not(%s)' % a[0], 'logical', a[2]
        return self.comparison()

    REL = {'.lt.': '<', '.le.': '<=', '.gt.': '>', '.ge.': '>=', '.eq.': '==', '.ne.': '!=', '==': '==', '/=': '!=',
           '<': '<', '<=': '<=', '>': '>', '>=': '>='}

    def comparison(self):
        a = self.additive()
        if self.peek()[1] in self.REL:
            op = self.REL[self.take()[1]]
            b = self.additive()
            return '(%s %s %s)' % (a[0], op, b[0]), 'logical', max(a[2], b[2])
        return a

    def additive(self):
        if self.peek()[1] in ('-', '+'):
            op = self.take()[1]
            a = self.term()
            a = ('(%s%s)' % (op, a[0]), a[1], a[2])
        else:
            a = self.term()
        while self.peek()[1] in ('+', '-'):
            op = self.take()[1]
            a = self.join(a, op, self.term())
        return a

    def term(self):
        a = self.power()
        while self.peek()[1] in ('*', '/'):
            op = self.take()[1]
            a = self.join(a, op, self.power())
        return a

    def power(self):
        a = self.atom()
        if self.peek()[1] == '**':
            self.take()
            b = self.power()
            return self.join(a, '**', b)
        return a

    def join(self, a, op, b):
        order = {'integer': 0, 'real': 1, 'complex': 2}
        if a[1] not in order or b[1] not in order:
            raise Error('operator %s of %s and %s' % (op, a[1], b[1]))
        ty = a[1] if order[a[1]] >= order[b[1]] else b[1]
        if op == '/' and ty == 'integer':
            return '_idiv(%s, %s)' % (a[0], b[0]), ty, max(a[2], b[2])
        return '(%s %s %s)' % (a[0], op, b[0]), ty, max(a[2], b[2])

    def args(self):
        """Arguments up to the closing parenthesis: ('e', expr) | ('s', lo, hi) | ('k', name, expr)"""
        out = []
        self.take('(')
        while self.peek()[1] != ')':
            if self.peek()[0] == 'name' and self.i + 1 < len(self.t) and self.t[self.i + 1][1] == '=':
                k = self.take()[1]
                self.take('=')
                out.append(('k', k, self.disj()))
            else:
                lo = None
                if self.peek()[1] != ':':
                    lo = self.disj()
                if self.peek()[1] == ':':
                    self.take()
                    hi = None
                    if self.peek()[1] not in (',', ')'):
                        hi = self.disj()
                    out.append(('s', lo, hi))
                else:
                    out.append(('e', lo))
            if self.peek()[1] == ',':
                self.take()
        self.take(')')
        return out

    def atom(self):
        k, x = self.take()
        if x == '(':
            a = self.disj()
            self.take(')')
            return '(%s)' % a[0], a[1], a[2]
        if x in ('-', '+'):
            a = self.atom()
            return '(%s%s)' % (x, a[0]), a[1], a[2]
        if k == 'num':
            v = x.split('_')[0].replace('d', 'e')
            if re.match(r'^\d+$', v):
                return v, 'integer', 0
            return repr(float(v)), 'real', 0
        if k == 'str':
            return repr(x[1:-1]), 'character', 0
        if k == 'dot' and x in ('.true.', '.false.'):
            return {'.true.': 'True', '.false.': 'False'}[x], 'logical', 0
        if k != 'name':
            raise Error('unexpected %r' % x)
        v = self.r.vars.get(x)
        if v is not None:
            if self.peek()[1] == '(' and v.dims:
                return self.element(v, self.args())
            return py(x), v.ty, len(v.dims)
        if self.peek()[1] == '(':
            a = self.args()
            if x in INTRINSICS:
                return self.intrinsic(x, a)
            raise Error('function ' + x)
        if x in self.r.params:
            ty, val = self.r.params[x]
            if x == 'pi':
                if re.sub(r'\s', '', val) not in ('4*atan(1.0_8)', 'acos(-1.0_8)'):
                    raise Error('parameter pi = ' + val)
                return '_pi', 'real', 0
            e = self.nested(val)
            return '(%s)' % e[0], ty, 0
        raise Error('name ' + x)

    def element(self, v, a):
        if len(a) != len(v.dims):
            raise Error('%s: %d indices' % (v.name, len(a)))
        return '%s[%s]' % (py(v.name), ', '.join(self.indices(v, a))), v.ty, sum(x[0] == 's' or x[1][2] for x in a)

    def indices(self, v, a):
        ix = []
        for d, x in enumerate(a):
            if x[0] == 's':
                if x[1] is None and x[2] is None:
                    ix.append(':')
                else:
                    lo = '_ix(%s, %s, %d)' % (x[1][0], py(v.name), d) if x[1] else ''
                    hi = '_hi(%s, %s, %d)' % (x[2][0], py(v.name), d) if x[2] else ''
                    ix.append(lo + ':' + hi)
            elif x[0] == 'e':
                if x[1][1] != 'integer':
                    raise Error('%s: index of type %s' % (v.name, x[1][1]))
                ix.append('_ix(%s, %s, %d)' % (x[1][0], py(v.name), d) if x[1][2] == 0 else '_ixs(%s, %s, %d)' % (x[1][0], py(v.name), d))
            else:
                raise Error('%s: index' % v.name)
        return ix

    def intrinsic(self, f, a):
        kw = {x[1]: x[2] for x in a if x[0] == 'k'}
        a = [x[1] for x in a if x[0] == 'e']
        for k in kw:
            if k not in ('kind', 'dim', 'mask'):
                raise Error('%s: argument %s' % (f, k))
        if kw.get('dim') or kw.get('mask'):
            raise Error('%s: argument' % f)
        txt = [x[0] for x in a]
        rank = max([x[2] for x in a] + [0])
        order = {'integer': 0, 'real': 1, 'complex': 2, 'logical': -1, 'character': -1}
        ty = max([x[1] for x in a], key=lambda t: order[t])
        if f == 'size':
            return '_size(%s)' % ', '.join(txt[:2]), 'integer', 0
        if f in ('floor', 'int', 'nint', 'ceiling'):
            return '_%s(%s)' % (f, txt[0]), 'integer', rank
        if f in ('sum', 'any', 'all', 'count', 'minval', 'maxval', 'norm2'):
            if len(a) != 1:
                raise Error(f + ': arguments')
            return '_%s(%s)' % (f, txt[0]), {'any': 'logical', 'all': 'logical', 'count': 'integer'}.get(f, ty), 0
        if f == 'dot_product':
            if ty == 'complex':
                raise Error('dot_product of complex arrays')
            return '_sum((%s * %s))' % tuple(txt), ty, 0
        if f in ('min', 'max', 'dmin1', 'dmax1'):
            return '_%s(%s)' % (f[-3:] if f in ('min', 'max') else f[1:4], ', '.join(txt)), ty if f in ('min', 'max') else 'real', rank
        if f in ('real', 'dble'):
            return '_real(%s)' % txt[0], 'real', rank
        if f == 'abs':
            return '_abs(%s)' % txt[0], 'real' if ty == 'complex' else ty, rank
        return '_%s(%s)' % (f, ', '.join(txt)), 'real' if f in REALS else ty, rank

    # statements

    def line(self, depth, s):
        self.out.append('    ' * depth + s)

    def routine(self):
        r = self.r
        for a in r.args:
            if a not in r.vars:
                raise Error('%s: %s is not declared' % (r.name, a))
        res = r.result or r.name
        outs = [res] if r.kind == 'function' else []
        args = []
        for a in r.args:
            v = r.vars[a]
            if v.intent is None:
                raise Error('%s: intent of %s' % (r.name, a))
            if v.intent != 'out':
                args.append(a)
            if v.intent == 'out' or (v.intent == 'inout' and not v.dims):
                outs.append(a)
        self.line(0, 'def %s(%s):' % (py(r.name), ', '.join(py(a) for a in args)))
        for a in args:
            v = r.vars[a]
            if v.dims and v.intent == 'in':
                self.line(1, '_frozen(%s)' % py(a))
        for v in r.vars.values():
            if v.dims and v.name in args:
                self.line(1, '_rank(%s, %d)' % (py(v.name), len(v.dims)))
        for v in r.vars.values():
            if v.name in args:
                for d, n in enumerate(v.dims):
                    if n != ':':
                        # explicit shape: the argument has it
                        self.line(1, '_shape(%s, %d, %s)' % (py(v.name), d, self.nested(n)[0]))
        for v in r.vars.values():
            if v.name in args:
                continue
            if v.dims:
                ty = {'real': 'float', 'integer': 'int', 'complex': 'complex', 'logical': 'bool'}[v.ty]
                dims = ', '.join(self.nested(n)[0] for n in v.dims)
                self.line(1, '_d_%s = (%s,)' % (v.name, dims))
                self.line(1, '%s = _local(%r, _d_%s, %r)' % (py(v.name), v.name, v.name, ty))
        self.block(r.body, 1, False)
        self.line(1, 'return %s' % ', '.join(py(o) for o in outs))
        return '\n'.join(self.out) + '\n'

    def block(self, body, depth, loop):
        if not body:
            self.line(depth, 'pass')
        for st in body:
            try:
                self.stmt(st, depth)
            except Error as e:
                raise Error('line %d: %s' % (st[1], e))

    def stmt(self, st, d):
        k = st[0]
        if k == 'do':
            v = self.r.vars[st[2]]
            b = [self.nested(x) for x in st[3]]
            if v.ty != 'integer' or any(x[1] != 'integer' for x in b):
                raise Error('loop over %s' % v.ty)
            step = ', %s' % b[2][0] if len(b) > 2 else ''
            if step and not re.match(r'^\(?\d+\)?$', b[2][0]):
                raise Error('step of a loop')
            self.line(d, 'for %s in range(%s, %s + 1%s):' % (py(st[2]), b[0][0], b[1][0], step))
            self.block(st[4], d + 1, True)
        elif k == 'if':
            self.line(d, 'if %s:' % self.nested(st[2])[0])
            self.block(st[3], d + 1, False)
            if st[4]:
                self.line(d, 'else:')
                self.block(st[4], d + 1, False)
        elif k == 'where':
            c = self.nested(st[2])[0]
            if len(st[3]) != 1 or st[3][0][0] != '=':
                raise Error('where with several statements')
            _, _, lhs, rhs = st[3][0]
            self.assign(lhs, lambda cur: '_where(%s, %s, %s)' % (c, self.nested(rhs)[0], cur), None, d)
        elif k == '=':
            e = self.nested(st[3])
            self.assign(st[2], lambda cur: e[0], e, d)
        elif k == 'call':
            f = self.routines.get(st[2])
            if f is None:
                raise Error('call of ' + st[2])
            if any(f.vars[a].intent == 'out' or not f.vars[a].dims and f.vars[a].intent != 'in' for a in f.args):
                raise Error('call of %s, with scalar results' % st[2])
            self.line(d, '%s(%s)' % (py(st[2]), ', '.join(self.nested(a)[0] for a in st[3])))
        elif k in ('cycle', 'exit'):
            self.line(d, {'cycle': 'continue', 'exit': 'break'}[k])
        else:
            raise Error(k)

    def assign(self, lhs, value, e, d):
        t = tokens(lhs)
        v = self.r.vars.get(t[0][1])
        if v is None:
            raise Error('assignment to ' + lhs)
        if v.intent == 'in':
            raise Error('assignment to an argument of intent in: ' + lhs)
        if not v.dims:
            val = value(py(v.name))
            if e is not None and v.ty == 'integer' and e[1] == 'real':
                val = '_int(%s)' % val
            if e is not None and e[2]:
                raise Error('array assigned to a scalar')
            self.line(d, '%s = %s' % (py(v.name), val))
            return
        whole = len(t) == 1
        if not whole:
            self.t, self.i = t, 1
            a = self.args()
            whole = all(x[0] == 's' and x[1] is None and x[2] is None for x in a)
        if whole:
            local = v.name not in self.r.args or v.intent == 'out'
            if local:
                ty = {'real': 'float', 'integer': 'int', 'complex': 'complex', 'logical': 'bool'}[v.ty]
                self.line(d, '%s = _new(%s, _d_%s, %r)' % (py(v.name), value(py(v.name)), v.name, ty))
            else:
                self.line(d, '%s[%s] = _conform(%s, %s)' % (py(v.name), ', '.join(':' for _ in v.dims), value(py(v.name)), py(v.name)))
            return
        ix = ', '.join(self.indices(v, a))
        cur = '%s[%s]' % (py(v.name), ix)
        self.line(d, '%s = %s' % (cur, value(cur)))


KEYWORDS = {'lambda', 'is', 'in', 'not', 'and', 'or', 'pass', 'def', 'class', 'from', 'with', 'as', 'try', 'del', 'global', 'raise', 'yield'}


def py(name):
    return name + '_' if name in KEYWORDS else name


def translate(text):
    """{routine: python text, or the reason why there is none}"""
    out = {}
    rs = parse(text)
    for r in rs.values():
        try:
            out[r.name] = (Emit(r, rs).routine(), None)
        except Error as e:
            out[r.name] = (None, str(e))
    return out
