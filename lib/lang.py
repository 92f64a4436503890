"""The Buzz language: abstract syntax, printer, reference interpreter, random programs.

Expressions (tuples):
  ('int',n) ('flt',text) ('str',s) ('nil',) ('var',name) ('bin',op,a,b) ('un','-',a) ('bnot',a)
  ('cmp',op,a,b) ('log',op,a,b) ('not',a) ('tab',[(key,e)]) ('idx',base,e) ('dot',base,name)
  ('call',f,[e]) ('lam',[params],[stats])
Statements (lists, so that the printer can put the line in front):
  ['var',name,e|None] ['set',lvalue,e] ['expr',call] ['if',c,[..],[..]|None] ['while',c,[..]]
  ['for',init,c,upd,[..]] ['ret',e|None] ['fun',name,[params],[..]]
"""
import json, math, random, struct

# ------------------------------------------------------------- values

I32 = 1 << 32


def i32(n):
    n &= I32 - 1
    return n - I32 if n >= 1 << 31 else n


def f32(x):
    try:
        return struct.unpack('f', struct.pack('f', x))[0]
    except OverflowError:
        return math.inf if x > 0 else -math.inf


class F(object):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = f32(v)

    def __repr__(self):
        return 'F(%r)' % self.v


class Table(object):
    __slots__ = ('d',)

    def __init__(self):
        self.d = {}     # canonical key -> (key, value)

    @staticmethod
    def canon(k):
        if isinstance(k, str):
            return ('s', k)
        v = k if isinstance(k, int) else k.v
        return ('n', float(v))

    def put(self, k, v):
        self.d[Table.canon(k)] = (k, v)

    def get(self, k):
        r = self.d.get(Table.canon(k))
        return r[1] if r else None

    def rem(self, k):
        self.d.pop(Table.canon(k), None)


class Closure(object):
    __slots__ = ('params', 'body', 'cap', 'selfv', 'name')

    def __init__(self, params, body, cap, selfv, name=None):
        self.params, self.body, self.cap, self.selfv, self.name = params, body, cap, selfv, name


class CFun(object):
    __slots__ = ('fn', 'arity', 'name', 'selfv')

    def __init__(self, name, fn, arity):
        self.fn, self.arity, self.name, self.selfv = fn, arity, name, None


class Udata(object):
    pass


ERR = dict(INSTR=1, STACK=2, LNUM=3, PC=4, FLIST=5, TYPE=6, STRING=7, SWARM=8, MATH=9)


class BuzzError(Exception):
    def __init__(self, code, msg=''):
        Exception.__init__(self, code, msg)
        self.code = ERR[code]
        self.name = code


class TooLong(Exception):
    pass


class Unknown(Exception):
    """The reference has no opinion."""


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


def tname(v):
    if v is None:
        return 'nil'
    if isinstance(v, bool):
        raise AssertionError
    if isinstance(v, int):
        return 'integer'
    if isinstance(v, F):
        return 'float'
    if isinstance(v, str):
        return 'string'
    if isinstance(v, Table):
        return 'table'
    if isinstance(v, (Closure, CFun)):
        return 'closure'
    return 'userdata'


def truth(v):
    return not (v is None or (isinstance(v, int) and v == 0))


def num(v):
    return v if isinstance(v, int) else v.v


def text(v):
    return '%d' % v if isinstance(v, int) else '%f' % v.v


def sgn(a, b):
    return (a > b) - (a < b)


def compare(a, b):
    """-1, 0, 1, or 2 when the values can't be compared."""
    if a is None and b is None:
        return 0
    if a is None or b is None:
        return 2
    na, nb = isinstance(a, (int, F)), isinstance(b, (int, F))
    if na and nb:
        x, y = num(a), num(b)
        if isinstance(a, F) != isinstance(b, F):
            x, y = f32(x), f32(y)
        if x != x or y != y:
            return 2
        return sgn(x, y)
    if isinstance(a, str) and isinstance(b, str):
        return sgn(a.encode('latin-1'), b.encode('latin-1'))
    if isinstance(a, str) and nb:
        if isinstance(b, F) and not math.isfinite(b.v):
            raise Unknown()
        return sgn(a.encode('latin-1'), text(b).encode())
    if na and isinstance(b, str):
        if isinstance(a, F) and not math.isfinite(a.v):
            raise Unknown()
        return sgn(text(a).encode(), b.encode('latin-1'))
    ta, tb = isinstance(a, Table), isinstance(b, Table)
    if ta and tb:
        if a is b:
            return 0
        return 3        # different, order unknown
    if ta:
        return 1
    if tb:
        return -1
    if isinstance(a, Udata) and isinstance(b, Udata):
        return 0 if a is b else 3
    if isinstance(a, (Closure, CFun)) and isinstance(b, (Closure, CFun)):
        return 0 if a is b else 3
    return 2


def cmpop(op, a, b):
    c = compare(a, b)
    if c == 2:
        return 1 if op == '!=' else 0
    if c == 3:
        if op == '==':
            return 0
        if op == '!=':
            return 1
        raise Unknown()
    return int({'==': c == 0, '!=': c != 0, '<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0}[op])


def fmul(x, y):
    return x * y


def arith(op, a, b):
    if op in ('/', '%') and isinstance(a, int) and isinstance(b, int) and b == 0:
        raise BuzzError('MATH')
    for v in (a, b):
        if not isinstance(v, (int, F)):
            raise BuzzError('TYPE')
    if isinstance(a, int) and isinstance(b, int):
        if op == '+':
            return i32(a + b)
        if op == '-':
            return i32(a - b)
        if op == '*':
            return i32(a * b)
        if op == '/':
            q = abs(a) // abs(b)
            return i32(q if (a < 0) == (b < 0) else -q)
        if op == '%':
            return a % abs(b)
    x, y = f32(float(num(a))), f32(float(num(b)))
    if op == '+':
        return F(x + y)
    if op == '-':
        return F(x - y)
    if op == '*':
        return F(x * y)
    if op == '/':
        if y == 0:
            if x == 0 or x != x:
                return F(math.nan)
            neg = (math.copysign(1, x) < 0) != (math.copysign(1, y) < 0)
            return F(-math.inf if neg else math.inf)
        return F(x / y)
    if op == '%':
        if y == 0 or math.isinf(x) or x != x or y != y:
            return F(math.nan)
        if math.isinf(y):
            r = x
        else:
            r = math.fmod(x, y)
        if r < 0:
            r = f32(f32(r) + abs(y))
        return F(r)
    if op == '^':
        if x == int(x) and y == int(y) and 0 <= y <= 40 and abs(x) <= 64 if math.isfinite(x) and math.isfinite(y) else False:
            r = int(x) ** int(y)
            if abs(r) < (1 << 24):
                return F(float(r))
        raise Unknown()
    raise AssertionError(op)


def bitop(op, a, b):
    if not isinstance(a, int) or not isinstance(b, int):
        raise BuzzError('TYPE')
    if op == '&':
        return a & b
    if op == '|':
        return a | b
    if op == '<<':
        return i32(a << (b & 31))
    return i32(a >> (b & 31))


def norm(j):
    """Canonical form of a value printed by the harness."""
    if isinstance(j, dict):
        if 't' in j:
            es = []
            for k, v in j['t']:
                k = norm(k)
                if isinstance(k, tuple) and k[0] == 'f' and math.isfinite(k[1]) and k[1] == int(k[1]):
                    k = int(k[1])
                es.append((k, norm(v)))
            es.sort(key=repr)
            return ('t', tuple(es))
        if 'f' in j:
            t = j['f']
            v = math.nan if 'nan' in t else float(t) if 'inf' in t else float.fromhex(t)
            if v == 0:
                v = 0.0
            return ('f', v) if v == v else ('f', 'nan')
        if 'c' in j:
            return ('c', j['c'])
        if 'r' in j:
            return ('r', j['r'])
        return ('u',)
    return j


def jv(v, path=()):
    """Canonical form of a reference value, as norm() gives it."""
    if v is None or isinstance(v, (int, str)):
        return v
    if isinstance(v, F):
        x = v.v
        if x == 0:
            x = 0.0
        return ('f', x) if x == x else ('f', 'nan')
    if isinstance(v, Closure):
        return ('c', 'n')
    if isinstance(v, CFun):
        return ('c', 'c')
    if isinstance(v, Table):
        for i, t in enumerate(path):
            if t is v:
                return ('r', len(path) - i)
        es = []
        for k, x in v.d.values():
            if isinstance(k, F):
                kk = k.v
                k = int(kk) if math.isfinite(kk) and kk == int(kk) else ('f', kk)
            es.append((k, jv(x, path + (v,))))
        es.sort(key=repr)
        return ('t', tuple(es))
    return ('u',)


# ------------------------------------------------------------- printer

PREC = {'log': 0, 'cmp': 1, '+': 2, '-': 2, '*': 3, '/': 3, '%': 4, '^': 5, '<<': 6, '>>': 6, '&': 7, '|': 7, 'bnot': 8, 'opnd': 9}


def esc(s, q='"', rng=None):
    out = ''
    raw = rng and rng.random() < .4
    for c in s:
        if c == '\\' or c == q:
            out += '\\' + c
        elif raw and c in '\n\t':
            out += c
        elif raw and c not in 'nt\n' and rng.random() < .1:
            out += '\\' + c
        elif c == '\n':
            out += '\\n'
        elif c == '\t':
            out += '\\t'
        else:
            out += c
    return q + out + q


class Printer:
    """Prints a program; remembers the lines each statement spans."""

    def __init__(self, rng=None, loose=True):
        self.out = []
        self.line = 1
        self.rng = rng or random.Random(0)
        self.loose = loose
        self.spans = {}

    def w(self, s):
        self.out.append(s)
        self.line += s.count('\n')

    def text(self):
        return ''.join(self.out)

    def sp(self):
        return ' ' if not self.loose or self.rng.random() < .85 else self.rng.choice(['', '  ', '\t'])

    def expr(self, e, need=2, base=False):
        """need: the loosest construct allowed without parentheses."""
        p = self.prec(e)
        par = p < need or (self.loose and not base and e[0] not in ('tab', 'lam') and self.rng.random() < .04)
        if par:
            self.w('(')
        k = e[0]
        if k == 'int':
            self.w(str(e[1]))
        elif k == 'flt':
            self.w(e[1])
        elif k == 'str':
            self.w(esc(e[1], self.rng.choice('"\''), self.rng) if self.loose else esc(e[1]))
        elif k == 'nil':
            self.w('nil')
        elif k == 'var':
            self.w(e[1])
        elif k == 'bin':
            op = e[1]
            if op == '^':
                self.expr(e[2], 6)
                self.w(self.sp() + op + self.sp())
                self.expr(e[3], 5)
            else:
                self.expr(e[2], PREC[op] if e[2][0] != 'tab' else 9)
                self.w(self.sp() + op + self.sp())
                self.expr(e[3], PREC[op] + 1)
        elif k == 'un':
            # a sign before a numeric constant belongs to the constant
            l = e[2]
            while l[0] in ('bin', 'cmp', 'log'):
                l = l[2]
            self.w('-')
            self.expr(e[2], 5 if l[0] not in ('int', 'flt') else 10)
        elif k == 'bnot':
            self.w('!')
            self.expr(e[1], 8)
        elif k == 'cmp':
            self.expr(e[2], 2)
            self.w(self.sp() + e[1] + self.sp())
            self.expr(e[3], 2)
        elif k == 'log':
            self.expr(e[2], 0 if e[2][0] == 'log' else 1)
            self.w(' ' + e[1] + ' ')
            self.expr(e[3], 1)
        elif k == 'not':
            self.w('not ')
            self.expr(e[1], 0)
        elif k == 'tab':
            self.w('{')
            for i, (key, x) in enumerate(e[1]):
                self.w((',' if i else '') + self.sp() + '.' + str(key) + self.sp() + '=' + self.sp())
                self.expr(x, 2)
            self.w(self.sp() + '}')
        elif k == 'idx':
            self.expr(e[1], 9, True)
            self.w('[')
            self.expr(e[2], 2)
            self.w(']')
        elif k == 'dot':
            self.expr(e[1], 9, True)
            self.w('.' + e[2])
        elif k == 'call':
            self.expr(e[1], 9, True)
            self.w('(')
            for i, a in enumerate(e[2]):
                if i:
                    self.w(',' + self.sp())
                self.expr(a, -1)
            self.w(')')
        elif k == 'lam':
            self.w('function(' + ', '.join(e[1]) + ') {')
            self.block(e[2])
            self.w('}')
        else:
            raise AssertionError(e)
        if par:
            self.w(')')

    def prec(self, e):
        k = e[0]
        if k == 'bin':
            return PREC[e[1]]
        if k == 'un':
            # -x takes everything up to ^; a negative constant is an operand
            return 5 if e[2][0] not in ('int', 'flt') else 5
        if k == 'bnot':
            return 8
        if k == 'cmp':
            return 1
        if k == 'log':
            return 0
        if k == 'not':
            return -1
        if k == 'tab':
            return 2
        if k in ('int', 'flt'):
            return 9 if not str(e[1]).startswith('-') else 5
        return 9

    def block(self, stats, ind=0):
        self.w('\n')
        for s in stats:
            self.stat(s)

    def stat(self, s):
        if self.loose:
            r = self.rng.random()
            if r < .04:
                self.w('# a comment with } and " in it\n')
            elif r < .08:
                self.w('\n')
        l0 = self.line
        k = s[0]
        if k == 'var':
            self.w('var ' + s[1])
            if s[2] is not None:
                self.w(self.sp() + '=' + self.sp())
                self.expr(s[2], 2)
        elif k == 'set':
            self.expr(s[1], 9, True)
            self.w(self.sp() + '=' + self.sp())
            self.expr(s[2], 2)
        elif k == 'expr':
            self.expr(s[1], 9, True)
        elif k == 'if':
            self.w('if(')
            self.expr(s[1], -1)
            self.w(') {')
            self.spans[id(s)] = [l0, self.line]
            self.block(s[2])
            self.w('}')
            if s[3] is not None:
                self.w(self.rng.choice([' else {', '\nelse {']) if self.loose else ' else {')
                self.block(s[3])
                self.w('}')
        elif k == 'while':
            self.w('while(')
            self.expr(s[1], -1)
            self.w(') {')
            self.spans[id(s)] = [l0, self.line]
            self.block(s[2])
            self.w('}')
        elif k == 'for':
            self.w('for(')
            self.simple(s[1])
            self.w(', ')
            self.expr(s[2], -1)
            self.w(', ')
            self.simple(s[3])
            self.w(') {')
            self.spans[id(s)] = [l0, self.line]
            self.block(s[4])
            self.w('}')
        elif k == 'ret':
            self.w('return')
            if s[1] is not None:
                self.w(' ')
                self.expr(s[1], -1)
        elif k == 'fun':
            self.w('function ' + s[1] + '(' + ', '.join(s[2]) + ') {')
            self.block(s[3])
            self.w('}')
        else:
            raise AssertionError(s)
        self.spans.setdefault(id(s), [l0, self.line])
        if k == 'ret' and s[1] is None:
            self.w('\n')
        elif self.loose and self.rng.random() < .1:
            self.w(';\n')
        else:
            self.w('\n')

    def simple(self, s):
        if s[0] == 'set':
            self.expr(s[1], 9, True)
            self.w(' = ')
            self.expr(s[2], 2)
        else:
            self.expr(s[1], 9, True)


def program_text(stats, rng=None, loose=True):
    p = Printer(rng, loose)
    for s in stats:
        p.stat(s)
    return p.text(), p.spans


# ------------------------------------------------------------- reference interpreter

class Interp:
    def __init__(self, robot=0, fuel=200000, order=None):
        self.g = {}
        self.order = order or (lambda l: l)   # order of iteration over tables
        self.fuel = fuel
        self.events = []
        self.cur = None         # statement being executed
        self.depth = 0
        self.g['id'] = robot
        self.base()
        self.udata_obj = Udata()

    def cf(self, name, fn, arity):
        self.g[name] = CFun(name, fn, arity)

    def base(self):
        self.cf('trace', self.f_trace, None)
        self.cf('cfirst', lambda a: a[0], 1)
        self.cf('ccall', self.f_ccall, 2)
        self.cf('gc', lambda a: None, None)
        self.cf('udata', lambda a: self.udata_obj, None)
        self.cf('failc', self.f_failc, None)
        self.cf('type', lambda a: tname(a[0]), 1)
        self.cf('size', self.f_size, 1)
        self.cf('clone', lambda a: self.clone(a[0], []), 1)
        self.cf('foreach', self.f_foreach, 2)
        self.cf('map', self.f_map, 2)
        self.cf('reduce', self.f_reduce, 3)
        self.cf('filter', self.f_filter, 2)
        self.cf('int', self.f_int, 1)
        self.cf('float', self.f_float, 1)
        for t in ('nil', 'int', 'float', 'string', 'table', 'closure', 'userdata'):
            self.cf('is' + t, (lambda t: lambda a: int(tname(a[0]) == t))({'int': 'integer'}.get(t, t)), 1)

    # builtins
    def f_trace(self, a):
        self.events.append([jv(x) for x in a])
        return None

    def f_ccall(self, a):
        if not isinstance(a[0], (Closure, CFun)):
            raise BuzzError('TYPE')
        return self.call(a[0], [a[1]])

    def f_failc(self, a):
        raise BuzzError('TYPE')

    def tab(self, v):
        if not isinstance(v, Table):
            raise BuzzError('TYPE')
        return v

    def clo(self, v):
        if not isinstance(v, (Closure, CFun)):
            raise BuzzError('TYPE')
        return v

    def f_size(self, a):
        return len(self.tab(a[0]).d)

    def f_int(self, a):
        if not isinstance(a[0], F):
            raise BuzzError('TYPE')
        x = a[0].v
        if x != x:
            return 0
        if x >= 2147483648.0:
            return 2147483647
        if x < -2147483648.0:
            return -2147483648
        return int(x)

    def f_float(self, a):
        if not isinstance(a[0], int):
            raise BuzzError('TYPE')
        return F(float(a[0]))

    def f_foreach(self, a):
        t, f = self.tab(a[0]), self.clo(a[1])
        for k, v in self.order(list(t.d.values())):
            self.call(f, [k, v])
        return None

    def f_map(self, a):
        t, f = self.tab(a[0]), self.clo(a[1])
        r = Table()
        for k, v in self.order(list(t.d.values())):
            x = self.call(f, [k, v])
            if x is not None:
                r.put(k, x)
        return r

    def f_reduce(self, a):
        t, f = self.tab(a[0]), self.clo(a[1])
        acc = a[2]
        for k, v in self.order(list(t.d.values())):
            acc = self.call(f, [k, v, acc])
        return acc

    def f_filter(self, a):
        t, f = self.tab(a[0]), self.clo(a[1])
        r = Table()
        for k, v in self.order(list(t.d.values())):
            if truth(self.call(f, [k, v])):
                r.put(k, v)
        return r

    def clone(self, v, path):
        if isinstance(v, Table):
            for o, c in path:
                if o is v:
                    return c
            n = Table()
            for k, x in v.d.values():
                n.put(k, self.clone(x, path + [(v, n)]))
            return n
        if isinstance(v, Closure):
            return Closure(v.params, v.body, dict(v.cap), v.selfv)
        if isinstance(v, CFun):
            c = CFun(v.name, v.fn, v.arity)
            c.selfv = v.selfv
            return c
        return v

    # evaluation
    def tick(self):
        self.fuel -= 1
        if self.fuel < 0:
            raise TooLong()

    def call(self, f, args):
        self.tick()
        self.depth += 1
        if self.depth > 200:
            raise TooLong()
        try:
            if isinstance(f, CFun):
                if f.arity is not None and len(args) != f.arity:
                    raise BuzzError('LNUM')
                self.cself = f.selfv
                return f.fn(args)
            if len(args) != len(f.params):
                raise Unknown()
            env = [dict(f.cap)]
            env[0]['self'] = f.selfv
            for p, a in zip(f.params, args):
                env[0][p] = a
            save = self.cur
            try:
                self.block(f.body, env)
            except _Ret as r:
                self.cur = save
                return r.v
            self.cur = save
            return None
        finally:
            self.depth -= 1

    def lookup(self, n, env):
        for s in reversed(env):
            if n in s:
                return s[n]
        return self.g.get(n)

    def tget(self, t, k):
        if not isinstance(t, Table):
            raise BuzzError('TYPE')
        if not isinstance(k, (int, F, str)):
            raise BuzzError('TYPE')
        return t.get(k)

    def tput(self, t, k, v):
        if not isinstance(t, Table):
            raise BuzzError('TYPE')
        if not isinstance(k, (int, F, str)):
            raise BuzzError('TYPE')
        if v is None:
            t.rem(k)
        elif isinstance(v, Closure):
            t.put(k, Closure(v.params, v.body, v.cap, t))
        elif isinstance(v, CFun):
            c = CFun(v.name, v.fn, v.arity)
            c.selfv = t
            t.put(k, c)
        else:
            t.put(k, v)

    def ev(self, e, env):
        self.tick()
        k = e[0]
        if k == 'int':
            return i32(e[1])
        if k == 'flt':
            return F(float(e[1]))
        if k == 'str':
            return e[1]
        if k == 'nil':
            return None
        if k == 'var':
            return self.lookup(e[1], env)
        if k == 'bin':
            a = self.ev(e[2], env)
            b = self.ev(e[3], env)
            if e[1] in ('&', '|', '<<', '>>'):
                return bitop(e[1], a, b)
            return arith(e[1], a, b)
        if k == 'un':
            a = self.ev(e[2], env)
            if isinstance(a, int):
                return i32(-a)
            if isinstance(a, F):
                return F(-a.v)
            raise BuzzError('TYPE')
        if k == 'bnot':
            a = self.ev(e[1], env)
            if not isinstance(a, int):
                raise BuzzError('TYPE')
            return ~a
        if k == 'cmp':
            a = self.ev(e[2], env)
            b = self.ev(e[3], env)
            return cmpop(e[1], a, b)
        if k == 'log':
            a = truth(self.ev(e[2], env))
            b = truth(self.ev(e[3], env))
            return int((a and b) if e[1] == 'and' else (a or b))
        if k == 'not':
            return int(not truth(self.ev(e[1], env)))
        if k == 'tab':
            t = Table()
            for key, x in e[1]:
                v = self.ev(x, env)
                if isinstance(key, str) and not key[0].isdigit():
                    self.tput(t, key, v)
                else:
                    self.tput(t, F(float(key)) if '.' in str(key) else int(key), v)
            return t
        if k == 'idx':
            b = self.ev(e[1], env)
            i = self.ev(e[2], env)
            return self.tget(b, i)
        if k == 'dot':
            return self.tget(self.ev(e[1], env), e[2])
        if k == 'call':
            f = self.ev(e[1], env)
            a = [self.ev(x, env) for x in e[2]]
            if not isinstance(f, (Closure, CFun)):
                raise BuzzError('TYPE')
            return self.call(f, a)
        if k == 'lam':
            cap = {}
            for s in env:
                cap.update(s)
            sv = cap.pop('self', None)
            return Closure(e[1], e[2], cap, sv)
        raise AssertionError(e)

    def block(self, stats, env):
        env.append({})
        try:
            for s in stats:
                self.st(s, env)
        finally:
            env.pop()

    def assign(self, lv, e, env):
        if lv[0] == 'var':
            v = self.ev(e, env)
            for s in reversed(env):
                if lv[1] in s:
                    s[lv[1]] = v
                    return
            self.g[lv[1]] = v
        else:
            t = self.ev(lv[1], env)
            key = lv[2] if lv[0] == 'dot' else self.ev(lv[2], env)
            v = self.ev(e, env)
            self.tput(t, key, v)

    def st(self, s, env):
        self.tick()
        self.cur = s
        k = s[0]
        if k == 'var':
            if env:
                env[-1][s[1]] = None
                env[-1][s[1]] = self.ev(s[2], env) if s[2] is not None else None
            else:
                self.g[s[1]] = self.ev(s[2], env) if s[2] is not None else None
        elif k == 'set':
            self.assign(s[1], s[2], env)
        elif k == 'expr':
            self.ev(s[1], env)
        elif k == 'if':
            if truth(self.ev(s[1], env)):
                self.block(s[2], env)
            elif s[3] is not None:
                self.block(s[3], env)
        elif k == 'while':
            while True:
                self.cur = s
                if not truth(self.ev(s[1], env)):
                    break
                self.block(s[2], env)
        elif k == 'for':
            self.st_simple(s[1], env)
            while True:
                self.cur = s
                if not truth(self.ev(s[2], env)):
                    break
                self.block(s[4], env)
                self.cur = s
                self.st_simple(s[3], env)
        elif k == 'ret':
            raise _Ret(self.ev(s[1], env) if s[1] is not None else None)
        elif k == 'fun':
            pass
        else:
            raise AssertionError(s)

    def st_simple(self, s, env):
        if s[0] == 'set':
            self.assign(s[1], s[2], env)
        else:
            self.ev(s[1], env)

    def load(self, stats):
        for s in stats:
            if s[0] == 'fun':
                self.g[s[1]] = Closure(s[2], s[3], {}, None, s[1])

    def run(self, stats):
        """Returns None or the BuzzError."""
        self.load(stats)
        env = []
        try:
            for s in stats:
                self.st(s, env)
        except BuzzError as x:
            return x
        return None
