"""B19: the host API: operand stack, globals, calls in both directions."""
import lang
from lang import BuzzError, F, Table
from run import Case, Stage, parse
from util import *

RULE = ('Random sequences of host operations on a live robot: pushing every type, all stack operations, building and reading tables, globals, registered C functions, calls of script functions and closures (also C '
        'functions that call back), interleaved with script calls and garbage collection; after every operation the whole operand stack, the state and the result are compared with a reference stack machine, including the '
        'errors for missing or ill-typed operands. Non-trivial: all histories.')
ASSUMPTIONS = ['a call has its arguments on the stack', 'after an error the robot is restarted']

PROG = '''
G = {}
x = 5
function f0() { return 7 }
function f1(a) { return a }
function f2(a, b) { return {.a = a, .b = b} }
function f5(a, b, c, d, e) { return {.a = a, .b = b, .c = c, .d = d, .e = e} }
function f9(a, b, c, d, e, f, g, h, i) { return {.a = a, .e = e, .h = h, .i = i} }
function f3(a, b, c) { x = a G[b] = c return x }
function fn(a) { }
function fc(f, a) { return ccall(f, a) }
function adder(n) { return function(m) { return n + m } }
function glob() { return x }
function deep(n) { if(n == 0) { return 0 } else { return 1 + deep(n - 1) } }
function meth(t) { return t.m(3) }
function setg(v) { newg = v return newg }
function viacc(a) { return reg1(a) }
m = {.k = 10, .m = function(v) { return self.k + v }}
'''
BIN = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/', 'mod': '%', 'pow': '^'}
BIT = {'band': '&', 'bor': '|', 'lshift': '<<', 'rshift': '>>'}
CMP = {'eq': '==', 'neq': '!=', 'gt': '>', 'gte': '>=', 'lt': '<', 'lte': '<='}


class U:
    pass


class Fun:
    """A closure the model knows: fn(args) -> value; native or C."""
    def __init__(self, fn, arity, c):
        self.fn, self.arity, self.c = fn, arity, c
        self.bind = None    # for methods: the closure for another table


def put(t, k, v):
    """Storing a method in a table makes that table its self."""
    t.put(k, v.bind(t) if isinstance(v, Fun) and v.bind else v)


def conv(v, path=()):
    if isinstance(v, Table):
        for o, c in path:
            if o is v:
                return c
        n = Table()
        for k, x in v.d.values():
            n.put(k, conv(x, path + ((v, n),)))
        return n
    if isinstance(v, Fun):
        return lang.CFun('', None, None) if v.c else lang.Closure([], [], {}, None)
    return v


class Model:
    def __init__(self):
        self.st = []
        self.G = {}
        g = self.G

        def tab(**kw):
            t = Table()
            for k, v in kw.items():
                if v is not None:
                    put(t, k, v)
            return t
        g['x'] = 5
        g['G'] = Table()

        def f3(a, b, c):
            if not isinstance(b, (int, F, str)):
                raise BuzzError('TYPE')
            if isinstance(b, F) and (b.v != b.v or abs(b.v) >= 2**20) or isinstance(b, int) and abs(b) >= 2**24:
                raise lang.Unknown()
            g['x'] = a
            if c is None:
                g['G'].rem(b)
            else:
                put(g['G'], b, c)
            return a

        def call(f, a):
            if not isinstance(f, Fun):
                raise BuzzError('TYPE')
            if f.arity != 1:
                raise lang.Unknown()
            return f.fn(a)

        def setg(v):
            g['newg'] = v
            return v
        for n, f, k in [('f0', lambda: 7, 0), ('f1', lambda a: a, 1), ('f2', lambda a, b: tab(a=a, b=b), 2), ('f3', f3, 3), ('f5', lambda a, b, c, d, e: tab(a=a, b=b, c=c, d=d, e=e), 5),
                        ('f9', lambda a, b, c, d, e, f, g, h, i: tab(a=a, e=e, h=h, i=i), 9), ('fn', lambda a: None, 1), ('fc', call, 2),
                        ('adder', lambda n: Fun(lambda m: lang.arith('+', n, m), 1, False), 1), ('glob', lambda: g['x'], 0), ('setg', setg, 1)]:
            g[n] = Fun(f, k, False)

        def deep(n):
            if not isinstance(n, int) or not 0 <= n <= 50:
                raise lang.Unknown()
            return n
        g['deep'] = Fun(deep, 1, False)
        g['ccall'] = Fun(call, 2, True)
        g['cfirst'] = Fun(lambda a: a, 1, True)
        m = Table()
        m.put('k', 10)

        def method(t):
            f = Fun(lambda v: lang.arith('+', t.get('k'), v), 1, False)
            f.bind = method
            return f
        m.put('m', method(m))
        g['m'] = m

    def need(self, n):
        if len(self.st) < n:
            raise BuzzError('STACK')

    def apply(self, f, n):
        if not isinstance(f, Fun):
            raise BuzzError('TYPE')
        a = self.st[len(self.st) - n:] if n else []
        if n != f.arity:
            if f.c:
                raise BuzzError('LNUM')
            raise lang.Unknown()
        r = f.fn(*a)
        del self.st[len(self.st) - n:]
        return r


def gen(rng, n):
    out = []
    for _ in range(n):
        M = Model()
        st = M.st
        cmds = ['compile 0 @p.bzz', 'gcmode %d' % rng.choice([0, 0, 1, 5]), 'new 0 3 0', 'run 0', 'call 0 f0']
        want = []
        S = rng.choice([30, 100, 300])
        big = rng.random() < .2
        for _ in range(S):
            op = rng.choice(['push'] * (12 if len(st) < (60 if big else 8) else 2) + ['pop'] * (1 if len(st) < 20 else 8) + ['dup', 'copy', 'pushu', 'pusht', 'pushcc', 'pushnil', 'unm', 'lnot', 'bnot', 'land', 'lor', 'tput', 'tput', 'tget', 'tget', 'gload', 'gstore', 'fcall', 'fcall',
                                                            'fcall', 'ccall', 'call', 'gc', 'prep', 'prep', 'prep'] + list(BIN) + list(BIT) + list(CMP))
            a = None
            seq = [(op, None)]
            if op == 'prep':
                # a meaningful combination
                w = rng.choice(['tput', 'tget', 'gstore', 'gload', 'bin', 'bit', 'callm'])
                if w == 'tput':
                    seq = [('pusht', None) if rng.random() < .4 or not any(isinstance(v, Table) for v in st) else ('copy', next(i + 1 for i, v in enumerate(reversed(st)) if isinstance(v, Table))), ('dup', None),
                           ('push', rkey(rng)), ('push', rscalar(rng)) if rng.random() < .7 else ('copyv', None), ('tput', None)]
                elif w == 'tget':
                    ts = [i + 1 for i, v in enumerate(reversed(st)) if isinstance(v, Table)]
                    if not ts:
                        continue
                    i = rng.choice(ts)
                    t = st[-i]
                    k = rng.choice([k for k, _ in t.d.values()]) if t.d and rng.random() < .7 else rkey(rng)
                    seq = [('copy', i), ('push', k), ('tget', None)]
                elif w == 'gstore':
                    seq = [('push', rng.choice(['x', 'g1', 'g2', 'a b', ''])), ('push', rscalar(rng)) if rng.random() < .7 or not st else ('copyv', None), ('gstore', None)]
                elif w == 'gload':
                    seq = [('push', rng.choice(['x', 'g1', 'g2', 'a b', '', 'nothere', 'G', 'newg', 'f1', 'cfirst'])), ('gload', None)]
                elif w == 'bin':
                    seq = [('push', rint(rng) if rng.random() < .5 else rflt(rng)) for _ in range(2)] + [(rng.choice(list(BIN) + list(CMP)), None)]
                elif w == 'bit':
                    seq = [('push', rint(rng)) for _ in range(2)] + [(rng.choice(list(BIT)), None)]
                else:
                    seq = [('push', 'm'), ('gload', None), ('push', 'm'), ('tget', None), ('push', rng.randint(-5, 5)), ('ccall', 1)]
            stop = False
            for op, a in seq:
                save = list(st)
                err, cmd = None, None
                try:
                    if op == 'push':
                        v = a if a is not None or len(seq) > 1 else rscalar(rng)
                        cmd = 'op 0 push ' + arg(v)
                        st.append(v)
                    elif op == 'pushnil':
                        cmd = 'op 0 pushnil'
                        st.append(None)
                    elif op == 'pushu':
                        cmd = 'op 0 pushu'
                        st.append(U())
                    elif op == 'pusht':
                        cmd = 'op 0 push t'
                        st.append(Table())
                    elif op == 'pushcc':
                        f = rng.choice(['cfirst', 'ccall'])
                        cmd = 'op 0 pushcc ' + f
                        st.append(Fun(M.G[f].fn, M.G[f].arity, True))
                    elif op in ('copy', 'copyv'):
                        if not st:
                            break
                        i = a or rng.randint(1, len(st))
                        cmd = 'op 0 copy %d' % i
                        st.append(st[-i])
                    elif op == 'pop':
                        cmd = 'op 0 pop'
                        M.need(1)
                        st.pop()
                    elif op == 'dup':
                        cmd = 'op 0 dup'
                        M.need(1)
                        st.append(st[-1])
                    elif op in BIN or op in BIT or op in CMP or op in ('land', 'lor'):
                        cmd = 'op 0 ' + op
                        M.need(2)
                        y, x = st.pop(), st.pop()
                        if isinstance(x, U) or isinstance(y, U):
                            if op not in BIN and op not in BIT and op not in ('land', 'lor'):
                                raise lang.Unknown()
                        x, y = (conv(v) if isinstance(v, Fun) else v for v in (x, y))
                        if op in ('land', 'lor'):
                            p, q = lang.truth(x), lang.truth(y)
                            st.append(int(p and q if op == 'land' else p or q))
                        elif op in BIN:
                            if op == 'pow':
                                for w in (x, y):
                                    if not isinstance(w, (int, F)):
                                        raise BuzzError('TYPE')
                            st.append(lang.arith(BIN[op], x, y))
                        elif op in BIT:
                            st.append(lang.bitop(BIT[op], x, y))
                        else:
                            if isinstance(x, (lang.Closure, lang.CFun)) and isinstance(y, (lang.Closure, lang.CFun)):
                                raise lang.Unknown()
                            st.append(lang.cmpop(CMP[op], x, y))
                    elif op in ('unm', 'bnot', 'lnot'):
                        cmd = 'op 0 ' + op
                        M.need(1)
                        x = st.pop()
                        if op == 'lnot':
                            st.append(int(not lang.truth(x)))
                        elif op == 'unm':
                            if not isinstance(x, (int, F)):
                                raise BuzzError('TYPE')
                            st.append(lang.i32(-x) if isinstance(x, int) else F(-x.v))
                        else:
                            if not isinstance(x, int):
                                raise BuzzError('TYPE')
                            st.append(~x)
                    elif op == 'tput':
                        cmd = 'op 0 tput'
                        M.need(3)
                        v, k, t = st.pop(), st.pop(), st.pop()
                        if not isinstance(t, Table) or not isinstance(k, (int, F, str)):
                            raise BuzzError('TYPE')
                        if isinstance(k, F) and k.v != k.v:
                            raise lang.Unknown()
                        if isinstance(k, F) and abs(k.v) >= 2**20 or isinstance(k, int) and abs(k) >= 2**24:
                            raise lang.Unknown()
                        if v is None:
                            t.rem(k)
                        else:
                            put(t, k, v)
                    elif op == 'tget':
                        cmd = 'op 0 tget'
                        M.need(2)
                        k, t = st.pop(), st.pop()
                        if not isinstance(t, Table) or not isinstance(k, (int, F, str)):
                            raise BuzzError('TYPE')
                        if isinstance(k, F) and (k.v != k.v or abs(k.v) >= 2**20) or isinstance(k, int) and abs(k) >= 2**24:
                            raise lang.Unknown()
                        st.append(t.get(k))
                    elif op == 'gload':
                        cmd = 'op 0 gload'
                        M.need(1)
                        k = st.pop()
                        if not isinstance(k, str):
                            raise BuzzError('TYPE')
                        if k in ('math', 'string', 'io', 'neighbors', 'stigmergy', 'swarm', 'id', 'trace', 'gc', 'udata', 'failc', 'type', 'clone', 'size', 'foreach', 'map', 'reduce', 'filter', 'int', 'float', 'meth', 'viacc') or k.startswith('is'):
                            raise lang.Unknown()
                        st.append(M.G.get(k))
                    elif op == 'gstore':
                        cmd = 'op 0 gstore'
                        M.need(2)
                        v, k = st.pop(), st.pop()
                        if not isinstance(k, str):
                            raise BuzzError('TYPE')
                        if k not in ('x', 'g1', 'g2', 'a b', '', 'newg'):
                            raise lang.Unknown()
                        M.G[k] = v
                    elif op == 'fcall':
                        f = rng.choice(['f0', 'f1', 'f1', 'f2', 'f3', 'f5', 'f9', 'fn', 'fc', 'adder', 'glob', 'deep', 'setg', 'cfirst', 'ccall', 'nofun', 'G'])
                        F_ = M.G.get(f)
                        k = F_.arity if isinstance(F_, Fun) else 0
                        if f == 'cfirst' and rng.random() < .05 and len(st) > 1:
                            k = 2
                        if len(st) < k:
                            break
                        cmd = 'op 0 fcall %s %d' % (f, k)
                        if f == 'fc' and not (isinstance(st[-2], Fun)):
                            raise BuzzError('TYPE')
                        r = M.apply(F_, k)
                        st.append(r)
                    elif op == 'ccall':
                        c = [i for i, v in enumerate(reversed(st)) if isinstance(v, Fun) and v.arity == i] if a is None else [a]
                        if rng.random() < .03 and len(st) > 1:
                            c = [0]
                        if not c:
                            break
                        k = c[0]
                        cmd = 'op 0 ccall %d' % k
                        r = M.apply(st[-k - 1], k)
                        st.pop()
                        st.append(r)
                    elif op == 'call':
                        cmd = 'call 0 f1 i:5'
                        cmds.append(cmd)
                        break
                    elif op == 'gc':
                        cmds.append('gcnow 0')
                        break
                except lang.Unknown:
                    st[:] = save
                    break
                except BuzzError as e:
                    err = e
                    if rng.random() < .995:
                        # errors end the history: avoid most of them
                        st[:] = save
                        break
                cmds.append(cmd)
                want.append((cmd, err, None if err else [lang.jv(conv(v)) for v in st]))
                if err:
                    stop = True
                    break
            if stop:
                break
            if sum(bigness(v) for v in st) > 400:
                break
        if rng.random() < .5:
            cmds.append('vdump 0')
        out.append(Case(cmds, {'p.bzz': PROG}, oracle, info=want))
    return out


def bigness(v, path=()):
    if not isinstance(v, Table) or any(p is v for p in path):
        return 1
    n = 1
    for k, x in v.d.values():
        n += bigness(x, path + (v,))
        if n > 500:
            break
    return n


def shown(d):
    """What buzzvm_dump prints must be the state and the stack of the robot (the innermost one first)."""
    txt = d['vdump']
    st = d['st']
    head = 'state: %d\terror: %d\ncode size: %d\tpc: %d\nstacks: %d\tcur elem: %d (size %d)\n' % (st[0], st[1], d['size'], d['pc'], st[2], len(d['stack']), len(d['stack']))
    if head not in txt or txt.count('===== stack: ') != st[2]:
        return 'the dump starts with %r, expected %r' % (txt[:300], head)
    top = txt.split('===== stack: ')[1] if st[2] else ''
    if not top.startswith('%d =====\n' % (st[2] - 1)):
        return 'the dump shows %r as the innermost of %d stacks' % (top[:30], st[2])
    want = ''
    for k in range(len(d['stack']) - 1, -1, -1):
        v, (ref, native) = d['stack'][k], d['refs'][k]
        n = lang.norm(v)
        if v is None:
            w = '[nil]'
        elif isinstance(v, int):
            w = '[int] %d' % v
        elif isinstance(v, str):
            w = "[string] %d:'%s'" % (ref, v)
        elif n[0] == 'f':
            w = '[float] '
        elif n[0] == 't':
            w = '[table] %d elements' % len(n[1]) if len(n) == 2 else '[table] '
        elif n[0] == 'c':
            w = '[%s-closure] %d' % ('n' if native else 'c', ref)
        else:
            w = ''
        line = '\t%d\t%s' % (k, w)
        if not top.count(line):
            return 'the dump shows %r, it has no %r' % (top[:500], line)
    return None


def oracle(ev, c):
    e = [t for t in parse(ev) if t[0] == 'D']
    if any(l.startswith('! the op') for l in ev):
        return next(l for l in ev if l.startswith('! the op'))
    for (cmd, err, st), t in zip(c.info, e):
        d = t[2]
        c.note('operations')
        if err:
            c.note('errors')
            if d['state'] != 'error' or d['err'] != err.code:
                return '%s: observed %r, expected error %s' % (cmd, d, err.name)
            continue
        if d['state'] != 'ready' or d['stacks'] != 1:
            return '%s: observed %r, expected stack %r' % (cmd, d, st)
        g = [lang.norm(x) for x in d['stack']]
        if g != st:
            return '%s: the stack is %r, expected %r' % (cmd, g, st)
    if len(e) != len(c.info):
        return 'observed %d operations of %d' % (len(e), len(c.info))
    for t in parse(ev):
        if t[0] == 'Q':
            c.note('dumps')
            return shown(t[2])
    return None


STAGES = [Stage('histories', gen, 400, 8000, per=25)]
