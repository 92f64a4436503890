"""B01: programs compute what the language says."""
import math
import lang
from gen import big, make
from lang import BuzzError, F, Unknown
from run import Case, Stage, parse
from util import INTS, FLTS, STRS, arg, lit, rflt, rint, rstr

RULE = ('Random programs (functions, closures, methods, tables, loops, all operators, mixed types) and every operator on edge '
        'values run through the real parser, assembler and VM; every value traced, the outcome, and the results of later host '
        'calls are compared with an independent reference interpreter. Recursions up to 1100 calls deep and through 150 nested callbacks must give the results known in closed form. Non-trivial: the program traced at least 3 values.')
ASSUMPTIONS = ['iteration order of tables is unspecified, so programs only use order-independent effects',
               'calls use the declared number of arguments']


def oracle(ev, c):
    txt, want, err, spans, line = c.info
    e = parse(ev)
    if e[0][0] != 'C' or e[0][2] != '1':
        return 'program rejected by the compiler: %r' % (e[0],)
    got = [[lang.norm(x) for x in t[2]] for t in e if t[0] == 'T']
    c.note('values traced', sum(len(t) for t in got))
    if sum(len(t) for t in got) < 3:
        c.nontrivial = False
    n = 0
    for a, b in zip(got, want):
        if a != b:
            return 'trace event %d: observed %r, expected %r' % (n, a, b)
        n += 1
    r = [t for t in e if t[0] == 'R'][0][2]
    if err is None:
        if r['state'] != 'done':
            return 'the program ended with %r after %d events; it should have run to the end' % (r, n)
        if len(got) != len(want):
            return 'observed %d trace events, expected %d: first difference %r' % (len(got), len(want), (got + want)[min(len(got), len(want)):][:1])
        s = [t for t in e if t[0] == 'S'][0][2]
        if s['stacks'] != 1 or s['stack'] != 0 or s['lsymts'] != 1:
            return 'unbalanced stacks at the end of the program: %r' % s
    else:
        c.note('errors raised')
        if r['state'] != 'error' or r['err'] != err:
            return 'outcome %r; expected error %d' % (r, err)
        if len(got) != len(want):
            return 'observed %d trace events before the error, expected %d' % (len(got), len(want))
    return None


def gen_with(err, size):
    def gen(rng, n):
        out = []
        for _ in range(n):
            p, txt, spans, want, e, it, g = make(rng, err, size)
            out.append(Case(['compile 0 @p.bzz', 'new 0 %d 0' % 0, 'run 0 2000000', 'stat 0'], {'p.bzz': txt}, oracle,
                            key=txt, info=(txt, want, e.code if e else None, None, None)))
        return out
    return gen


def gen_big(rng, n):
    out = []
    for _ in range(n):
        txt, want, e = big(rng)
        out.append(Case(['compile 0 @p.bzz', 'new 0 %d 0' % 0, 'run 0 2000000', 'stat 0'], {'p.bzz': txt}, oracle,
                        key=txt, info=(txt, want, e.code if e else None, None, None)))
    return out


# ------------------------------------------------------------ operators, one by one

BIN = [('add', '+'), ('sub', '-'), ('mul', '*'), ('div', '/'), ('mod', '%'), ('pow', '^'), ('band', '&'), ('bor', '|'),
       ('shl', '<<'), ('shr', '>>'), ('eq', '=='), ('ne', '!='), ('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>='),
       ('land', 'and'), ('lor', 'or')]
UN = [('neg', '-a'), ('bno', '!a'), ('lnot', 'not a'), ('tru', None), ('key', None)]
PROG = ''.join('function o_%s(a, b) { return a %s b }\n' % x for x in BIN if x[1] not in ('and', 'or')) + '''
function o_land(a, b) { if(a and b) { return 1 } else { return 0 } }
function o_lor(a, b) { if(a or b) { return 1 } else { return 0 } }
function o_neg(a) { return -a }
function o_bno(a) { return !a }
function o_lnot(a) { if(not a) { return 1 } else { return 0 } }
function o_tru(a) { if(a) { return 1 } else { return 0 } }
function o_key(a) { var t = {} t[a] = 7 return t[a] }
function o_mk() { var t = {} t.x = 1 return t }
T = {} U = {}
function clo(a) { return a }
'''
OBJ = {'T': lang.Table(), 'U': lang.Table(), 'clo': lang.Closure([], [], {}, None), 'trace': lang.CFun('trace', None, None)}


def opval(rng):
    r = rng.random()
    if r < .4:
        return rint(rng)
    if r < .7:
        return rflt(rng)
    if r < .82:
        return rstr(rng)
    if r < .9:
        return None
    return rng.choice(list(OBJ)) + '@'


def expect(name, op, a, b):
    """value, or BuzzError instance; Unknown raised."""
    v = [OBJ[x[:-1]] if isinstance(x, str) and x.endswith('@') else x for x in (a, b)]
    try:
        if op in ('and', 'or'):
            x, y = lang.truth(v[0]), lang.truth(v[1])
            return int(x and y) if op == 'and' else int(x or y)
        if name == 'pow':
            for w in v:
                if not isinstance(w, (int, F)):
                    raise BuzzError('TYPE')
            try:
                return lang.arith('^', v[0], v[1])
            except Unknown:
                x, y = (float(w) if isinstance(w, int) else w.v for w in v)
                x, y = lang.f32(x), lang.f32(y)
                if not (math.isfinite(x) and math.isfinite(y)):
                    raise
                if x < 0 and y != int(y):
                    return F(math.nan)
                if x == 0:
                    raise
                try:
                    r = x ** y
                except OverflowError:
                    raise Unknown()
                if not 1e-35 < abs(r) < 1e38:
                    raise
                return Approx(r)
        if op in ('&', '|', '<<', '>>'):
            return lang.bitop(op, v[0], v[1])
        if name in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
            return lang.cmpop(op, v[0], v[1])
        if name == 'neg':
            if isinstance(v[0], int):
                return lang.i32(-v[0])
            if isinstance(v[0], F):
                return F(-v[0].v)
            raise BuzzError('TYPE')
        if name == 'bno':
            if not isinstance(v[0], int):
                raise BuzzError('TYPE')
            return ~v[0]
        if name == 'lnot':
            return int(not lang.truth(v[0]))
        if name == 'tru':
            return int(lang.truth(v[0]))
        if name == 'key':
            if not isinstance(v[0], (int, F, str)):
                raise BuzzError('TYPE')
            if isinstance(v[0], F) and v[0].v != v[0].v:
                raise Unknown()
            return 7
        return lang.arith(op, v[0], v[1])
    except BuzzError as e:
        return e


class Approx:
    def __init__(self, v):
        self.v = v


def ops_oracle(ev, c):
    e = [x for x in parse(ev) if x[0] in ('K', 'R', 'C')]
    if e[0][2] != '1':
        return 'program rejected'
    i = 2
    for name, a, b, want in c.info:
        k = e[i][2]
        if want.__class__ is tuple:     # initial run
            i += 1
            continue
        i += 1
        if isinstance(want, BuzzError):
            c.note('errors')
            if k['state'] != 'error' or e[i][2]['err'] != want.code:
                return '%s(%r, %r): expected error %s, observed %r %r' % (name, a, b, want.name, k, e[i])
            i += 2  # R of the error, R of the next run
            continue
        c.note('values')
        if k['state'] != 'ready' or 'top' not in k:
            return '%s(%r, %r): expected %r, observed %r' % (name, a, b, want, e[i - 1:i + 1])
        if isinstance(want, Approx):
            g = lang.norm(k['top'])
            if not isinstance(g, tuple) or g[0] != 'f' or abs(g[1] - want.v) > 1e-5 * abs(want.v):
                return '%s(%r, %r) gave %r, expected about %r' % (name, a, b, g, want.v)
            c.note('approximate values')
            continue
        if lang.norm(k['top']) != lang.jv(want):
            return '%s(%r, %r) gave %r, expected %r' % (name, a, b, lang.norm(k['top']), lang.jv(want))
    return None


def opcase(pairs):
    cmds = ['compile 0 @p.bzz', 'new 0 0 0', 'run 0']
    info = []
    for name, op, a, b, want in pairs:
        args = [('g:' + x[:-1]) if isinstance(x, str) and x.endswith('@') else arg(x) for x in ((a, b) if op else (a,))]
        cmds.append('call 0 o_%s %s' % (name, ' '.join(args)))
        info.append((name, a, b, want))
        if isinstance(want, BuzzError):
            cmds += ['destroy 0', 'new 0 0 0', 'run 0']
    return Case(cmds, {'p.bzz': PROG}, ops_oracle, key=cmds, info=info)


def gen_ops(rng, n):
    out = []
    for _ in range(n):
        l = []
        while len(l) < 60:
            if rng.random() < .85:
                name, op = rng.choice(BIN)
            else:
                name, op = rng.choice(UN)[0], None
            a, b = opval(rng), opval(rng)
            if op and rng.random() < .15:
                b = a
            if rng.random() < .6 and op and name not in ('land', 'lor'):
                # mostly well-typed operands
                mk = (lambda: rint(rng)) if op in ('&', '|', '<<', '>>') else (lambda: rint(rng) if rng.random() < .5 else rflt(rng))
                a, b = mk(), mk()
                if name == 'pow' and rng.random() < .7:
                    sm = lambda: rng.choice([rng.randint(-9, 9), rng.randint(-9, 9), F(rng.randint(-40, 40) / 8), F(.5)])
                    a, b = sm(), sm()
            try:
                w = expect(name, op, a, b)
            except Unknown:
                continue
            l.append((name, op, a, b, w))
        out.append(opcase(l))
    return out


DEEP = '''
trace = 0
function bump(k, v) { trace = trace + v }
function fact(n) { if(n < 1) return 0  return n + fact(n - 1) }
function down(n, t) {
  if(n > 0) {
    var r = down(n - 1, t)
    return r + 1
  }
  foreach(t, function(k, v) { bump(k, v) })
  var m = map(t, function(k, v) { return v * 2 })
  var s = reduce(m, function(k, v, a) { return a + v }, 0)
  var q = filter(t, function(k, v) { return v - 1 })
  return s * 1000 + size(q) + fact(3)
}
function weave(n, t) {
  if(n < 1) return reduce(t, function(k, v, a) { return a + v }, 0)
  var x = {.r = 0}
  foreach({.only = n}, function(k, v) { x.r = weave(v - 1, t) })
  return x.r + 1
}
function go(n) { return down(n, {.a = 1, .b = 2, .c = 3}) }
function go2(w) { return weave(w, {.a = 1, .b = 2, .c = 3}) }
function seen(x) { return trace }
'''


def deep_oracle(ev, c):
    k = [e[2] for e in parse(ev) if e[0] == 'K']
    n, w = c.info
    want = [12008 + n, 6 + w, 6, sum(range(n + 1))]
    if len(k) != len(want):
        return 'expected %d outcomes, observed %r' % (len(want), k)
    for what, x, e in zip(('operations on a table at a depth of %d calls' % n, 'recursion through %d foreach callbacks' % w,
                           'effects of a callback %d calls deep' % n, 'recursive sum to %d' % n), k, want):
        if x.get('state') != 'ready' or lang.norm(x.get('top')) != e:
            return '%s: expected %r, observed %r' % (what, e, x)
        c.note('results at depth')
    return None


def gen_deep(rng, n):
    out = []
    for _ in range(n):
        d = rng.choice([5, 30, 62, 100, 126, 200, 252, 256, 300, 400, 511, 600, 1100])
        w = rng.choice([3, 20, 40, 60, 64, 90, 128, 150])
        cmds = ['compile 0 @p.bzz', 'new 0 0 0', 'run 0', 'call 0 go i:%d' % d, 'call 0 go2 i:%d' % w, 'call 0 seen i:1', 'call 0 fact i:%d' % d]
        out.append(Case(cmds, {'p.bzz': DEEP}, deep_oracle, key=(d, w), info=(d, w)))
    return out


STAGES = [Stage('programs', gen_with(0, 25), 60, 3000),
          Stage('small programs', gen_with(0, 8), 30, 1500),
          Stage('ill-typed programs', gen_with(.02, 25), 30, 1500),
          Stage('operators', gen_ops, 12, 400, per=20),
          Stage('large programs', gen_big, 20, 800, per=12),
          Stage('deep calls', gen_deep, 10, 60, per=10)]
