"""B17: the math library and the random numbers."""
import math
import lang
from calls import case, Pred
from lang import BuzzError, F, f32, i32
from run import Case, Stage, parse
from util import *

RULE = ('Calls of all math functions with edge and random integers and floats and with wrong types, compared with results computed in double precision (exact where the result is an integer '
        'or exactly representable, otherwise within a few units in the last place); random number generators of several robots, seeded, reseeded and used in any interleaving: the values depend '
        'only on the seed and on the requests of that robot since it was set, lie in the documented ranges, have the documented type, and have the documented mean and spread over '
        'long runs. Non-trivial: all.')
ASSUMPTIONS = ['statistical bounds are ten standard errors wide, so that no correct generator fails them', 'the sequence of random numbers itself is not specified']

UN = ['abs', 'floor', 'ceil', 'round', 'log', 'log2', 'log10', 'exp', 'sqrt', 'sin', 'cos', 'tan', 'asin', 'acos']
BI = ['atan', 'min', 'max']
PROG = ''.join('function m_%s(a) { return math.%s(a) }\n' % (f, f) for f in UN) + ''.join('function m_%s(a, b) { return math.%s(a, b) }\n' % (f, f) for f in BI) + '''
function m_none() { return math.sqrt() }
function m_three(a) { return math.min(a, a, a) }
function m_int(a) { return int(a) }
function m_float(a) { return float(a) }
function m_pi() { return math.pi }
function seed(a) { math.rng.setseed(a) return 1 }
function u0() { return math.rng.uniform() }
function u1(a) { return math.rng.uniform(a) }
function u2(a, b) { return math.rng.uniform(a, b) }
function u3(a, b) { return math.rng.uniform(a, b, a) }
function g0() { return math.rng.gaussian() }
function g1(a) { return math.rng.gaussian(a) }
function g2(a, b) { return math.rng.gaussian(a, b) }
function g3(a, b) { return math.rng.gaussian(a, b, a) }
function e1(a) { return math.rng.exponential(a) }
function e0() { return math.rng.exponential() }
T = {}
function clo(x) { return x }
function many(n, a, b) {
  # n numbers of each kind: sums, sums of squares, extremes, differences between consecutive ones
  var r = {.us = 0.0, .uq = 0.0, .gs = 0.0, .gq = 0.0, .es = 0.0, .lo = 0, .hi = 0, .same = 0, .inc = 0, .out = 0, .gpos = 0, .eneg = 0, .p0 = 0, .p1 = 0, .p2 = 0, .p3 = 0, .c = 0.0}
  var i = 0
  var last = 0.5
  while(i < n) {
    var u = math.rng.uniform(a, b)
    var x = (u - a) / (b - a)
    r.us = r.us + x
    r.uq = r.uq + x * x
    r.c = r.c + (x - 0.5) * (last - 0.5)
    if(x < 0.0 or x > 1.0) { r.out = r.out + 1 }
    if(x == last) { r.same = r.same + 1 }
    if(x > last) { r.inc = r.inc + 1 }
    if(x < 0.25) { r.p0 = r.p0 + 1 }
    else if(x < 0.5) { r.p1 = r.p1 + 1 }
    else if(x < 0.75) { r.p2 = r.p2 + 1 }
    else { r.p3 = r.p3 + 1 }
    last = x
    var g = math.rng.gaussian(2.0, 1.0)
    r.gs = r.gs + g
    r.gq = r.gq + (g - 1.0) * (g - 1.0)
    if(g > 1.0) { r.gpos = r.gpos + 1 }
    var e = math.rng.exponential(3.0)
    r.es = r.es + e
    if(e < 0.0) { r.eneg = r.eneg + 1 }
    i = i + 1
  }
  return r
}
function dice(n, k) {
  var t = {}
  var i = 0
  while(i <= k) { t[i] = 0 i = i + 1 }
  i = 0
  while(i < n) {
    var x = math.rng.uniform(k)
    t[x] = t[x] + 1
    i = i + 1
  }
  return t
}
'''


def ftoi(x):
    if x != x:
        return 0
    return 2**31 - 1 if x >= 2.0**31 else -2**31 if x < -2.0**31 else int(x)


def cround(x):
    if not math.isfinite(x):
        return x
    return math.copysign(math.floor(abs(x) + .5) if abs(x) < 2**23 else abs(x), x) if not (abs(x) < .5) else 0.0


# how far from the mathematical value the C library's float functions may be, in units in the last place
ULPS = dict(log2=1.01, sqrt=.501, exp=1.01, sin=1.01, cos=1.01)


def near(ref, ulps=2.01):
    """A float result close to the value computed in double precision."""
    def fn(g):
        if not (isinstance(g, tuple) and g[0] == 'f'):
            return 'not a float'
        v = g[1]
        if ref != ref:
            return None if v == 'nan' else 'expected not-a-number'
        if v == 'nan':
            return 'expected %r' % ref
        r = f32(ref)
        if math.isinf(r) or math.isinf(v):
            return None if v == r or (abs(ref) > 3.4e38 and abs(v) > 3.4e38 and (v > 0) == (ref > 0)) else 'expected %r' % r
        u = max(2.0**-149, 2.0 ** (math.frexp(ref)[1] - 24))
        return None if abs(v - ref) <= ulps * u else 'expected about %r' % ref
    return Pred(fn, 'about %r' % ref)


def un(f, a):
    if not isinstance(a, (int, F)):
        raise BuzzError('TYPE')
    x = a if isinstance(a, int) else a.v
    if f == 'abs':
        return i32(abs(a)) if isinstance(a, int) else F(abs(x))
    if f in ('floor', 'ceil', 'round'):
        if isinstance(a, int):
            return a
        if not math.isfinite(x):
            return ftoi(x)
        return ftoi({'floor': math.floor, 'ceil': math.ceil, 'round': cround}[f](x))
    x = f32(float(x))
    if x != x:
        return near(math.nan)
    try:
        if f in ('log', 'log2', 'log10'):
            r = -math.inf if x == 0 else math.nan if x < 0 else x if math.isinf(x) else getattr(math, f)(x)
        elif f == 'exp':
            r = math.exp(x)
        elif f == 'sqrt':
            r = math.nan if x < 0 else math.sqrt(x)
        elif f in ('sin', 'cos', 'tan'):
            r = math.nan if math.isinf(x) else getattr(math, f)(x)
        else:
            r = getattr(math, f)(x) if abs(x) <= 1 else math.nan
    except OverflowError:
        r = math.inf
    if f == 'log2' and x > 0 and math.isfinite(x) and math.frexp(x)[0] == .5:
        return F(r)     # exact
    if f == 'log10' and r == int(r if math.isfinite(r) else 0) and 0 <= r <= 10:
        return F(r)
    return near(r, ULPS.get(f, 2.01))


def bi(f, a, b):
    if f == 'atan':
        for v in (a, b):
            if not isinstance(v, (int, F)):
                raise BuzzError('TYPE')
        return near(math.atan2(f32(float(lang.num(a))), f32(float(lang.num(b)))))
    c = lang.compare(a, b)
    if c == 3:
        raise lang.Unknown()
    if f == 'min':
        return b if c == 1 else a
    if c == 2:
        raise lang.Unknown()    # not comparable
    return a if c >= 0 else b


def num(rng):
    r = rng.random()
    if r < .3:
        return rint(rng)
    if r < .5:
        return F(rng.choice([.5, -.5, 1.5, 2.5, -1.5, -2.5, .49999997, -.49999997, 1.0, -1.0, 8388607.5, 8388608.0, -8388607.5, 2147483520.0, -2147483648.0, 2147483648.0, 3e9, -3e9, 1.0000001, math.pi, math.pi / 2, 88.72, -104, 1e30]))
    if r < .7:
        return F(rng.uniform(-1.2, 1.2))
    if r < .78:
        return F(2.0 ** rng.randint(-126, 127))
    if r < .83:
        return F(10.0 ** rng.randint(0, 10)) if rng.random() < .7 else 10 ** rng.randint(0, 9)
    return rflt(rng)


OBJ = {'@:T': lang.Table(), '@:clo': lang.Closure([], [], {}, None)}


def gen_fun(rng, n):
    out = []
    for _ in range(n):
        calls = []
        while len(calls) < 60:
            f = rng.choice(UN + UN + BI * 3 + ['none', 'three', 'int', 'float', 'pi'])
            w = None
            a = [num(rng) if rng.random() < .93 else rng.choice([None, 'x', '@:T', '@:clo'])]
            if f in BI:
                a.append(num(rng) if rng.random() < .93 else rng.choice([None, 'x', '@:T']))
                if rng.random() < .1:
                    a[1] = a[0]
            v = [OBJ.get(x, x) if isinstance(x, str) else x for x in a]
            try:
                if f in UN:
                    w = un(f, v[0])
                elif f in BI:
                    w = bi(f, v[0], v[1])
                    if isinstance(w, (lang.Table, lang.Closure)):
                        w = Pred(lambda g, t='t' if isinstance(w, lang.Table) else 'c': None if isinstance(g, tuple) and g[0] == t else 'wrong type')
                elif f == 'none':
                    a, w = [], BuzzError('LNUM')
                elif f == 'three':
                    w = BuzzError('LNUM')
                elif f == 'int':
                    w = ftoi(v[0].v) if isinstance(v[0], F) else BuzzError('TYPE')
                elif f == 'float':
                    w = F(float(v[0])) if isinstance(v[0], int) else BuzzError('TYPE')
                else:
                    a, w = [], near(math.pi, 1)
            except lang.Unknown:
                continue
            except BuzzError as e:
                w = e
            calls.append(('m_' + f, a, w))
        out.append(case(PROG, calls, rng.choice([0, 0, 5])))
    return out


# ------------------------------------------------------------ random numbers

def request(rng):
    """(function, args, predicate on the result)"""
    def isint(g):
        return isinstance(g, int)

    def val(g):
        return g if isinstance(g, int) else g[1] if isinstance(g, tuple) and g[0] == 'f' and g[1] != 'nan' else None
    f = rng.choice(['u0', 'u1', 'u1', 'u2', 'u2', 'u2', 'g0', 'g1', 'g2', 'e1'])

    def mk():
        return rng.choice([0, 1, -1, 5, 1000, 2**31 - 1, -2**31, rint(rng)]) if rng.random() < .5 else F(rng.choice([0.0, 1.0, -1.0, .25, 1e6, rng.uniform(-100, 100)]))
    if f == 'u0':
        return f, [], lambda g: None if isint(g) else 'not an integer'
    if f == 'u1':
        a = mk()

        def p(g):
            if isint(g) != isinstance(a, int) or val(g) is None:
                return 'wrong type'
            lo, hi = sorted((0, lang.num(a)))
            return None if lo <= val(g) <= hi else 'out of range'
        return f, [a], p
    if f == 'u2':
        a, b = mk(), mk()

        def p(g):
            if isint(g) != (isinstance(a, int) and isinstance(b, int)) or val(g) is None:
                return 'wrong type'
            lo, hi = sorted((lang.num(a), lang.num(b)))
            s = 0 if isint(g) else max(abs(lo), abs(hi)) * 2.0**-20
            return None if lo - s <= val(g) <= hi + s else 'out of range'
        return f, [a, b], p
    if f == 'e1':
        a = F(abs(lang.num(mk()))) if rng.random() < .5 else rng.randint(0, 1000)
        return f, [a], lambda g: 'not a float' if val(g) is None or isint(g) else 'negative' if val(g) < 0 else None
    a = [mk() for _ in range(int(f[1]))]
    return f, a, lambda g: 'not a float' if val(g) is None or isint(g) else \
        'further than ten standard deviations from the mean' if abs(val(g) - (lang.num(a[1]) if len(a) > 1 else 0)) > 10 * abs(lang.num(a[0]) if a else 1) + max(abs(lang.num(x)) for x in a + [0]) * 1e-5 else None


def rng_oracle(ev, c):
    plan = c.info
    ks = [t for t in parse(ev) if t[0] == 'K']
    if len(ks) != len(plan):
        return 'observed %d results of %d' % (len(ks), len(plan))
    seqs = {}
    for t, (key, req, args, pred) in zip(ks, plan):
        k = t[2]
        if pred == 'error':
            if k['state'] != 'error':
                return '%s%r: expected an error, observed %r' % (req, args, k)
            continue
        if k['state'] != 'ready':
            return '%s%r: observed %r' % (req, args, k)
        g = lang.norm(k['top'])
        m = pred(g) if pred else None
        if m:
            return '%s%r gave %r: %s' % (req, args, g, m)
        c.note('random numbers')
        if key is not None:
            if key in seqs and seqs[key] != g:
                return 'after the same seed and the same requests, %s%r gave %r and %r' % (req, args, seqs[key], g)
            if key in seqs:
                c.note('repeated')
            seqs[key] = g
    return None


def gen_rng(rng, n):
    out = []
    for _ in range(n):
        cmds = ['compile 0 @p.bzz', 'gcmode %d' % rng.choice([0, 0, 9])]
        R = rng.randint(1, 3)
        for r in range(R):
            cmds += ['new %d %d 0' % (r, r), 'run %d' % r]
        streams = [[request(rng) for _ in range(rng.choice([10, 40, 700]))] for _ in range(2)]
        seeds = [rng.choice([0, 1, -1, 2**31 - 1, -2**31, rint(rng)]) for _ in range(2)]
        cur = [None] * R
        plan = []
        for _ in range(rng.choice([60, 300, 1500])):
            r = rng.randrange(R)
            if cur[r] is None or rng.random() < .02 or cur[r][2] >= len(streams[cur[r][0]]):
                s, q = rng.randrange(2), rng.randrange(2)
                cur[r] = [s, q, 0]
                cmds.append('call %d seed i:%d' % (r, seeds[q]))
                plan.append((None, 'seed', [seeds[q]], None))
            s, q, i = cur[r]
            f, a, p = streams[s][i]
            cmds.append(('call %d %s %s' % (r, f, ' '.join(arg(x) for x in a))).strip())
            plan.append(((s, q, i), f, a, p))
            cur[r][2] += 1
        if rng.random() < .3:
            f, a = rng.choice([('u3', [1, 2]), ('g3', [1, 2]), ('e0', []), ('u1', ['x']), ('u2', [1, 'x']), ('u2', [None, 1]), ('g1', ['x']), ('g2', [1, None]), ('e1', [None]), ('seed', [F(1.0)]), ('seed', ['1'])])
            cmds.append(('call 0 %s %s' % (f, ' '.join(arg(x) for x in a))).strip())
            plan.append((None, f, a, 'error'))
        out.append(Case(cmds, {'p.bzz': PROG}, rng_oracle, key=cmds, info=plan))
    return out


def stat_oracle(ev, c):
    n, k = c.info
    ks = [t[2] for t in parse(ev) if t[0] == 'K']
    if len(ks) != 3 or any(x['state'] != 'ready' for x in ks):
        return 'calls failed: %r' % ks
    t = {a: (b[1] if isinstance(b, tuple) else b) for a, b in lang.norm(ks[1]['top'])[1]}
    c.note('random numbers', 3 * n)

    def close(what, v, mean, sd, slack=0.0):
        e = 10 * sd / math.sqrt(n) + slack
        if not (abs(v - mean) <= e):
            raise Off('%s is %r over %d numbers, expected %r within %r' % (what, v, n, mean, e))

    class Off(Exception):
        pass
    # the sums are accumulated in 32-bit floats: some slack
    try:
        close('the mean of uniform numbers', t['us'] / n, .5, .289, .01)
        close('the mean square of uniform numbers', t['uq'] / n, 1 / 3, .3, .01)
        close('the correlation of consecutive uniform numbers', t['c'] / n, 0, 1 / 12, .002)
        close('the mean of gaussian numbers', t['gs'] / n, 1.0, 2.0, .02)
        close('the variance of gaussian numbers', t['gq'] / n, 4.0, 5.7, .1)
        close('the mean of exponential numbers', t['es'] / n, 3.0, 3.0, .06)
        close('the share of increasing steps', t['inc'] / n, .5, .5)
        close('the share of gaussian numbers above the mean', t['gpos'] / n, .5, .5)
        for q in range(4):
            close('the share of quarter %d' % q, t['p%d' % q] / n, .25, .433)
        if t['out'] or t['eneg']:
            return '%r numbers out of range' % (t['out'] + t['eneg'])
        if t['same'] > n / 100:
            return 'consecutive numbers are equal %r times in %d' % (t['same'], n)
        d = dict(lang.norm(ks[2]['top'])[1])
        for i in range(k):
            close('the share of %d among 0..%d' % (i, k), d.get(i, 0) / n, 1 / k, math.sqrt(1 / k))
        if sum(v for a, v in d.items()) != n or any(not 0 <= a <= k for a in d):
            return 'integers out of range: %r' % d
    except Off as e:
        return str(e)
    return None


def gen_stat(rng, n):
    out = []
    for _ in range(n):
        a, b = rng.choice([(F(0.0), F(1.0)), (F(-1.0), F(1.0)), (F(10.0), F(2.0)), (0, F(1.0)), (F(-2.0), 3), (F(0.0), F(100.0))])
        m, k = 3000, rng.choice([2, 3, 6, 10])
        out.append(Case(['compile 0 @p.bzz', 'new 0 0 0', 'run 0', 'call 0 seed i:%d' % rint(rng), 'call 0 many i:%d %s %s' % (m, arg(a), arg(b)), 'call 0 dice i:%d i:%d' % (m, k)],
                        {'p.bzz': PROG}, stat_oracle, info=(m, k)))
    return out


STAGES = [Stage('functions', gen_fun, 32, 1200, per=25), Stage('generators', gen_rng, 24, 1200, per=20), Stage('distributions', gen_stat, 8, 200, per=6)]
