"""B18: tables as maps, their iteration functions, and clones."""
import lang
from calls import case, Pred
from lang import BuzzError, F, Table
from run import Stage
from util import *

RULE = ('Random histories over 6 tables held by the script: writes, erasures and reads with integer, float and string keys, tables inside tables (shared and cyclic), aliases, clones, foreach, map, reduce and '
        'filter with callbacks that read, add to, update and erase from the table they iterate over or others, nested iterations and errors, under garbage collection at chosen rates. All results, all tables, identity '
        'and independence are compared with a reference model; each element present throughout an iteration is visited exactly once. Non-trivial: all histories.')
ASSUMPTIONS = ['the order of iteration is unspecified, and whether elements added during an iteration are visited', 'float keys are below 2^20, where no integer and float key are confused by rounding']

PROG = '''
K = {}
n = 0
clo = function(x) { return x }
function new(i) { K[i] = {} return size(K[i]) }
function put(i, k, v) { K[i][k] = v return size(K[i]) }
function putt(i, k, j) { K[i][k] = K[j] return size(K[i]) }
function putin(i, k, k2, v) { K[i][k][k2] = v return size(K[i][k]) }
function putf(i, k, x) { K[i][k] = function(y) { return x + y } return K[i][k](1) }
function callf(i, k, y) { return K[i][k](y) }
function get(i, k) { return K[i][k] }
function getin(i, k, k2) { return K[i][k][k2] }
function sz(i) { return size(K[i]) }
function alias(i, j) { K[i] = K[j] return size(K[i]) }
function same(i, j) { return K[i] == K[j] }
function cl(i, j) { K[i] = clone(K[j]) return K[i] == K[j] }
function clin(i, k, j) { K[i][k] = clone(K[j]) return size(K[i][k]) }
function take(i, j, k) { K[i] = K[j][k] return size(K[i]) }
function dump(i) { return K[i] }
function keys(i) { return map(K[i], function(k, v) { return k }) }
function cnt(i) { var c = {.n = 0} foreach(K[i], function(k, v) { c.n = c.n + 1 }) return c.n }
function idm(d, i) { K[d] = map(K[i], function(k, v) { return v }) return size(K[d]) }
function mapn(d, i) { K[d] = map(K[i], function(k, v) { if(isint(v)) { return v + 1 } else { return nil } }) return size(K[d]) }
function flt(d, i, lim) { K[d] = filter(K[i], function(k, v) { if(isint(v)) { return v > lim } else { return lim } }) return size(K[d]) }
function flv(d, i) { K[d] = filter(K[i], function(k, v) { return v }) return size(K[d]) }
function samef(i, k, j, k2) { return K[i][k] == K[j][k2] }
function flk(d, i) { K[d] = filter(K[i], function(k, v) { return isstring(k) }) return size(K[d]) }
function sum(i, a) { return reduce(K[i], function(k, v, acc) { if(isint(v)) { return acc + v } else { return acc } }, a) }
function cat(i) { return reduce(K[i], function(k, v, acc) { acc[k] = 1 return acc }, {}) }
function nest(i, j) { var c = {.n = 0} foreach(K[i], function(k, v) { foreach(K[j], function(k2, v2) { c.n = c.n + 1 }) }) return c.n }
function nest2(i) { return reduce(K[i], function(k, v, a) { return a + reduce(K[i], function(k2, v2, b) { return b + size(map(K[i], function(x, y) { return 1 })) }, 0) }, 0) }

# modifications during an iteration; S is a snapshot, C counts the visits
function visit(k) { if(C[k] == nil) { C[k] = 1 } else { C[k] = C[k] + 1 } }
function eadd(i, pre) { C = {} S = map(K[i], function(k, v) { return 1 })
  foreach(K[i], function(k, v) { if(S[k] != nil) { visit(k) K[i][string.concat(pre, string.tostring(n))] = n n = n + 1 } }) return C }
function eupd(i) { C = {} foreach(K[i], function(k, v) { visit(k) K[i][k] = k }) return C }
function edel(i) { C = {} foreach(K[i], function(k, v) { visit(k) K[i][k] = nil }) return C }
function edels(i) { C = {} foreach(K[i], function(k, v) { visit(k) if(isstring(k)) { K[i][k] = nil } }) return C }
function emove(d, i) { C = {} foreach(K[i], function(k, v) { visit(k) K[d][k] = v K[i][k] = nil }) return size(K[d]) }
function eother(i, j) { C = {} foreach(K[i], function(k, v) { visit(k) K[j][k] = 1 }) return C }
function mdel(d, i) { C = {} K[d] = map(K[i], function(k, v) { visit(k) K[i][k] = nil return v }) return C }
function rdel(i, a) { return reduce(K[i], function(k, v, acc) { K[i][k] = nil return acc + 1 }, a) }
function fdel(d, i) { K[d] = filter(K[i], function(k, v) { K[i][k] = nil return isint(k) }) return size(K[d]) }
function edrop(i) { C = {} var t = K[i] K[i] = {} n = n + 1 foreach(t, function(k, v) { visit(k) t[k] = nil mk = {.a = {}, .b = k} }) return C }

# errors
function e_idx(i) { return K[i][nil] }
function e_put(i) { K[i][{}] = 1 }
function e_nt(i) { return n[1] }
function e_sz() { return size(5) }
function e_fe(i) { foreach(K[i], 5) }
function e_fe2() { foreach(5, clo) }
function e_map() { return map("x", clo) }
function e_red() { return reduce(nil, clo, 1) }
function e_flt(i) { return filter(K[i], "x") }
'''
ERR = [('e_idx', 'TYPE', 1), ('e_put', 'TYPE', 1), ('e_nt', 'TYPE', 1), ('e_sz', 'TYPE', 0), ('e_fe', 'TYPE', 1), ('e_fe2', 'TYPE', 0), ('e_map', 'TYPE', 0), ('e_red', 'TYPE', 0), ('e_flt', 'TYPE', 1)]


def key(rng):
    r = rng.random()
    if r < .35:
        return rng.randint(-2, 8)
    if r < .5:
        return F(rng.choice([.5, 1.0, 2.0, -1.5, 3.25, 10.5, 100000.75, -0.0]))
    if r < .6:
        return rng.choice([2**31 - 1, -2**31, 10, 20, 11, 16777217, 16777216, rint(rng)])
    return rng.choice(['a', 'b', 'c', '1', '2', '0.5', '', 'n', rstr(rng)])


def big(v, lim, path=()):
    """Number of nodes jv() would print."""
    if not isinstance(v, Table) or any(p is v for p in path):
        return 1
    n = 1
    for k, x in v.d.values():
        n += big(x, lim - n, path + (v,))
        if n > lim:
            break
    return n


I = lang.Interp if hasattr(lang, 'Interp') else None


def cloneof(v, path=()):
    if isinstance(v, Table):
        for o, c in path:
            if o is v:
                return c
        n = Table()
        for k, x in v.d.values():
            n.put(k, cloneof(x, path + ((v, n),)))
        return n
    if isinstance(v, Fn):
        return Fn(v.x)
    return v


class Fn:
    """A function value x -> x + y"""
    def __init__(self, x):
        self.x = x


def jv(v):
    def conv(v, path):
        if isinstance(v, Fn):
            return lang.Closure([], [], {}, None)
        return v
    # lang.jv does not know Fn: translate
    def walk(v, path):
        if isinstance(v, Table):
            for o, c in path:
                if o is v:
                    return c
            n = Table()
            for k, x in v.d.values():
                n.put(k, walk(x, path + ((v, n),)))
            return n
        return conv(v, path)
    return lang.jv(walk(v, ()))


def expects(v):
    w = jv(v)
    return Pred(lambda g: None if g == w else 'expected %r' % (w,), repr(w)[:200])


def counts(keys):
    t = Table()
    for k in keys:
        t.put(k, 1)
    return t


def gen(rng, n):
    out = []
    for _ in range(n):
        calls, K, st = [], {}, {'n': 0}
        for i in range(6):
            K[i] = Table()
            calls.append(('new', [i], 0))
        keys = lambda t: [k for k, _ in t.d.values()]
        steps = rng.choice([25, 60, 150])
        many = rng.random() < .3
        for s in range(steps):
            i, j, d = (rng.randrange(6) for _ in range(3))
            t = K[i]
            k = rng.choice(keys(t)) if t.d and rng.random() < .5 else key(rng)
            op = rng.choice(['put'] * 6 + ['putt', 'putt', 'putin', 'putf', 'callf', 'get', 'get', 'getin', 'sz', 'alias', 'same', 'cl', 'clin', 'take', 'dump', 'dump', 'keys', 'cnt', 'idm', 'mapn', 'flt', 'flk', 'flv', 'samef', 'sum', 'cat', 'nest', 'nest2',
                             'eadd', 'eupd', 'edel', 'edels', 'emove', 'eother', 'mdel', 'rdel', 'fdel', 'edrop', 'new', 'err'])
            if many and s < 5:
                op = 'bulk'
            if op == 'bulk':
                for z in range(rng.choice([10, 40])):
                    kk = rng.randint(0, 60) if rng.random() < .7 else 's%d' % rng.randint(0, 30)
                    t.put(kk, z)
                    calls.append(('put', [i, kk, z], len(t.d)))
            elif op == 'put':
                v = rscalar(rng)
                if v is None:
                    t.rem(k)
                else:
                    t.put(k, v)
                calls.append((op, [i, k, v], len(t.d)))
            elif op == 'putt':
                t.put(k, K[j])
                calls.append((op, [i, k, j], len(t.d)))
            elif op == 'putf':
                x = rng.randint(-9, 9)
                t.put(k, Fn(x))
                calls.append((op, [i, k, x], x + 1))
            elif op == 'callf':
                c = [a for a, b in t.d.values() if isinstance(b, Fn)]
                if c:
                    a = rng.choice(c)
                    calls.append((op, [i, a, 5], t.get(a).x + 5))
            elif op == 'samef':
                c = [a for a, b in t.d.values() if isinstance(b, Fn)]
                c2 = [a for a, b in K[j].d.values() if isinstance(b, Fn)]
                if c and c2:
                    a, b = rng.choice(c), rng.choice(c2)
                    calls.append((op, [i, a, j, b], int(t.get(a) is K[j].get(b))))
            elif op == 'putin':
                c = [a for a, b in t.d.values() if isinstance(b, Table)]
                if c:
                    a, v = rng.choice(c), rscalar(rng)
                    u = t.get(a)
                    if v is None:
                        u.rem(k)
                    else:
                        u.put(k, v)
                    # u might be t itself
                    u2 = t.get(a)
                    if not isinstance(u2, Table):
                        w = BuzzError('TYPE')
                        calls.append((op, [i, a, k, v], w))
                        break
                    calls.append((op, [i, a, k, v], len(u2.d)))
            elif op == 'get':
                calls.append((op, [i, k], expects(t.get(k)) if big(t.get(k), 300) <= 300 else Pred(lambda g: None)))
            elif op == 'getin':
                c = [a for a, b in t.d.values() if isinstance(b, Table)]
                if c:
                    a = rng.choice(c)
                    v = t.get(a).get(k)
                    if big(v, 300) <= 300:
                        calls.append((op, [i, a, k], expects(v)))
            elif op == 'sz':
                calls.append((op, [i], len(t.d)))
            elif op == 'alias':
                K[i] = K[j]
                calls.append((op, [i, j], len(K[i].d)))
            elif op == 'same':
                calls.append((op, [i, j], int(K[i] is K[j])))
            elif op == 'cl':
                if big(K[j], 400) <= 400:
                    K[i] = cloneof(K[j])
                    calls.append((op, [i, j], int(i == j)))
            elif op == 'clin':
                if big(K[j], 400) <= 400:
                    c = cloneof(K[j])
                    t.put(k, c)
                    calls.append((op, [i, k, j], len(c.d)))
            elif op == 'take':
                c = [a for a, b in K[j].d.values() if isinstance(b, Table)]
                if c:
                    a = rng.choice(c)
                    K[i] = K[j].get(a)
                    calls.append((op, [i, j, a], len(K[i].d)))
            elif op == 'dump':
                if big(t, 500) <= 500:
                    calls.append((op, [i], expects(t)))
            elif op == 'keys':
                u = Table()
                for a in keys(t):
                    u.put(a, a)
                calls.append((op, [i], u))
            elif op == 'cnt':
                calls.append((op, [i], len(t.d)))
            elif op in ('idm', 'mapn', 'flt', 'flk', 'flv'):
                u = Table()
                lim = rng.choice([0, 1, 5, -3])
                for a, b in t.d.values():
                    if op == 'idm' or (op == 'flv' and not (isinstance(b, int) and b == 0)) or (op == 'flk' and isinstance(a, str)) or (op == 'flt' and (b > lim if isinstance(b, int) else lim != 0)):
                        u.put(a, b)
                    elif op == 'mapn' and isinstance(b, int):
                        u.put(a, lang.i32(b + 1))
                K[d] = u
                calls.append((op, [d, i] + ([lim] if op == 'flt' else []), len(u.d)))
            elif op == 'sum':
                a = rint(rng)
                calls.append((op, [i, a], lang.i32(a + sum(b for _, b in t.d.values() if isinstance(b, int)))))
            elif op == 'cat':
                calls.append((op, [i], counts(keys(t))))
            elif op == 'nest':
                if len(t.d) * len(K[j].d) < 3000:
                    calls.append((op, [i, j], len(t.d) * len(K[j].d)))
            elif op == 'nest2':
                if len(t.d) ** 3 < 3000:
                    calls.append((op, [i], len(t.d) ** 3))
            elif op == 'eadd':
                pre = rng.choice(['n', 'zz'])
                ks = keys(t)
                if len(ks) < 60:
                    new = ['%s%d' % (pre, st['n'] + z) for z in range(len(ks))]
                    if not any(Table.canon(a) in t.d for a in new):
                        for z, a in enumerate(new):
                            t.put(a, st['n'] + z)
                        st['n'] += len(ks)
                        calls.append((op, [i, pre], counts(ks)))
            elif op == 'eupd':
                ks = keys(t)
                for a in ks:
                    t.put(a, a)
                calls.append((op, [i], counts(ks)))
            elif op in ('edel', 'edels', 'rdel', 'mdel', 'fdel', 'edrop'):
                el = list(t.d.values())
                ks = [a for a, _ in el]
                if op == 'edrop':
                    K[i] = Table()
                    st['n'] += 1
                    t.d.clear()
                    calls.append((op, [i], counts(ks)))
                    continue
                for a in ks:
                    if op != 'edels' or isinstance(a, str):
                        t.rem(a)
                if op == 'rdel':
                    calls.append((op, [i, 3], 3 + len(ks)))
                elif op in ('mdel', 'fdel'):
                    if d == i:
                        # the table is only replaced after the iteration
                        pass
                    u = Table()
                    for a, b in el:
                        if op == 'mdel' or (isinstance(a, int)):
                            u.put(a, b)
                    K[d] = u
                    calls.append((op, [d, i], counts(ks) if op == 'mdel' else len(u.d)))
                else:
                    calls.append((op, [i], counts(ks)))
            elif op == 'emove':
                if K[d] is not t:
                    el = list(t.d.values())
                    for a, b in el:
                        K[d].put(a, b)
                    t.d.clear()
                    calls.append((op, [d, i], len(K[d].d)))
            elif op == 'eother':
                if K[j] is not t:
                    for a in keys(t):
                        K[j].put(a, 1)
                    calls.append((op, [i, j], counts(keys(t))))
            elif op == 'new':
                K[i] = Table()
                calls.append((op, [i], 0))
            elif s > steps - 3:
                f, e, na = rng.choice(ERR)
                calls.append((f, [i] * na, BuzzError(e)))
                break
        else:
            for i in range(6):
                if big(K[i], 500) <= 500:
                    calls.append(('dump', [i], expects(K[i])))
        out.append(case(PROG, calls, rng.choice([0, 1, 4, 30])))
    return out


STAGES = [Stage('histories', gen, 80, 4000, per=25)]
