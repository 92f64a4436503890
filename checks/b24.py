"""B24: bundled libraries and include files."""
import math, os, re
import calls, lang
from calls import Pred
from lang import BuzzError, F, Table, f32
from run import Case, Stage, Direct, parse
from util import *

RULE = ('Random calls of every function of the bundled script libraries (sorting, shuffling, extremes, text search and splitting, plane vectors, collected messages, arrows) with values of all shapes are compared with reference definitions; '
        'shuffles are tested statistically. Random trees of files that include each other, found in the current directory or the include path (shadowed names, several directories, cycles, odd layouts, missing files) are compiled by the real compiler: '
        'the program must behave like the text with each inclusion replaced by the file. Non-trivial: all.')
ASSUMPTIONS = ['no file is included twice one after the other']

PROG = '''
include "table.bzz"
include "string.bzz"
include "vec2.bzz"
include "arrows.bzz"
include "neighbors.bzz"
T = {}
N = 0
function clr() { T = {} N = 0 return 0 }
function add(v) { T[N] = v N = N + 1 return N }
function put(k, v) { T[k] = v return size(T) }
function tmax() { return table.max(T) }
function tmin() { return table.min(T) }
function tmaxk() { return table.maxkey(T) }
function tmink() { return table.minkey(T) }
function tsort() { table.sort(T, table.cmp_number) return T }
function down(a, b) { if(a >= b) return 1
  return 0 }
function tdown() { table.sort(T, down) return T }
function tby(m) { var off = m table.sort(T, function(a, b) { if((a - off) * (a - off) <= (b - off) * (b - off)) return 1 else return nil }) return T }
function tlen() { table.sort(T, function(a, b) { return string.length(a) <= string.length(b) }) return T }
function tswap(i, j) { table.swap(T, i, j) return T }
function tshuf() { table.shuffle(T) return T }
function perms(n) {
  var c = {}
  var i = 0
  while(i < n) {
    var t = {.0 = 0, .1 = 1, .2 = 2, .3 = 3}
    table.shuffle(t)
    var k = t[0] * 1000 + t[1] * 100 + t[2] * 10 + t[3]
    if(isnil(c[k])) { c[k] = 0 }
    c[k] = c[k] + 1
    i = i + 1
  }
  return c
}
function first(a, b) { return string.indexoffirst(a, b) }
function last(a, b) { return string.indexoflast(a, b) }
function at(a, n) { return string.charat(a, n) }
function split(a, b) { return string.split(a, b) }
function vnew(x, y) { return math.vec2.new(x, y) }
function vnewp(l, a) { return math.vec2.newp(l, a) }
function vlen(x, y) { return math.vec2.length({.x = x, .y = y}) }
function vang(x, y) { return math.vec2.angle({.x = x, .y = y}) }
function vnorm(x, y) { return math.vec2.norm(math.vec2.new(x, y)) }
function vadd(x, y, a, b) { return math.vec2.add(math.vec2.new(x, y), math.vec2.new(a, b)) }
function vsub(x, y, a, b) { return math.vec2.sub(math.vec2.new(x, y), math.vec2.new(a, b)) }
function vdot(x, y, a, b) { return math.vec2.dot(math.vec2.new(x, y), math.vec2.new(a, b)) }
function vscale(x, y, s) { return math.vec2.scale(math.vec2.new(x, y), s) }
function vrot(x, y, s) { return math.vec2.rotate(math.vec2.new(x, y), s) }
A = {}
OUT = ""
F0 = function() { OUT = string.concat(OUT, "a") }
F1 = function() { OUT = string.concat(OUT, "b") }
F2 = function() { OUT = string.concat(OUT, "c") }
function F3() { OUT = string.concat(OUT, "d") }
function abegin(i, f) { A[i] = arrows.begin(f) return i }
function anext(i, f) { A[i].next(f) return i }
function achain(i, f, g, h) { A[i] = arrows.begin(f).next(g).next(h) return i }
function anext2(i, f, g) { A[i].next(f).next(g) return i }
function arun(i) { OUT = "" arrows.run(A[i]) return OUT }
'''


def num(v):
    return v if isinstance(v, int) else v.v


def gnum(g):
    return g if isinstance(g, int) and not isinstance(g, bool) else g[1] if isinstance(g, tuple) and g[0] == 'f' else None


def eqnum(x):
    return Pred(lambda g: None if gnum(g) is not None and gnum(g) == x else 'expected %r' % (x,))


def about(x, scale):
    return Pred(lambda g: close(g, x, scale))


def close(g, x, scale):
    v = gnum(g)
    if v is None or v == 'nan' or not abs(v - x) <= scale * 4e-6 + 1e-30:
        return 'expected about %r, got %r' % (x, g)


def vec(x, y, scale):
    def fn(g):
        if not isinstance(g, tuple) or g[0] != 't' or sorted(k for k, _ in g[1]) != ['x', 'y']:
            return 'not a vector'
        d = dict(g[1])
        return close(d['x'], x, scale) or close(d['y'], y, scale)
    return Pred(fn)


def exactvec(x, y):
    t = Table()
    t.put('x', x)
    t.put('y', y)
    return t


def ordered(vals, key):
    """a permutation of vals, in non-decreasing order of key"""
    want = sorted((lang.jv(v) for v in vals), key=repr)

    def fn(g):
        if not isinstance(g, tuple) or g[0] != 't' or [k for k, _ in sorted(g[1], key=lambda e: repr(type(e[0])) and e[0])] != list(range(len(vals))):
            return 'not a sequence'
        d = dict(g[1])
        seq = [d[i] for i in range(len(vals))]
        if sorted(seq, key=repr) != want:
            return 'not a permutation of %r' % (vals,)
        if key:
            ks = [key(x) for x in seq]
            if any(a > b for a, b in zip(ks, ks[1:])):
                return 'not in order'
    return Pred(fn)


def state_is(m):
    t = Table()
    for k, v in m.items():
        t.put(k, v)
    return t


def small(rng):
    return rng.choice([rng.randint(-5, 5), rng.randint(-1000, 1000), F(rng.uniform(-10, 10)), F(rng.choice([.5, -.25, 1e-3, 1e4]))])


def perm_ok(n):
    def fn(g):
        d = dict(g[1])
        if len(d) != 24:
            return '%d different orders' % len(d)
        for k, v in d.items():
            if sorted('%04d' % k) != list('0123'):
                return 'not a permutation: %r' % k
            if abs(v - n / 24.) > 7 * math.sqrt(n / 24.):
                return 'the order %04d occurred %d times of %d' % (k, v, n)
    return Pred(fn)


ALPH = 'ab,; '


def word(rng, big=False):
    n = rng.choice([0, 1, 2, 3, 5, 8, 15] + ([100] if big else []))
    return ''.join(rng.choice(ALPH if rng.random() < .9 else 'xyz"\\') for _ in range(n))


def find(i):
    return None if i < 0 else i


def csplit(s, d):
    out, cur = [], ''
    for ch in s:
        if ch in d:
            if cur:
                out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur:
        out.append(cur)
    return state_is(dict(enumerate(out)))


def gen(rng, n):
    out = []
    for _ in range(n):
        seq, T, ar = [], None, {}
        fam = rng.choice(['table', 'table', 'string', 'vec', 'arrows', 'keys'])
        if rng.random() < .03:
            seq.append(('perms', [2400], perm_ok(2400)))
        if fam == 'keys':
            seq.append(('clr', [], 0))
            m = {}
            for _ in range(rng.choice([0, 1, 3, 8, 20])):
                k = rng.choice([rng.randint(-9, 9), rng.randint(-1000, 1000)])
                m[k] = rng.choice([rng.randint(-9, 9), F(rng.uniform(-9, 9))])
                seq.append(('put', [k, m[k]], len(m)))
            for f, o, fn in (('tmax', m.values(), max), ('tmin', m.values(), min), ('tmaxk', m.keys(), max), ('tmink', m.keys(), min)):
                seq.append((f, [], eqnum(fn(num(x) for x in o)) if m else None))
            if len(m) >= 2:
                i, j = rng.sample(sorted(m), 2)
                seq.append(('tswap', [i, j], None))
                m[i], m[j] = m[j], m[i]
                seq[-1] = ('tswap', [i, j], state_is(dict(m)))
                seq.append(('tswap', [i, i], state_is(dict(m))))
        elif fam == 'table':
            seq.append(('clr', [], 0))
            kind = rng.choice('iifs')
            k = rng.choice([0, 1, 2, 3, 5, 10, 30, 60])
            dom = rng.choice([3, 100, 10**6])
            vals = [rng.randint(-dom, dom) if kind == 'i' else rng.choice([F(rng.uniform(-dom, dom)), rng.randint(-dom, dom)]) if kind == 'f' else word(rng) for _ in range(k)]
            o = rng.random()
            if kind != 's':
                vals = sorted(vals, key=num) if o < .15 else sorted(vals, key=num, reverse=True) if o < .3 else vals
            for i, v in enumerate(vals):
                seq.append(('add', [v], i + 1))
            for _ in range(rng.randint(1, 4)):
                if kind == 's':
                    f = rng.choice(['tlen', 'tshuf'])
                    seq.append((f, [], ordered(vals, len if f == 'tlen' else None)))
                    continue
                f = rng.choice(['tsort', 'tsort', 'tdown', 'tby', 'tshuf', 'tmax', 'tmin'])
                if f in ('tmax', 'tmin'):
                    seq.append((f, [], eqnum((max if f == 'tmax' else min)(num(v) for v in vals)) if vals else None))
                elif f == 'tby':
                    if kind == 'f' or dom > 1000:
                        continue
                    m = rng.randint(-dom, dom)
                    seq.append((f, [m], ordered(vals, lambda x, m=m: (x - m) ** 2)))
                else:
                    seq.append((f, [], ordered(vals, gnum if f == 'tsort' else (lambda x: -gnum(x)) if f == 'tdown' else None)))
        elif fam == 'string':
            for _ in range(rng.randint(5, 15)):
                s = word(rng, True)
                x = rng.random()
                m = rng.choice([word(rng)[:3], s[rng.randint(0, len(s)):][:rng.randint(0, 4)], s, s + 'x'])
                if x < .25:
                    if m:
                        seq.append(('first', [s, m], find(s.find(m))))
                elif x < .5:
                    if m:
                        seq.append(('last', [s, m], find(s.rfind(m))))
                elif x < .7:
                    i = rng.randint(0, len(s) + 2)
                    seq.append(('at', [s, i], s[i] if i < len(s) else None))
                else:
                    d = rng.choice(['', ',', ' ,', ',;', 'a', ALPH, word(rng)])
                    seq.append(('split', [s, d], csplit(s, d)))
        elif fam == 'vec':
            for _ in range(rng.randint(5, 15)):
                x, y, a, b = (small(rng) for _ in range(4))
                X, Y, P, Q = map(num, (x, y, a, b))
                f = rng.choice(['vnew', 'vnewp', 'vlen', 'vang', 'vnorm', 'vadd', 'vsub', 'vdot', 'vscale', 'vrot'])
                L = math.hypot(X, Y)
                if f == 'vnew':
                    seq.append((f, [x, y], exactvec(x, y)))
                elif f == 'vnewp':
                    seq.append((f, [x, y], vec(X * math.cos(Y), X * math.sin(Y), abs(X) * (1 + abs(Y) * .1))))
                elif f == 'vlen':
                    seq.append((f, [x, y], about(L, L)))
                elif f == 'vang':
                    if L:
                        seq.append((f, [x, y], about(math.atan2(Y, X), 4)))
                elif f == 'vnorm':
                    if L:
                        seq.append((f, [x, y], vec(X / L, Y / L, 1)))
                elif f == 'vadd':
                    seq.append((f, [x, y, a, b], vec(X + P, Y + Q, abs(X) + abs(Y) + abs(P) + abs(Q))))
                elif f == 'vsub':
                    seq.append((f, [x, y, a, b], vec(X - P, Y - Q, abs(X) + abs(Y) + abs(P) + abs(Q))))
                elif f == 'vdot':
                    seq.append((f, [x, y, a, b], about(X * P + Y * Q, abs(X * P) + abs(Y * Q))))
                elif f == 'vscale':
                    seq.append((f, [x, y, a], vec(X * P, Y * P, abs(X * P) + abs(Y * P))))
                else:
                    seq.append((f, [x, y, a], vec(X * math.cos(P) - Y * math.sin(P), X * math.sin(P) + Y * math.cos(P), (abs(X) + abs(Y)) * (1 + .1 * abs(P)))))
        else:
            nm = lambda: rng.randint(0, 3)
            for _ in range(rng.randint(4, 25)):
                i = rng.randint(0, 2)
                fs = [nm() for _ in range(3)]
                a = ['@:F%d' % f for f in fs]
                s = ''.join('abcd'[f] for f in fs)
                x = rng.random()
                if x < .2 or i not in ar:
                    if rng.random() < .5:
                        ar[i] = s[0]
                        seq.append(('abegin', [i, a[0]], i))
                    else:
                        ar[i] = s
                        seq.append(('achain', [i] + a, i))
                elif x < .45:
                    ar[i] += s[0]
                    seq.append(('anext', [i, a[0]], i))
                elif x < .6:
                    ar[i] += s[:2]
                    seq.append(('anext2', [i] + a[:2], i))
                else:
                    seq.append(('arun', [i], ar[i]))
        if not seq:
            seq.append(('first', ['abc', 'c'], 2))
        out.append(calls.case(PROG, seq, 0 if seq[0][0] == 'perms' else rng.choice([0, 0, 1]), rng.choice([0, 7])))
    return out


# ------------------------------------------------------------ collected messages

COL = '''
include "neighbors.bzz"
function col(t) { neighbors.collect(t) return 1 }
function res(t) { neighbors.reset(t) return 1 }
function get(t) { return neighbors.msgs[t] }
function send(t, v) { neighbors.broadcast(t, v) return 1 }
function nop() { return 1 }
'''


def gen_col(rng, n):
    out = []
    for _ in range(n):
        cmds = ['compile 0 @p.bzz', 'gcmode %d' % rng.choice([0, 1]), 'new 0 %d 0' % rng.choice([1, 500]), 'run 0', 'call 0 nop']
        want = [1]
        topics, on, msgs = ['t', 'u', 'long topic'], set(), {}
        for _ in range(rng.randint(5, 40)):
            t = rng.choice(topics)
            x = rng.random()
            if x < .15:
                cmds.append('call 0 col ' + arg(t))
                on.add(t)
                want.append(1)
            elif x < .25:
                cmds.append('call 0 res ' + arg(t))
                msgs.pop(t, None)
                want.append(1)
            elif x < .7:
                rid, v = rng.choice([2, 3, 65535]), rng.choice([rng.randint(-9, 9), rstr(rng), F(rng.uniform(-9, 9))])
                cmds += ['in 0 %d %s' % (rid, w_bcast(t, v)), 'procin 0']
                if t in on:
                    msgs.setdefault(t, {})[rid] = v
            else:
                cmds.append('call 0 get ' + arg(t))
                want.append(state_is(msgs[t]) if t in msgs else None)
        out.append(Case(cmds, {'p.bzz': COL}, col_oracle, info=want, key=cmds))
    return out


def col_oracle(ev, c):
    e = parse(ev)
    for t in e:
        if t[0] in ('R', 'P', 'K') and t[2]['state'] not in ('ready', 'done'):
            return 'error: %r' % (t[2],)
    got = [lang.norm(t[2]['top']) for t in e if t[0] == 'K']
    want = [lang.jv(v) for v in c.info]
    for i, (g, w) in enumerate(zip(got, want)):
        c.note('values')
        if g != w:
            return 'call %d gave %r, expected %r' % (i, g, w)
    return None if len(got) == len(want) else 'calls missing'


# ------------------------------------------------------------ include files

class Viol(Exception):
    pass


def stage_inc(rng, ctx):
    r = dict(evaluations=0, keys=[], violations=[], notes={'files included': 0, 'refused': 0, 'cycles': 0}, samples=[])
    for _ in range(10):
        r['evaluations'] += 1
        wd = os.path.join(ctx.work, 'i%d' % r['evaluations'])
        dirs = ['', 'd1', 'd2', 'd1/sub', 'long' * 30]
        for d in dirs:
            os.makedirs(os.path.join(wd, d), exist_ok=True)
        n = rng.choice([1, 3, 6, 10])
        files = {}    # path -> list of pieces: ('log', k) | ('inc', name) | ('raw', text)
        path = rng.sample(dirs[1:], rng.randint(0, 4))
        names = []
        for i in range(n):
            nm = rng.choice(['f%d.bzz', 'F%d', 'a b%d.bzz', 'sub/g%d.bzz']) % i
            names.append(nm)
            where = rng.sample(dirs, rng.choice([1, 1, 2]))
            for w in where:
                if w == 'd1' and nm.startswith('sub/') or w == '' and not nm.startswith('sub/') or w not in ('', 'd1') and not nm.startswith('sub/') or w == 'd1':
                    files[os.path.join(w, nm)] = None
        cnt = [0]
        used = set()
        files['main.bzz'] = None
        for f in files:
            ps = []
            for _ in range(rng.choice([0, 1, 2, 4])):
                cnt[0] += 1
                ps.append(('log', cnt[0]))
            files[f] = ps
        # inclusions: each name at most once, plus cycles to files that are open
        missing = rng.random() < .15

        def find(nm):
            if nm in files or nm.startswith(wd) and nm[len(wd) + 1:] in files:
                return nm[len(wd) + 1:] if nm.startswith(wd) else nm
            for d in path:
                if os.path.join(d, nm) in files:
                    return os.path.join(d, nm)
        out = []
        seen = set()

        def expand(f, stack, depth):
            seen.add(f)
            r['notes']['files included'] += 1
            ps = files[f]
            for nm in rng.sample(names, len(names)):
                t = find(nm)
                if t is None or t in seen and t not in stack + [f] or rng.random() > (.7 if depth < 3 else .3):
                    continue
                if t not in seen:
                    seen.add(t)
                else:
                    r['notes']['cycles'] += 1
                    if rng.random() < .5:
                        continue
                spell = nm
                if rng.random() < .15:
                    spell = './' + t
                elif rng.random() < .1:
                    spell = os.path.join(wd, t)
                ps.insert(rng.randint(0, len(ps)), ('inc', spell, t))
                if rng.random() < .1 and missing:
                    ps.insert(rng.randint(0, len(ps)), ('inc', 'nowhere%d.bzz' % len(ps), None))
            bad = False
            for p in ps:
                if p[0] == 'log':
                    out.append(p[1])
                elif p[2] is None:
                    return False
                elif p[2] not in stack + [f]:
                    if not expand(p[2], stack + [f], depth + 1):
                        return False
            return True
        ok = expand('main.bzz', [], 0)
        texts = {}
        for f, ps in files.items():
            s = rng.choice(['', '# comment\n', '\n\n', '#', '   '])
            s = s + '\n' if s == '#' else s
            for p in ps:
                if p[0] == 'log':
                    s += 'log("L%d")' % p[1] + rng.choice(['\n', '\n', ' # include "x"\n', ';'])
                else:
                    q = rng.choice('"\'')
                    s += 'include' + rng.choice([' ', '', '  ', '\t']) + q + p[1] + q + rng.choice(['\n', '\n', ' ', ' # c\n'])
            if rng.random() < .3:
                s = s.rstrip('\n')
            texts[f] = s + rng.choice(['', '', '# the end', '\n'])
            os.makedirs(os.path.dirname(os.path.join(wd, f)), exist_ok=True)
            open(os.path.join(wd, f), 'w').write(texts[f])
        env = {'BUZZ_INCLUDE_PATH': ':'.join(rng.choice(['', '', ':']) + os.path.join(rng.choice([wd + '/', '']), d) + rng.choice(['', '/']) for d in path)}
        r['keys'].append(repr(sorted(texts.items())))
        try:
            rc, so, se = ctx.tool(['bzzparse', 'main.bzz', 'm.basm'], cwd=wd, env=env)
            if 'Sanitizer' in se or 'runtime error' in se or rc not in (0, 1):
                raise Viol('bzzparse crashed (%r): %s' % (rc, se[-800:]))
            if not ok:
                r['notes']['refused'] += 1
                if rc == 0 or 'nowhere' not in se:
                    raise Viol('a missing file was included: exit %r, %r' % (rc, se[-300:]))
                if os.path.exists(os.path.join(wd, 'm.basm')) and os.path.getsize(os.path.join(wd, 'm.basm')) > 0:
                    raise Viol('refused, but an output was left behind')
                continue
            if rc != 0:
                raise Viol('bzzparse refuses the program: %r' % se[-500:])
            rc, so, se = ctx.tool(['bzzasm', 'm.basm', 'm.bo', 'm.bdb'], cwd=wd)
            rc2, so, se2 = ctx.tool(['bzzrun', 'm.bo', 'm.bdb'], cwd=wd)
            got = re.findall(r'^L(\d+)$', so.decode('latin-1'), re.M)
            if rc or rc2 or got != [str(x) for x in out]:
                raise Viol('the program logged %r, expected %r (%r %r)' % (got, out, se, se2))
        except Viol as ex:
            fl = {'f%d' % i: texts[f] for i, f in enumerate(sorted(texts))}
            rp = ''.join("mkdir -p '%s'; cp f%d '%s'; " % (os.path.dirname(f) or '.', i, f) for i, f in enumerate(sorted(texts)))
            r['violations'].append(dict(msg=str(ex), files=fl, replay=rp + "BUZZ_INCLUDE_PATH='%s' $D/bzzparse main.bzz m.basm; $D/bzzasm m.basm m.bo m.bdb; $D/bzzrun m.bo m.bdb" % env['BUZZ_INCLUDE_PATH'].replace(wd + '/', '')))
            break
    r['samples'] = [dict(text=texts['main.bzz'][:400])]
    return r


STAGES = [Stage('libraries', gen, 60, 2500, per=25), Stage('collected messages', gen_col, 10, 300, per=25), Direct('include files', stage_inc, 30, 1200)]
