"""B06: values arrive at other robots exactly as they were sent."""
import lang
from run import Case, Stage, Skip, parse
from util import *

RULE = ('Random values (integers, floats incl. extreme and non-finite ones, strings incl. empty, binary and 65535 bytes long, tables '
        'nested up to depth 60 and up to thousands of entries, functions of the program) are sent by a script through '
        'neighbors.broadcast and through a stigmergy, directly and over a second hop, with and without collections in between; the value '
        'observed by the receiving script must equal the value sent. Non-trivial: the value is not nil.')
ASSUMPTIONS = ['all robots run the same program', 'NaN is compared as NaN, -0.0 equals 0.0']

BASE = '''
function keepit(k, v) { got[k] = v }
function init() {
 got = {}
 vs = stigmergy.create(3)
 neighbors.listen("val", function(t, v, r) { trace("heard", v, r) keepit(r, v) if(relay) { neighbors.broadcast("hop", v) } })
 neighbors.listen("hop", function(t, v, r) { trace("hop", v) })
 relay = nil
}
function setrelay(x) { relay = 1 }
function fetchv(k) { trace("vget", vs.get(k)) }
function double(x) { return x * 2 }
function adder(a, b) { return a + b }
init()
'''


def value(rng):
    r = rng.random()
    if r < .2:
        return rscalar(rng)
    if r < .24:
        return rstr(rng, True)
    if r < .28:
        return ''.join(chr(rng.randint(1, 255)) for _ in range(rng.choice([254, 255, 256, 257, 1000, 4095, 20000])))
    if r < .33:
        t = Table()
        for i in range(rng.choice([100, 254, 255, 256, 257, 400])):
            t.put(i, i * 3)
        return t
    if r < .4:
        t = Table()
        c = t
        for i in range(rng.choice([3, 20, 60])):
            n = Table()
            n.put('d', i)
            c.put(rng.choice(['x', i, F(i + .5)]), n)
            c = n
        return t
    return rtable(rng, rng.randint(1, 4), rng.choice([3, 6, 10]))


def oracle(ev, c):
    want, hop, key = c.info
    w = lang.jv(want)
    e = parse(ev)
    for t in e:
        if t[0] in ('R', 'P', 'K') and t[2]['state'] not in ('ready', 'done'):
            return 'error: %r' % (t[2],)
    tr = [t for t in e if t[0] == 'T']
    c.nontrivial = want is not None
    heard = [lang.norm(t[2][1]) for t in tr if t[1] == 1 and t[2][0] == 'heard']
    if [t[2][2] for t in tr if t[1] == 1 and t[2][0] == 'heard'] != [11]:
        return 'the broadcast was heard %d times / from %r' % (len(heard), [t[2][2] for t in tr if t[2][0] == 'heard'])
    if heard != [w]:
        return 'sent %r, heard %r' % (w, heard)
    got = [lang.norm(t[2][1]) for t in tr if t[1] == 1 and t[2][0] == 'vget']
    if got != [w, w]:
        return 'put %r in the stigmergy under %r, the other robot got %r' % (w, key, got)
    h2 = [lang.norm(t[2][1]) for t in tr if t[1] == 2 and t[2][0] == 'hop']
    if h2 != [w]:
        return 'sent %r, heard %r over a second hop' % (w, h2)
    got2 = [lang.norm(t[2][1]) for t in tr if t[1] == 2 and t[2][0] == 'vget']
    if got2 != [w, w]:
        return 'put %r in the stigmergy under %r, the robot two hops away got %r' % (w, key, got2)
    c.note('values compared', 6)
    return None


def gen(rng, n):
    out = []
    for _ in range(n):
        v = value(rng)
        key = rkey(rng)
        b = Builder()
        if isinstance(v, str) and len(v) > 200:
            # long strings are given by the host
            pre, send = ['setg 0 given %s' % arg(v)], 'given'
        else:
            pre, send = [], b(v)
        later = ''
        if isinstance(v, Table) and rng.random() < .5:
            # the value is the one at the time of sending
            later = ' v.later = 1'
            for kk, vv in list(v.d.values())[:3]:
                later += ' v[%s].later = 2' % lit(kk) if isinstance(vv, Table) else ' v[%s] = "later"' % lit(kk)
        txt = b.text() + BASE + 'function send(x) { var v = %s neighbors.broadcast("val", v) vs.put(%s, v)%s }\n' % (send, lit(key), later)
        ids = [11, 4, 7]
        cmds = ['compile 0 @p.bzz', 'gcmode %d' % rng.choice([0, 0, 1])] if not (isinstance(v, Table) and len(v.d) > 50) else ['compile 0 @p.bzz']
        for k in range(3):
            cmds += ['new %d %d 0' % (k, ids[k]), 'run %d' % k, 'call %d double i:1' % k]
        cmds += pre + ['call 1 setrelay i:1', 'call 0 send i:1', 'fetch 0', 'net 0 1 1 0 0 0 0', 'procin 1', 'gcnow 1', 'call 1 fetchv %s' % arg(key), 'call 1 fetchv %s' % arg(key),
                       'fetch 1', 'net 1 2 1 0 0 0 0', 'procin 2', 'gcnow 2', 'call 2 fetchv %s' % arg(key), 'call 2 fetchv %s' % arg(key)]
        out.append(Case(cmds, {'p.bzz': txt}, oracle, key=repr(lang.jv(v)) + repr(lang.jv(key)), info=(v, None, key), timeout=40))
    return out


# ------------------------------------------------------------ a whole table through its edits

def gen_many(rng, n):
    """Many values in flight at once, in order, each identified by its index."""
    out = []
    for _ in range(n):
        vals = [rvalue(rng, 2, 4) for _ in range(rng.randint(2, 12))]
        b = Builder()
        lines = ['neighbors.broadcast("v%d", %s)' % (i % 3, b(v)) for i, v in enumerate(vals)]
        txt = b.text() + '''
function init() { %s }
function one(x) { return 1 }
function send(x) {
 %s
}
init()
''' % (' '.join('neighbors.listen("v%d", function(t, v, r) { trace(t, v, r) })' % i for i in range(3)), '\n '.join(lines))
        cmds = ['compile 0 @p.bzz', 'new 0 5 0', 'run 0', 'new 1 6 0', 'run 1', 'call 1 one i:1', 'call 0 send i:1', 'fetch 0', 'net 0 1 1 0 0 0 0', 'procin 1']
        out.append(Case(cmds, {'p.bzz': txt}, many_oracle, info=vals))
    return out


def many_oracle(ev, c):
    got = [[t[2][0], lang.norm(t[2][1]), t[2][2]] for t in parse(ev) if t[0] == 'T']
    want = [['v%d' % (i % 3), lang.jv(v), 5] for i, v in enumerate(c.info)]
    c.note('values compared', len(want))
    if got != want:
        k = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        return 'broadcast %d of %d: expected %r, heard %r' % (k, len(want), want[k:k + 1], got[k:k + 1])
    return None


# ------------------------------------------------------------ functions

def fun_oracle(ev, c):
    e = parse(ev)
    for t in e:
        if t[0] in ('R', 'P', 'K') and t[2]['state'] not in ('ready', 'done'):
            return 'error: %r' % (t[2],)
    tr = [t[2] for t in e if t[0] == 'T' and t[1] == 1]
    if tr != c.info:
        return 'functions sent to another robot gave %r, expected %r' % (tr, c.info)
    c.note('functions called', len(tr))
    return None


def gen_fun(rng, n):
    out = []
    for _ in range(n):
        a, b = rng.randint(-1000, 1000), rng.randint(-1000, 1000)
        txt = '''
function double(x) { return x * 2 }
function adder(x) { return x + %d }
function init() {
 vs = stigmergy.create(1)
 neighbors.listen("f", function(t, f, r) { trace("f", f(%d)) })
}
function one(x) { return 1 }
function send(x) { neighbors.broadcast("f", %s) vs.put("f", %s) }
function use(x) { var f = vs.get("f") trace("v", f(x)) }
init()
''' % (a, b, *(lambda s: (s[0], s[1]))(rng.choice([('double', 'adder'), ('adder', 'double')])))
        first = txt.split('broadcast("f", ')[1].split(')')[0]
        fd = lambda n, x: x * 2 if n == 'double' else x + a
        second = 'adder' if first == 'double' else 'double'
        cmds = ['compile 0 @p.bzz', 'gcmode %d' % rng.choice([0, 1]), 'new 0 5 0', 'run 0', 'new 1 6 0', 'run 1', 'call 1 one i:1', 'call 0 send i:1', 'fetch 0', 'net 0 1 1 0 0 0 0', 'procin 1', 'call 1 use i:%d' % b]
        out.append(Case(cmds, {'p.bzz': txt}, fun_oracle, info=[['f', fd(first, b)], ['v', fd(second, b)]]))
    return out


BIG = '''
V = stigmergy.create(1)
function put(n) { var t = {} var i = 0 while(i < n) { t[i] = i i = i + 1 } V.put("k", t) neighbors.broadcast("x", t) }
function nop(x) { return 1 }
'''


def big_oracle(ev, c):
    n, nn = c.info
    try:
        ms = [r_msg(t[2]) for t in parse(ev) if t[0] == 'M']
    except Bad as x:
        return 'a table with %d elements was sent in a malformed message' % n
    got = {m[0]: m[2 if m[0] == BROADCAST else 3] for m in ms}
    if len(ms) != 2 or any(m[0] == VSTIG_PUT and m[4:] != (1, 5) for m in ms):
        return 'a table with %d elements was sent as %d messages, %r' % (n, len(ms), [m[0] for m in ms])
    for k, v in got.items():
        if v is None and n > 65535:
            continue
        if not isinstance(v, Table) or len(v.d) != n:
            return 'a table with %d elements was sent as %s' % (n, repr(v)[:60])
    c.note('large tables')
    return None


def gen_big(rng, n):
    out = []
    for _ in range(n):
        k = rng.choice([rng.randint(255, 5000), 32767, 32768, 65535, 65536, 65537])
        out.append(Case(['compile 0 @p.bzz', 'new 0 5 0', 'run 0', 'call 0 nop i:1', 'call 0 put i:%d' % k, 'out 0'], {'p.bzz': BIG}, big_oracle,
                        info=(k, 0), timeout=120, flavour='plain'))
    return out


WHOLE = '''
neighbors.listen("x", function(t, v, r) { trace("heard", size(v), reduce(v, function(k, x, a) { if(x == k * 3 + 1) { return a + 1 } else { return a } }, 0), v[0], v[100], v[255], v[256]) })
function put(n) { var t = {} var i = 0 while(i < n) { t[i] = i * 3 + 1 i = i + 1 } neighbors.broadcast("x", t) return n }
function nop(x) { return 1 }
'''


def whole_oracle(ev, c):
    n = c.info
    e = parse(ev)
    for t in e:
        if t[0] in ('R', 'P', 'K') and t[2]['state'] not in ('ready', 'done'):
            return 'error: %r' % (t[2],)
    tr = [t[2] for t in e if t[0] == 'T']
    want = [['heard', n, n] + [i * 3 + 1 if i < n else None for i in (0, 100, 255, 256)]]
    if tr != want:
        return 'a table of %d elements: the receiver observed (size, right elements, examples) %r, expected %r' % (n, tr, want)
    c.note('elements of large tables', n)
    return None


def gen_whole(rng, n):
    out = []
    for _ in range(n):
        k = rng.choice([rng.randint(100, 600), rng.randint(100, 600), rng.randint(32768, 34000), rng.randint(32768, 65535), rng.randint(1000, 30000)])
        out.append(Case(['compile 0 @p.bzz', 'new 0 5 0', 'run 0', 'new 1 6 0', 'run 1', 'call 1 nop i:1', 'call 0 put i:%d' % k, 'fetch 0', 'net 0 1 1 0 0 0 0', 'procin 1'],
                        {'p.bzz': WHOLE}, whole_oracle, info=k, timeout=120, flavour='plain'))
    return out


LONG = '''
V = stigmergy.create(1)
neighbors.listen("x", function(t, v, r) { trace("heard", string.length(v), v == mk(string.length(v)), string.sub(v, string.length(v) - 3)) })
neighbors.listen("y", function(t, v, r) { trace("heardt", string.length(v.a), v.a == mk(string.length(v.a)), v.b) })
function mk(n) { return sub0(big, n) }
function sub0(s, n) { return string.sub(s, 0, n) }
function init(n) { var b = "0123456789abcdefghijklmnopqrstuvwxyz-" while(string.length(b) < n + 5) { b = string.concat(b, b) } big = b }
function put(n) { neighbors.broadcast("x", mk(n)) neighbors.broadcast("y", {.a = mk(n), .b = 7}) V.put("k", mk(n)) return string.length(mk(n)) }
function get(n) { var v = V.get("k") trace("got", string.length(v), v == mk(n)) }
'''


def long_oracle(ev, c):
    n = c.info
    e = parse(ev)
    for t in e:
        if t[0] in ('R', 'P', 'K') and t[2]['state'] not in ('ready', 'done'):
            return 'error: %r' % (t[2],)
    tr = [t[2] for t in e if t[0] == 'T']
    want = [['heard', n, 1, ('0123456789abcdefghijklmnopqrstuvwxyz-' * (n // 37 + 2))[n - 3:n]], ['heardt', n, 1, 7], ['got', n, 1]]
    if tr != want:
        return 'a string of %d characters: the receiver observed %r, expected %r' % (n, tr, want)
    c.note('long strings')
    return None


def gen_long(rng, n):
    out = []
    for _ in range(n):
        k = rng.choice([rng.randint(200, 300), rng.randint(1000, 65000), 255, 256, 32767, 32768, rng.randint(32768, 65535), 65535])
        out.append(Case(['compile 0 @p.bzz', 'new 0 5 0', 'run 0', 'new 1 6 0', 'run 1', 'call 1 init i:%d' % k, 'call 0 init i:%d' % k, 'call 0 put i:%d' % k, 'fetch 0', 'net 0 1 1 0 0 0 0', 'procin 1', 'call 1 get i:%d' % k],
                        {'p.bzz': LONG}, long_oracle, info=k, timeout=120))
    return out


FLAVOURS = ('asan', 'plain')
STAGES = [Stage('values', gen, 60, 2500, per=20),
          Stage('streams of values', gen_many, 12, 600, per=30),
          Stage('large tables', gen_big, 6, 30, per=1),
          Stage('large tables received', gen_whole, 12, 60, per=1),
          Stage('long strings', gen_long, 10, 200, per=4),
          Stage('functions', gen_fun, 4, 50, per=10)]
