"""B03: memory is bounded by what is live, and destroying a VM releases everything."""
import lang
from gen import make
from run import Case, Stage, Skip, parse
from swarmgen import Ctl, drive
from util import *

RULE = ('An allocation monitor counts the live heap blocks and bytes of the process. (a) After a VM is destroyed, at any point of a random '
        'single- or multi-robot history (also after errors, with pending messages, malformed messages, registered listeners and '
        'stigmergies), the counts must be back to those before its creation. (b) In a steady workload whose live data is bounded, '
        'the counts after n and after 2n steps must not grow, and the number of objects must stay within a constant factor '
        'of the live ones. (c) After up to 280000 objects become unreachable at once, a full collection brings the counts back. Non-trivial: the history allocated at least 100 objects.')
ASSUMPTIONS = ['a full collection is requested before comparing steady states',
               'the first life of a VM in a process may allocate process-wide buffers; the second and third must not differ']


def life_oracle(ev, c):
    L = [tuple(map(int, l.split()[1:])) for l in ev if l.startswith('L ')]
    if len(L) < 3:
        raise Skip()
    objs = [e[2]['objs'] for e in parse([l for l in ev if l.startswith('S ')])]
    c.note('VMs destroyed', len(objs))
    c.note('objects at destruction', sum(objs))
    if L[0] != L[1] and L[1] != L[2]:
        return 'destroying the VMs leaves memory behind: %d blocks, %d bytes more after the second life, %d/%d after the third' % (
            L[1][0] - L[0][0], L[1][1] - L[0][1], L[2][0] - L[1][0], L[2][1] - L[1][1])
    if L[1] != L[2] or L[0] != L[1]:
        return 'destroying the VMs leaves memory behind: (blocks, bytes) %r' % (L,)
    return None


def lives(cmds, vms, n=4):
    out = []
    for k in range(n):
        out += cmds
        if k == n - 1:
            out += ['stat %d' % v for v in vms]
        out += ['destroy %d' % v for v in vms] + ['netreset']
        if k:
            out.append('live')
    return out


def gen_life_prog(rng, n):
    out = []
    for _ in range(n):
        p, txt, spans, want, e, it, g = make(rng, .01, rng.choice([10, 25]))
        steps = rng.choice([5, 50, 300, 1000, 200000])
        out.append(Case(['compile 0 @p.bzz'] + lives(['new 0 0 0', 'run 0 %d' % steps], [0]), {'p.bzz': txt}, life_oracle, key=(txt, steps)))
    return out


def garbage(rng):
    r = rng.random()
    if r < .3:
        return bytes(rng.randrange(256) for _ in range(rng.randint(1, 30))).hex()
    m = rng.choice([w_bcast('t0', rtable(rng, 2)), w_put(1, rkey(rng), rvalue(rng), rng.randint(0, 9), rng.randint(0, 5)),
                    w_query(2, rkey(rng), rvalue(rng), rng.randint(0, 9), 1), w_list([1, 2, 0]), w_join(1), w_leave(0),
                    w_put(7, 'k', rtable(rng, 2), 3, 1)])
    if r < .6:
        m = m[:2 * rng.randint(1, max(1, len(m) // 2))]
    return m


def gen_life_swarm(rng, n):
    out = []
    for _ in range(n):
        ctl = Ctl(rng)
        k = rng.randint(1, 3)
        extra = (lambda r, s, v: ['in %d %d %s' % (v, r.randint(0, 9), garbage(r)) for _ in range(r.randint(0, 3))])
        cmds = drive(rng, k, ctl.nact, rng.randint(1, 6), 10, 10, 20, 1, extra=extra)
        if rng.random() < .4:
            cmds += ['push 0 ' + ' '.join(arg(rscalar(rng)) for _ in range(rng.randint(1, 5)))]
        if rng.random() < .3:
            cmds += ['call 0 nosuch i:1']
        if rng.random() < .5:
            cmds += ['in 0 5 ' + garbage(rng), 'in 0 6 ' + garbage(rng)]
        if rng.random() < .3:
            cmds = cmds[:rng.randint(3, len(cmds))]
            cmds = cmds + [x for v in range(k) if 'new %d' % v not in ' '.join(cmds) for x in ['new %d %d 0' % (v, v)]]
        out.append(Case(['compile 0 @p.bzz'] + lives(cmds, range(k)), {'p.bzz': ctl.text()}, life_oracle, timeout=30))
    return out


# ------------------------------------------------------------ errors in every library call

BAD = '''
function f0(x) { vs.put({}, 1) } function f1(x) { vs.get(nil) } function f2(x) { neighbors.broadcast(nil, 1) }
function f3(x) { neighbors.listen("a", 1) } function f4(x) { swarm.create("x") } function f5(x) { sw.exec(1) }
function f6(x) { foreach({.a = 1, .b = 2}, function(k, v) { var q = 1 + nil }) }
function f7(x) { map({.a = 1, .b = 2}, function(k, v) { var z = nil return z.x }) }
function f8(x) { reduce({.a = 1}, function(k, v, a) { return a + nil }, {}) }
function f9(x) { filter({.a = 1}, function(k, v) { return v() }) }
function f10(x) { neighbors.foreach(function(r, d) { return d.x.y.z }) }
function f11(x) { neighbors.map(function(r, d) { return 1 + d }) }
function f12(x) { neighbors.reduce(function(r, d, a) { return a + d }, 0) }
function f13(x) { neighbors.filter(function(r, d) { return d() }) }
function f14(x) { vs.foreach(function(k, v, r) { return k + nil }) }
function f15(x) { string.concat("a", {}) } function f16(x) { string.sub(1, 2) } function f17(x) { math.abs("a") }
function f18(x) { sw.exec(function() { return 1 + nil }) } function f19(x) { ccall(function(y) { return 1 + y }, nil) }
function f20(x) { failc() } function f21(x) { clone() } function f22(x) { 1/0 } function f23(x) { x.y = 3 }
function f24(x) { io.fopen(1, 2) } function f25(x) { stigmergy.create("x") } function f26(x) { vs.onconflict(2) }
function f27(x) { swarm.others("x") } function f28(x) { f28(x) }
function f29(x) { vs.put("k", function(z) { return z }) }
vs = stigmergy.create(1) vs.put("a", {.x = 1}) sw = swarm.create(3) sw.join()
neighbors.listen("bad", function(t, v, r) { return v.x.y })
vs.onconflict(function(k, l, r) { return l + r })
vs.onconflictlost(function(k, l) { return l + 1 })
'''
BAD = BAD.replace("function f22(x) { 1/0 }", "function f22(x) { var d = 1/0 }").replace("function f28(x) { f28(x) }", "function f28(x) { return f28 + x }")


def gen_life_err(rng, n):
    out = []
    for _ in range(n):
        f = rng.randrange(30)
        cmds = ['new 0 4 0', 'run 0', 'call 0 f29 n', 'neigh 0 3 1.5 2 3', 'neigh 0 5 1.5 2 3']
        if rng.random() < .3:
            cmds += ['in 0 3 ' + w_bcast('bad', 1), 'procin 0']
        elif rng.random() < .4:
            cmds += ['in 0 3 ' + w_put(1, 'a', 5, 1, 3), 'procin 0']
        else:
            cmds += ['call 0 f%d n' % f]
        if rng.random() < .5:
            cmds += ['in 0 2 ' + w_put(1, 'a', rtable(rng, 2), 3, 2), 'procin 0', 'procout 0', 'call 0 f0 n', 'run 0 10', 'strerror 0']
        if rng.random() < .4:
            # the host goes on in spite of the errors
            cmds += ['op 0 ' + rng.choice(['pop', 'dup', 'add', 'tget', 'gload', 'eq', 'unm']) for _ in range(rng.randint(1, 12))]
        out.append(Case(['compile 0 @p.bzz'] + lives(cmds, [0]), {'p.bzz': BAD}, life_oracle, key=cmds))
    return out


# ------------------------------------------------------------ conflicts, and robots that are forgotten

CONF = ['return l', 'return r', 'if(l.robot > r.robot) { return l } else { return r }', 'return { .robot = 9, .data = { .x = 1 }, .timestamp = 1 }',
        'vs.put(k, { .z = r.data })  return r', 'vs.put(k, "again")  return l', 'return nil', 'return 3', 'return { .robot = "a" }', 'vs.put("other", l.data)  return r',
        'vs.get(k)  return l', 'return l + r', 'l.data = nil  return l', 'vs.put(k, nil)  return r']
LOST = ['lost = l', 'vs.put(k, l.data)', 'vs.get(k)', 'vs.put(k, nil)', 'lost = l + 1', 'return 1']


def gen_life_conflict(rng, n):
    out = []
    for _ in range(n):
        txt = 'lost = nil\nvs = stigmergy.create(1)\n'
        if rng.random() < .85:
            txt += 'vs.onconflict(function(k, l, r) { %s })\n' % rng.choice(CONF)
        if rng.random() < .7:
            txt += 'vs.onconflictlost(function(k, l) { %s })\n' % rng.choice(LOST)
        keys = ['a', 'b', 1]
        txt += 'function put(x) { vs.put("a", x) vs.put("b", { .x = x }) vs.put(1, x) vs.put(2.5, "t") return 1 }\nfunction nop(x) { return x }\n'
        cmds = ['new 0 4 0', 'run 0', 'call 0 put i:5']
        for _ in range(rng.randint(1, 12)):
            w = rng.choice([w_put, w_query])
            cmds.append('in 0 %d %s' % (rng.randint(1, 9), w(1, rng.choice(keys), rng.choice([rvalue(rng), rtable(rng, 2), None]), rng.choice([0, 1, 1, 1, 2]), rng.randint(1, 9))))
            if rng.random() < .5:
                cmds.append('procin 0')
            if rng.random() < .2:
                cmds.append('call 0 put i:6')
            if rng.random() < .2:
                cmds += ['procout 0', 'fetch 0']
        if rng.random() < .5:
            for r in range(rng.randint(1, 8)):
                cmds.append('in 0 %d %s' % (20 + r, rng.choice([w_list([1, 2, 3]), w_join(4)])))
            cmds += ['procin 0'] * rng.choice([3, 40, 120])
        out.append(Case(['compile 0 @p.bzz'] + lives(cmds, [0]), {'p.bzz': txt}, life_oracle, key=(txt, cmds)))
    return out


# ------------------------------------------------------------ steady workloads

def steady_oracle(ev, c):
    pts, cur = [], {}
    maxlive, maxobj = 0, 0
    for l in ev:
        if l.startswith('# '):
            tag = l[2:]
            cur = dict(tag=tag)
            pts.append(cur)
        elif l.startswith('S ') and cur is not None:
            cur.setdefault('S', []).append(parse([l])[0][2])
        elif l.startswith('L '):
            cur['L'] = tuple(map(int, l.split()[1:]))
        elif l.startswith('R ') and '"error"' in l:
            return 'unexpected error: %s' % l
    before = [p for p in pts if p['tag'] == 'auto']
    after = [p for p in pts if p['tag'] == 'full']
    if len(after) < 3:
        raise Skip()
    c.note('steady states compared', len(after))
    o = [[s['objs'] for s in p['S']] for p in after]
    c.note('objects before collection', sum(s['objs'] for p in before for s in p['S']))
    # growth between the last two windows
    a, b, d = after[-3], after[-2], after[-1]
    for v in range(len(d['S'])):
        for k in ('objs', 'strings', 'stacks', 'stack', 'lsymts', 'flist', 'gsyms', 'swarmstack', 'listeners'):
            if a['S'][v][k] + 4 < b['S'][v][k] and b['S'][v][k] + 4 < d['S'][v][k]:
                return 'robot %d: %s grows although the live data is bounded: %d, %d, %d' % (v, k, a['S'][v][k], b['S'][v][k], d['S'][v][k])
    if a['L'][0] + 8 < b['L'][0] and b['L'][0] + 8 < d['L'][0]:
        return 'the number of live heap blocks grows although the live data is bounded: %d, %d, %d' % (a['L'][0], b['L'][0], d['L'][0])
    for pb, pa in zip(before, after):
        for v in range(len(pa['S'])):
            live = max(p['S'][v]['objs'] for p in after)
            if pb['S'][v]['objs'] > 4 * live + 400:
                return 'robot %d: %d objects allocated while %d are live' % (v, pb['S'][v]['objs'], live)
    return None


def gen_steady(rng, n):
    out = []
    for _ in range(n):
        live = rng.choice([2, 3, 5, 6, 10, 12, 15, 20, 30])
        frag = []
        pool = [
            'ring[n % LIVE] = {.id = n, .s = string.concat("s", string.tostring(n))}',
            'vs.put(n % 5, string.concat("v", string.tostring(n)))',
            'vs.put(string.concat("k", string.tostring(n % 4)), {.n = n})',
            'if(n % 3 == 0) { vs.put("gone", nil) } else { vs.put("gone", n) }',
            'trash = string.concat("tr", string.tostring(n * 7))',
            'sw.join() sw.leave()',
            'sw.exec(function() { trash = {.q = n} })',
            'trash = map(ring, function(k, v) { return {.v = v} })',
            'trash = neighbors.map(function(r, d) { return {.z = d.distance} })',
            'trash = clone(ring)',
            'neighbors.listen("t", function(t, v, r) { got = v })',
            'neighbors.broadcast("t", {.n = n, .l = string.concat("m", string.tostring(n))})',
            'vs = stigmergy.create(1)',
            'fs[n % LIVE] = function(x) { return ring }',
            'vs.onconflict(function(k, l, r) { return l })',
            'var u = {.me = nil} u.me = u',
            'trash = string.sub(string.concat("abcdef", string.tostring(n)), 1, 4)',
            'trash = neighbors.kin().filter(function(r, d) { return 1 })',
            'o = {.f = function() { return self } } trash = o.f()',
            'sw2 = swarm.union(3, sw, sw)',
            'trash = swarm.id() sw.select(n % 2)',
        ]
        chosen = rng.sample(pool, rng.randint(3, 8))
        txt = 'ring = {} fs = {} n = 0\nvs = stigmergy.create(1)\nsw = swarm.create(1)\nfunction step(x) {\n n = n + 1\n %s\n return 1\n}\n' % '\n '.join(
            'if(1) { %s }' % f.replace('LIVE', str(live)) for f in chosen)
        k = rng.randint(1, 2)
        cmds = ['compile 0 @p.bzz', 'netreset']
        for v in range(k):
            cmds += ['new %d %d 0' % (v, v), 'run %d' % v]
        # the swarm of other robots appears and disappears, robots come and go
        for w in range(4):
            for s in range(120):
                for v in range(k):
                    cmds += ['procin %d' % v, 'neigh %d' % v, 'neigh %d 9 10 1 1' % v,
                             'in %d %d %s' % (v, 10 + s % 5, w_list([1, 2] if s % 2 else [1])),
                             'in %d %d %s' % (v, 10 + s % 5, w_put(1, s % 5, 'r%d' % s, 0, 3)),
                             'call %d step i:1' % v, 'procout %d' % v, 'fetch %d' % v]
                for v in range(k):
                    for u in range(k):
                        if u != v:
                            cmds.append('net %d %d %d 0 0 0 0' % (u, v, rng.getrandbits(30)))
            for v in range(k):
                cmds += ['procin %d' % v]
            cmds += ['echo auto'] + ['stat %d' % v for v in range(k)]
            cmds += ['netreset'] + ['gcnow %d' % v for v in range(k)] + ['echo full'] + ['stat %d' % v for v in range(k)] + ['live']
        out.append(Case(cmds, {'p.bzz': txt}, steady_oracle, key=txt, timeout=40))
    return out


def large_oracle(ev, c):
    st = [e[2] for e in parse([l for l in ev if l.startswith('S ')])]
    if len(st) < 4:
        raise Skip()
    objs = [s['objs'] for s in st]
    L = [tuple(map(int, l.split()[1:])) for l in ev if l.startswith('L ')]
    n = c.info
    if objs[2] < n:
        raise Skip()
    c.note('large heaps collected')
    c.note('objects released', objs[2] - objs[3])
    if abs(objs[3] - objs[1]) > 50:
        return '%d objects became unreachable, but the VM still has %d after a full collection, %d before they were made' % (objs[2] - objs[1], objs[3], objs[1])
    if len(L) >= 2 and L[1][1] > L[0][1] + max(65536, 8 * n):
        return '%d objects became unreachable, but %d bytes more are in use after a full collection' % (objs[2] - objs[1], L[1][1] - L[0][1])
    return None


LARGE = '''
function more(n) {
  var i = 0
  while(i < n) { BODY  i = i + 1 }
  return i
}
function drop(x) { big = {} return 1 }
big = {}
'''


def gen_large(rng, n):
    out = []
    for _ in range(n):
        k = rng.choice([3000, 9000, 17000, 33000, 40000, 70000])
        body = rng.choice(['big[i] = {.v = i}', 'big[i] = i', 'big = {.next = big}' if k < 5000 else 'big[i] = i * 1.5',
                           'var q = {.a = i} var w = {.q = q} q.w = w big[i] = q'])
        txt = LARGE.replace('BODY', body)
        cmds = ['compile 0 @p.bzz', 'new 0 0 0', 'run 0', 'call 0 more i:5', 'call 0 drop i:1', 'gcnow 0', 'stat 0',
                'call 0 more i:5', 'call 0 drop i:1', 'gcnow 0', 'stat 0', 'live',
                'limit %d' % 40000000, 'call 0 more i:%d' % k, 'stat 0', 'call 0 drop i:1', 'gcnow 0', 'stat 0', 'live', 'destroy 0']
        out.append(Case(cmds, {'p.bzz': txt}, large_oracle, key=(k, body), info=k, timeout=60))
    return out


STAGES = [Stage('life of programs', gen_life_prog, 20, 800, per=20),
          Stage('life of swarms', gen_life_swarm, 24, 1000, per=10),
          Stage('life with errors', gen_life_err, 12, 200, per=20),
          Stage('life with conflicts', gen_life_conflict, 20, 600, per=20),
          Stage('steady workloads', gen_steady, 16, 600, per=5),
          Stage('large heaps', gen_large, 8, 200, per=2)]
