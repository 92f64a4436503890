"""B08: one robot's stigmergy follows the protocol."""
import lang
from run import Case, Stage, Skip, parse
from util import *

RULE = ('Random histories of local operations (create, put, put nil, get, foreach, size, handlers set and changed) and received PUT/QUERY messages '
        'on one robot are executed; after each operation the values read, the entries, the handlers called with their arguments, and the '
        'messages sent are compared with a reference model of the protocol. Timestamps start near 0, 127, 255, 32767 and 65535. Non-trivial: at least one message was received for a known key.')
ASSUMPTIONS = ['the outgoing queue is emptied after every operation, so that no message supersedes another']

PROG = '''
V = {}
function create(i) { V[i] = stigmergy.create(i) }
function put(i, k, v) { V[i].put(k, v) }
function puttab(i, k, n) { V[i].put(k, {.n = n, .s = {.l = "x"}}) }
function get(i, k) { trace("get", V[i].get(k)) }
function size_(i) { trace("size", V[i].size()) }
function each(i) { V[i].foreach(function(k, v, r) { trace("each", k, v, r) }) trace("done") }
function eachput(i, k, v) { V[i].foreach(function(kk, vv, r) { V[i].put(k, v) }) }
function handler(i, h) {
 if(h == 0) { V[i].onconflict(function(k, l, r) { trace("conflict", k, l, r) return l }) }
 if(h == 1) { V[i].onconflict(function(k, l, r) { trace("conflict", k, l, r) return r }) }
 if(h == 2) { V[i].onconflict(function(k, l, r) { trace("conflict", k, l, r) return {.robot = 500, .data = "merged", .timestamp = 77} }) }
 if(h == 3) { V[i].onconflict(function(k, l, r) { trace("conflict", k, l, r) return nil }) }
 if(h == 4) { V[i].onconflict(function(k, l, r) { trace("conflict", k, l, r) return {.robot = id, .data = l.data} }) }
 if(h == 5) { V[i].onconflict(function(k, l, r) { trace("conflict", k, l, r) V[i].put(k, "mine") return l }) }
 if(h == 6) { V[i].onconflict(function(k, l, r) { trace("conflict", k, l, r) V[i] = stigmergy.create(i) return r }) }
 if(h == 7) { V[i].onconflict(function(k, l, r) { trace("conflict", k, l, r) V[i].put("other", 7) return r }) }
}
function losthandler(i, h) {
 if(h == 0) { V[i].onconflictlost(function(k, l) { trace("lost", k, l) }) }
 if(h == 1) { V[i].onconflictlost(function(k, l) { trace("lost again", k, l) }) }
 if(h == 2) { V[i].onconflictlost(function(k, l) { trace("lost", k, l) V[i].put(k, "again") }) }
 if(h == 3) { V[i].onconflictlost(function(k, l) { trace("lost", k, l) V[i] = stigmergy.create(i) }) }
}
function nop(x) { return 1 }
'''


class Model:
    def __init__(self, me):
        self.me, self.vs = me, {}

    def create(self, i):
        self.vs[i] = dict(e={}, h=None, lost=None)
        return [], []

    def table(self, e):
        t = Table()
        t.put('robot', e[2])
        if e[1] is not None:
            t.put('data', e[1])
        t.put('timestamp', e[3])
        return t

    def store(self, i, k, v, ts, rb):
        old = self.vs[i]['e'].get(Table.canon(k))
        self.vs[i]['e'][Table.canon(k)] = (k, v, rb, ts)

    def put(self, i, k, v):
        e = self.vs[i]['e'].get(Table.canon(k))
        if e:
            self.store(i, k, v, (e[3] + 1) & 0xffff, self.me)
            return [], [(VSTIG_PUT, i, k, v, (e[3] + 1) & 0xffff, self.me)]
        if v is None:
            return [], []
        self.store(i, k, v, 1, self.me)
        return [], [(VSTIG_PUT, i, k, v, 1, self.me)]

    def get(self, i, k):
        e = self.vs[i]['e'].get(Table.canon(k))
        if e:
            return [['get', e[1]]], [(VSTIG_QUERY, i, k, e[1], e[3], e[2])]
        return [['get', None]], [(VSTIG_QUERY, i, k, None, 0, self.me)]

    def recv(self, t, i, k, v, ts, rb):
        if i not in self.vs:
            return [], [(t, i, k, v, ts, rb)] if t == VSTIG_QUERY else []
        s = self.vs[i]
        e = s['e'].get(Table.canon(k))
        if e is None:
            if t == VSTIG_QUERY and v is None:
                return [], [(t, i, k, v, ts, rb)]
            self.store(i, k, v, ts, rb)
            return [], [(VSTIG_PUT, i, k, v, ts, rb)]
        if e[3] < ts:
            self.store(i, k, v, ts, rb)
            return [], [(VSTIG_PUT, i, k, v, ts, rb)]
        if e[3] > ts:
            return [], [(VSTIG_PUT, i, k, e[1], e[3], e[2])] if t == VSTIG_QUERY else []
        if e[2] == rb:
            return [], []
        tr, first = [], []
        r = (k, v, rb, ts)
        h = s['h']
        if h is None:
            if (e[1] is None) == (v is None):
                w = e if e[2] > rb else r
            else:
                w = e if v is None else r
        else:
            tr.append(['conflict', k, self.table(e), self.table(r)])
            w = {0: e, 1: r, 2: (k, 'merged', 500, ts), 3: None, 4: (k, e[1], self.me, ts), 5: None, 6: None, 7: r}[h]
            if h == 5:
                # the new value written by the handler is newer than the conflict
                if ts == 65535:
                    raise Skip()
                return tr, self.put(i, k, 'mine')[1]
            if h == 6:
                self.create(i)
            if h == 7:
                first = self.put(i, 'other', 7)[1]
                if k == 'other' or first[0][4] == 0:
                    raise Skip()
        if w is None:
            return tr, []
        lost = w[2] != self.me and e[2] == self.me
        self.store(i, k, w[1], ts, w[2])
        if lost and s['lost'] is not None:
            tr.append([['lost', 'lost again', 'lost', 'lost'][s['lost']], k, self.table(e)])
            if s['lost'] == 2:
                # supersedes the value that won
                if ts == 65535:
                    raise Skip()
                return tr, first + self.put(i, k, 'again')[1]
            if s['lost'] == 3:
                self.create(i)
        return tr, first + [(VSTIG_PUT, i, k, w[1], ts, w[2])]


def jm(m):
    return tuple(lang.jv(x) if isinstance(x, (Table, F)) else x for x in m)


def canonkey(m):
    """Keys 1 and 1.0 are the same key."""
    k = m[2]
    if isinstance(k, tuple) and k[0] == 'f' and k[1] == int(k[1]):
        k = int(k[1])
    return m[:2] + (k,) + m[3:]


def oracle(ev, c):
    segs, cur = [], None
    for l in ev:
        if l.startswith('# op'):
            cur = []
            segs.append(cur)
        elif cur is not None:
            cur.append(l)
        elif l.startswith('R ') and '"error"' in l:
            return 'error: %s' % l
    m = Model(c.info[0])
    for (op, desc), seg in zip(c.info[1], segs):
        e = parse(seg)
        for t in e:
            if t[0] in ('R', 'P', 'K') and t[2]['state'] not in ('ready', 'done'):
                return '%s: error %r' % (desc, t[2])
        tr = [[lang.norm(x) for x in t[2]] for t in e if t[0] == 'T']
        ms = [t[2] for t in e if t[0] == 'M']
        try:
            ms = [canonkey(jm(r_msg(x))) for x in ms]
        except Bad as x:
            return '%s: sent a malformed message %r' % (desc, ms)
        wt, wm = op(m, c)
        norm1 = lambda x: [int(y[1]) if i == 1 and x[0] in ('conflict', 'lost', 'lost again', 'each') and isinstance(y, tuple) and y[0] == 'f' and y[1] == int(y[1]) else y for i, y in enumerate(x)]
        wt = [norm1([lang.jv(y) for y in x]) for x in wt]
        tr = [norm1(x) for x in tr]
        wm = [canonkey(jm(x)) for x in wm]
        if wt and wt[0][0] == 'each' or tr and tr[0][0] == 'each':
            tr.sort(key=repr)
            wt.sort(key=repr)
        if tr != wt:
            return '%s: the script observed %r, expected %r' % (desc, tr, wt)
        if ms != wm:
            return '%s: sent %r, expected %r' % (desc, ms, wm)
        c.note('operations')
        for t in e:
            if t[0] == 'S' and (t[2]['stack'] or t[2]['stacks'] != 1):
                return '%s: unbalanced stack' % desc
    return None


def gen(rng, n):
    out = []
    for _ in range(n):
        me = rng.choice([0, 3, 500, 65535])
        base = rng.choice([0] * 6 + [124, 252, 32763, 65500])
        keys = [rkey(rng) for _ in range(rng.randint(1, 4))]
        ids = rng.sample([0, 1, 2, 300, 65535], 2)
        ops = []
        cmds = ['compile 0 @p.bzz', 'gcmode %d' % rng.choice([0, 0, 1]), 'new 0 %d 0' % me, 'run 0', 'call 0 nop i:1']

        def do(op, cmd, desc):
            ops.append((op, desc))
            cmds.extend(['echo op'] + cmd + ['out 0', 'stat 0'])

        def add(i, created=[]):
            r = rng.random()
            k = rng.choice(keys)
            v = rscalar(rng)
            if r < .3:
                do(lambda m, c, i=i, k=k, v=v: m.put(i, k, v), ['call 0 put i:%d %s %s' % (i, arg(k), arg(v))], 'put %r %r in %d' % (k, v, i))
            elif r < .34:
                x = rng.randint(0, 9)
                t = Table()
                t.put('n', x)
                t2 = Table()
                t2.put('l', 'x')
                t.put('s', t2)
                do(lambda m, c, i=i, k=k, v=t: m.put(i, k, v), ['call 0 puttab i:%d %s i:%d' % (i, arg(k), x)], 'put table under %r in %d' % (k, i))
            elif r < .46:
                do(lambda m, c, i=i, k=k: m.get(i, k), ['call 0 get i:%d %s' % (i, arg(k))], 'get %r from %d' % (k, i))
            elif r < .5:
                do(lambda m, c, i=i: ([['size', sum(e[1] is not None for e in m.vs[i]['e'].values())]], []), ['call 0 size_ i:%d' % i], 'size of %d' % i)
            elif r < .55:
                do(lambda m, c, i=i: ([['each', e[0], e[1], e[2]] for e in m.vs[i]['e'].values() if e[1] is not None] + [['done']], []), ['call 0 each i:%d' % i], 'foreach of %d' % i)
            elif r < .6:
                h = rng.choice([0, 1, 2, 3, 4, 0, 1, 2, 5, 6, 7])
                do(lambda m, c, i=i, h=h: (m.vs[i].update(h=h), ([], []))[1], ['call 0 handler i:%d i:%d' % (i, h)], 'onconflict handler %d for %d' % (h, i))
            elif r < .65:
                h = rng.choice([0, 1, 0, 1, 2, 3])
                do(lambda m, c, i=i, h=h: (m.vs[i].update(lost=h), ([], []))[1], ['call 0 losthandler i:%d i:%d' % (i, h)], 'onconflictlost handler %d for %d' % (h, i))
            else:
                t = rng.choice([VSTIG_PUT, VSTIG_QUERY])
                j = i if rng.random() < .93 else 77
                # around the current timestamp
                ts = rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 9, 65535])
                if rng.random() < .6:
                    ts = rng.randint(1, 3)
                ts = min(65535, ts + base)
                rb = rng.choice([me, 1, 4, 500, 501, 65535])

                def f(m, c, t=t, j=j, k=k, v=v, ts=ts, rb=rb):
                    if j in m.vs and Table.canon(k) in m.vs[j]['e']:
                        c.note('messages for known keys')
                    return m.recv(t, j, k, v, ts, rb)
                do(f, ['in 0 9 ' + w_put(j, k, v, ts, rb, t), 'procin 0'], 'received %s %r %r ts %d robot %d for %d' % (['PUT', 'QUERY'][t - 2], k, v, ts, rb, j))

        def create(i):
            do(lambda m, c, i=i: m.create(i), ['call 0 create i:%d' % i], 'create %d' % i)
        create(ids[0])
        two = rng.random() < .5
        if two:
            create(ids[1])
        for _ in range(rng.randint(5, 30)):
            i = rng.choice(ids) if two else ids[0]
            if rng.random() < .02:
                create(i)
            else:
                add(i)
        out.append(Case(cmds, {'p.bzz': PROG}, oracle, key=cmds, info=(me, ops)))
    return out


def each_oracle(ev, c):
    e = parse(ev)
    for t in e:
        if t[0] in ('R', 'P', 'K') and t[2]['state'] not in ('ready', 'done'):
            return 'error %r' % (t[2],)
    c.note('iterations with writes')
    got = {repr(lang.norm(t[2][1])) for t in e if t[0] == 'T' and t[2][0] == 'seen'}
    if c.info is None:
        if [t[2] for t in e if t[0] == 'T' and t[2][0] == 'size'] != [['size', 1]]:
            return 'created again while iterating over it: %r' % (ev,)
        return None
    if not set(c.info) <= got:
        return 'foreach missed entries: %r, visited %r' % (c.info, got)
    return None


def gen_each(rng, n):
    """Writes to the stigmergy while iterating over it: every entry present from start to end is visited."""
    out = []
    for _ in range(n):
        k = rng.randint(1, 60)
        txt = '''
function go(x) {
 v = stigmergy.create(1)
 var i = 0
 while(i < %d) { v.put(i, i) i = i + 1 }
 n = 0
 v.foreach(function(k, d, r) { trace("seen", k) n = n + 1 if(n < 200) { v.put(%s, n) } })
 trace("size", v.size())
}
''' % (k, rng.choice(['k', '0', 'string.concat("n", string.tostring(n))', 'k + 1000']))
        info = [repr(i) for i in range(k)]
        if rng.random() < .25:
            info = None
            txt = '''
function go(x) {
 v = stigmergy.create(1)
 var i = 0
 while(i < %d) { v.put(i, i) i = i + 1 }
 n = 0
 v.foreach(function(k, d, r) { trace("seen", k) n = n + 1 if(n == %d) { v = stigmergy.create(1) v.put("z", 1) } })
 trace("size", v.size())
}
''' % (k, rng.randint(1, k))
        out.append(Case(['compile 0 @p.bzz', 'gcmode %d' % rng.choice([0, 1, 7]), 'new 0 1 0', 'run 0', 'call 0 go i:1'], {'p.bzz': txt}, each_oracle, info=info))
    return out


STAGES = [Stage('histories', gen, 70, 3000, per=30), Stage('writes while iterating', gen_each, 6, 100, per=10)]
