"""B12: the outgoing queue conserves messages, in order."""
import lang
from run import Case, Stage, Skip, parse
from util import *
from b08 import Model as Proto, canonkey, jm

RULE = ('Random histories of broadcasts, joins, leaves, selections, stigmergy writes and reads, received messages and announcement steps on one robot, with the host '
        'taking any number of messages at any time, looking at the next one repeatedly and collecting garbage in between; tables are modified after they were sent. Every message taken is '
        'compared with a reference model of the queue: priorities, order, supersession, absorption in lists, values as they were when sent. Non-trivial: some message was superseded, '
        'absorbed or cancelled while waiting.')
ASSUMPTIONS = ['the order of the ids inside a membership list is unspecified']

PROG = '''
S = {}
V = {}
T = {.n = 0, .sub = {.m = 0}}
function mkswarm(i) { S[i] = swarm.create(i) }
function join(i) { S[i].join() }
function leave(i) { S[i].leave() }
function select(i, c) { S[i].select(c) }
function others(i, n) { S[n] = S[i].others(n) }
function setop(o, n, i, j) {
 if(o == 0) { S[n] = swarm.union(n, S[i], S[j]) }
 if(o == 1) { S[n] = swarm.intersection(n, S[i], S[j]) }
 if(o == 2) { S[n] = swarm.difference(n, S[i], S[j]) }
}
function create(i) { V[i] = stigmergy.create(i) }
function put(i, k, v) { V[i].put(k, v) }
function putt(i, k, x) { var t = {.n = x, .sub = {.m = x + 1}} V[i].put(k, t) t.n = -1 t.sub.m = -2 t.new = 1 }
function get(i, k) { V[i].get(k) }
function bc(t, v) { neighbors.broadcast(t, v) }
function bct(t, x) { T.n = x T.sub.m = x + 1 neighbors.broadcast(t, T) T.n = -1 T.sub.m = -2 }
function bcd(x) { neighbors.broadcast(string.concat("to", string.tostring(x)), string.concat("va", string.tostring(x))) }
function many(t, n) { var i = 0 while(i < n) { neighbors.broadcast(t, i) i = i + 1 } }
function puts(i, a, b) { while(a < b) { V[i].put(a, a * 2) a = a + 1 } }
function garbage(n) { var i = 0 while(i < n) { var x = {.a = string.concat("g", string.tostring(i)), .b = i + 0.5} i = i + 1 } }
function nop(x) { return 1 }
'''


class Queue:
    def __init__(self, me):
        self.me = me
        self.q = {t: [] for t in range(6)}
        self.proto = Proto(me)
        self.sw = {}
        self.count = 10
        self.super = 0

    def take(self):
        for t in range(6):
            if self.q[t]:
                return self.q[t].pop(0)
        return None

    def peek(self):
        for t in range(6):
            if self.q[t]:
                return self.q[t][0]
        return None

    def vs(self, msgs):
        for m in msgs:
            k = (m[1], Table.canon(m[2]))
            for t in (VSTIG_PUT, VSTIG_QUERY):
                old = [x for x in self.q[t] if (x[1], Table.canon(x[2])) == k]
                if old:
                    break
            if old:
                o = old[0]
                self.super += 1
                if o[4] > m[4] or o[4] == m[4] and o[5] == m[5]:
                    continue
                self.q[t].remove(o)
            self.q[m[0]].append(m)

    def member(self, i, inn):
        self.sw[i] = inn
        if self.q[SWARM_LIST]:
            l = set(self.q[SWARM_LIST][0][1])
            if (i in l) != inn:
                self.super += 1
            (l.add if inn else l.discard)(i)
            self.q[SWARM_LIST] = [(SWARM_LIST, frozenset(l))]
            return
        a, b = (SWARM_JOIN, SWARM_LEAVE) if inn else (SWARM_LEAVE, SWARM_JOIN)
        if (a, i) not in self.q[a]:
            self.q[a].append((a, i))
        else:
            self.super += 1
        if (b, i) in self.q[b]:
            self.super += 1
            self.q[b].remove((b, i))

    def derive(self, n, inn):
        """The swarm n results from a set operation; a change of membership is announced."""
        was = self.sw.get(n, False)
        self.sw[n] = inn
        if inn or was:
            self.member(n, inn)

    def announce(self):
        if self.count > 0:
            self.count -= 1
        if self.count == 0 and self.sw:
            self.count = 10
            self.super += len(self.q[SWARM_JOIN]) + len(self.q[SWARM_LEAVE])
            self.q[SWARM_JOIN], self.q[SWARM_LEAVE] = [], []
            self.q[SWARM_LIST] = [(SWARM_LIST, frozenset(i for i, x in self.sw.items() if x))]


def norm(m):
    if m is None:
        return None
    if m[0] == SWARM_LIST:
        return (m[0], m[1] if len(m) > 1 and isinstance(m[1], frozenset) else frozenset(m[1:]))
    if m[0] in (VSTIG_PUT, VSTIG_QUERY):
        return canonkey(jm(m))
    if m[0] == BROADCAST:
        return jm(m)
    return m


def oracle(ev, c):
    q = Queue(c.info[0])
    segs, cur = [], None
    for l in ev:
        if l.startswith('# op'):
            cur = []
            segs.append(cur)
        elif cur is not None:
            cur.append(l)
    for (op, desc), seg in zip(c.info[1], segs):
        e = parse(seg)
        for t in e:
            if t[0] in ('R', 'P', 'K') and t[2]['state'] not in ('ready', 'done'):
                return '%s: error %r' % (desc, t[2])
            if t[0] == 'S' and (t[2]['stack'] or t[2]['stacks'] != 1):
                return '%s: unbalanced stack' % desc
        want = op(q)
        got = []
        for t in e:
            if t[0] in ('M', 'MP'):
                if t[2] == 'none':
                    got.append(None)
                    continue
                try:
                    m = r_msg(t[2])
                except Bad as x:
                    return '%s: malformed message %r' % (desc, t[2])
                if m[0] == SWARM_LIST and len(set(m[1:])) != len(m) - 1:
                    return '%s: a list with repeated ids %r' % (desc, m)
                got.append(norm(m))
        c.note('messages', len(got))
        want = [norm(m) for m in want or []]
        if got != want:
            return '%s: the host got %r, expected %r' % (desc, got[:6], want[:6])
    if len(segs) != len(c.info[1]):
        return 'the history was cut short: %r' % ev[-1:]
    c.note('superseded', q.super)
    c.nontrivial = q.super > 0
    return None


def gen(rng, n):
    out = []
    for _ in range(n):
        me = rng.choice([0, 3, 500, 65535])
        ops, cmds = [], ['compile 0 @p.bzz', 'gcmode %d' % rng.choice([0, 0, 0, 1]), 'new 0 %d 0' % me, 'run 0', 'call 0 nop i:1']
        keys = [rkey(rng) for _ in range(rng.randint(1, 3))]
        sws = rng.sample([0, 1, 2, 7, 300, 65535], rng.randint(1, 4))
        vss = rng.sample([1, 2, 300], rng.randint(1, 2))
        topics = ['t', 'u', 'long topic name']
        style = rng.choice(['mixed', 'mixed', 'swarm', 'vstig', 'bc'])

        def do(op, cmd, desc):
            ops.append((op, desc))
            cmds.extend(['echo op'] + cmd)

        for i in sws:
            do(lambda q, i=i: q.sw.__setitem__(i, False), ['call 0 mkswarm i:%d' % i], 'create swarm %d' % i)
        for i in vss:
            do(lambda q, i=i: q.proto.create(i) and None, ['call 0 create i:%d' % i], 'create stigmergy %d' % i)

        def tk(q, k):
            r = []
            while k < 0 or len(r) < k:
                m = q.take()
                if m is None:
                    break
                r.append(m)
            return r

        for _ in range(rng.randint(8, 60)):
            r = rng.random()
            i, v, k = rng.choice(sws), rng.choice(vss), rng.choice(keys)
            kind = style if style != 'mixed' and rng.random() < .8 else rng.choice(['swarm', 'vstig', 'bc'])
            if r < .14:
                kk = rng.choice([-1, 1, 1, 2, 3, 5])
                do(lambda q, kk=kk: tk(q, kk), ['out 0 %d' % kk, 'stat 0'], 'the host takes %d messages' % kk)
            elif r < .2:
                do(lambda q: [q.peek()] * 2, ['peek 0', 'peek 0'], 'the host looks at the next message twice')
            elif r < .26:
                do(lambda q: None, rng.choice([['gcnow 0'], ['call 0 garbage i:%d' % rng.choice([10, 100, 400])]]), 'garbage')
            elif r < .38:
                kk = rng.choice([1, 1, 3, 9, 10, 11])
                do(lambda q, kk=kk: [q.announce() for _ in range(kk)] and None, ['procout 0'] * kk, '%d announcement steps' % kk)
            elif kind == 'swarm':
                x = rng.random()
                if x < .1:
                    nn = rng.choice(sws + [900, 901])
                    do(lambda q, i=i, nn=nn: q.derive(nn, not q.sw[i]), ['call 0 others i:%d i:%d' % (i, nn)], 'others of %d as %d' % (i, nn))
                elif x < .22:
                    nn, o, j = rng.choice(sws + [900, 901]), rng.randint(0, 2), rng.choice(sws)
                    do(lambda q, i=i, nn=nn, o=o, j=j: q.derive(nn, [q.sw[i] or q.sw[j], q.sw[i] and q.sw[j], q.sw[i] and not q.sw[j]][o]),
                       ['call 0 setop i:%d i:%d i:%d i:%d' % (o, nn, i, j)], '%s of %d and %d as %d' % (['union', 'intersection', 'difference'][o], i, j, nn))
                elif x < .5:
                    do(lambda q, i=i: q.member(i, True), ['call 0 join i:%d' % i], 'join %d' % i)
                elif x < .85:
                    do(lambda q, i=i: q.member(i, False), ['call 0 leave i:%d' % i], 'leave %d' % i)
                else:
                    b = rng.choice([0, 1, 5])
                    do(lambda q, i=i, b=b: q.member(i, b != 0), ['call 0 select i:%d i:%d' % (i, b)], 'select %d %d' % (i, b))
            elif kind == 'vstig':
                x = rng.random()
                val = rscalar(rng)
                if x < .08:
                    y = rng.randint(0, 99)

                    def f(q, v=v, y=y):
                        a, b = Table(), Table()
                        a.put('n', y)
                        b.put('m', y + 1)
                        a.put('sub', b)
                        q.vs(q.proto.put(v, 'table key', a)[1])
                    do(f, ['call 0 putt i:%d %s i:%d' % (v, arg('table key'), y)], 'put of a table modified later')
                elif x < .4:
                    do(lambda q, v=v, k=k, val=val: q.vs(q.proto.put(v, k, val)[1]), ['call 0 put i:%d %s %s' % (v, arg(k), arg(val))], 'put %r %r in %d' % (k, val, v))
                elif x < .6:
                    do(lambda q, v=v, k=k: q.vs(q.proto.get(v, k)[1]), ['call 0 get i:%d %s' % (v, arg(k))], 'get %r from %d' % (k, v))
                elif x < .68:
                    a = rng.randint(0, 3)
                    b = a + rng.randint(1, 25)
                    do(lambda q, v=v, a=a, b=b: [q.vs(q.proto.put(v, y, y * 2)[1]) for y in range(a, b)] and None,
                       ['call 0 puts i:%d i:%d i:%d' % (v, a, b)], 'puts %d..%d in %d' % (a, b, v))
                else:
                    t = rng.choice([VSTIG_PUT, VSTIG_QUERY])
                    j = v if rng.random() < .8 else 77
                    ts, rb = rng.choice([0, 1, 1, 2, 2, 3, 4, 9]), rng.choice([me, 1, 4, 501])
                    do(lambda q, t=t, j=j, k=k, val=val, ts=ts, rb=rb: q.vs(q.proto.recv(t, j, k, val, ts, rb)[1]),
                       ['in 0 9 ' + w_put(j, k, val, ts, rb, t), 'procin 0'],
                       'received %s %r %r ts %d robot %d for %d' % (['PUT', 'QUERY'][t - 2], k, val, ts, rb, j))
            else:
                x = rng.random()
                t = rng.choice(topics)
                if x < .5:
                    val = rscalar(rng)
                    do(lambda q, t=t, val=val: q.q[BROADCAST].append((BROADCAST, t, val)), ['call 0 bc %s %s' % (arg(t), arg(val))], 'broadcast %r %r' % (t, val))
                elif x < .7:
                    y = rng.randint(0, 99)

                    def f(q, t=t, y=y):
                        a, b = Table(), Table()
                        a.put('n', y)
                        b.put('m', y + 1)
                        a.put('sub', b)
                        q.q[BROADCAST].append((BROADCAST, t, a))
                    do(f, ['call 0 bct %s i:%d' % (arg(t), y)], 'broadcast of a table modified later')
                elif x < .85:
                    y = rng.randint(0, 99)
                    do(lambda q, y=y: q.q[BROADCAST].append((BROADCAST, 'to%d' % y, 'va%d' % y)), ['call 0 bcd i:%d' % y], 'broadcast of computed strings %d' % y)
                else:
                    y = rng.choice([1, 5, 40])
                    do(lambda q, t=t, y=y: q.q[BROADCAST].extend((BROADCAST, t, z) for z in range(y)), ['call 0 many %s i:%d' % (arg(t), y)], '%d broadcasts' % y)
        do(lambda q: tk(q, -1), ['out 0', 'stat 0'], 'the host takes everything')
        do(lambda q: [None], ['peek 0'], 'the host looks at the empty queue')
        out.append(Case(cmds, {'p.bzz': PROG}, oracle, key=cmds, info=(me, ops)))
    return out


STAGES = [Stage('histories', gen, 100, 4000, per=30)]
