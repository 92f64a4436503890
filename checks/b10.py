"""B10: every robot learns which swarms its neighbours belong to."""
import re
import lang
from run import Case, Stage, Skip, parse
from util import *

RULE = ('(a) Swarms of 2-4 robots join and leave swarms while membership messages are lost, duplicated and delayed; after a reliable phase of one '
        'announcement period, neighbors.kin()/nonkin() inside exec on every robot must be exactly the neighbours that are (are not) members. With a '
        'reliable network the views must be right one exchange after every change. (b) One robot receives random membership messages '
        'over hundreds of steps; its kin/nonkin views, including the forgetting of silent robots, are compared with a reference model at '
        'every query. Also with up to 700 swarms and with ids up to 65000. Non-trivial: some view contained both members and non-members.')
ASSUMPTIONS = ['a robot forgets memberships not refreshed for more than 50 processing steps; the check leaves the exact step open by 1',
               'the announcement period is at most 12 steps']

PROG = '''
S = {}
IDS = {%s}
function init() { foreach(IDS, function(k, i) { S[i] = swarm.create(i) A[i] = swarm.create(i + 1000) A[i].join() }) }
A = {}
function names(n) { return n.reduce(function(rid, d, acc) { acc[rid] = d.distance return acc }, {}) }
function view(i) {
 var me = S[i].in()
 if(me == 0) { trace("out", i) }
 S[i].exec(function() { trace("view", i, names(neighbors.kin()), names(neighbors.nonkin())) })
}
function nested(o, i) {
 S[o].exec(function() {
  S[i].exec(function() { trace("view", i, names(neighbors.kin()), names(neighbors.nonkin())) })
  trace("view", o, names(neighbors.kin()), names(neighbors.nonkin()))
 })
}
function join(i) { S[i].join() }
function leave(i) { S[i].leave() }
function select(i, v) { S[i].select(v) }
function all(x) { trace("all", names(neighbors.kin()), names(neighbors.nonkin()), neighbors.count()) }
function nop(x) { return 1 }
'''


def prog(ids):
    return PROG.replace('A[i] = swarm.create(i + 1000) A[i].join() ', '') % ', '.join('.%d = %d' % (k, i) for k, i in enumerate(ids))


def nb(v, ids, k, near):
    return ['neigh %d' % v] + ['neigh %d %d %d 0 0' % (v, ids[o], o + 1) for o in near]


def swarm_oracle(ev, c):
    ids, k = c.info[0], c.info[1]
    seen, pos = 0, 0
    e = parse(ev)
    for t in e:
        if t[0] in ('R', 'P', 'K') and t[2]['state'] not in ('ready', 'done'):
            return 'error: %r' % (t[2],)
    got = [t for t in e if t[0] == 'T']
    for (v, sw, member, kin, non), t in zip(c.info[2], got):
        if t[1] != v:
            return 'events out of step'
        if not member:
            if t[2] != ['out', sw]:
                return 'robot %d is not in swarm %d but executed %r' % (ids[v], sw, t[2])
            continue
        if t[2][0] != 'view':
            return 'robot %d is in swarm %d but did not execute' % (ids[v], sw)
        a = {x[0]: x[1] for x in t[2][2]['t']}
        b = {x[0]: x[1] for x in t[2][3]['t']}
        if set(a) != set(kin) or set(b) != set(non):
            return 'robot %d in swarm %d: kin %r, nonkin %r; expected kin %r, nonkin %r' % (ids[v], sw, sorted(a), sorted(b), sorted(kin), sorted(non))
        seen += 1
        if a and b:
            c.note('mixed views')
    if len(got) != len(c.info[2]):
        return 'observed %d views, expected %d' % (len(got), len(c.info[2]))
    c.note('views', seen)
    return None


def gen_swarm(rng, n):
    out = []
    for _ in range(n):
        k = rng.randint(2, 4)
        ids = rng.sample([0, 1, 2, 3, 8, 300, 65535], k)
        sws = rng.sample([0, 1, 2, 9, 300], rng.randint(1, 3))
        cmds = ['compile 0 @p.bzz', 'gcmode %d' % rng.choice([0, 0, 0, 1]), 'netreset']
        for v in range(k):
            cmds += ['new %d %d 0' % (v, ids[v]), 'run %d' % v, 'call %d init' % v]
        mem = [dict((s, 0) for s in sws) for _ in range(k)]
        want = []
        rel = rng.random() < .4
        loss, dup, dly = (0, 0, 0) if rel else (rng.choice([20, 60]), 20, rng.choice([0, 30]))

        def exchange(loss, dup, dly, part, known):
            for v in range(k):
                cmds.extend(['procout %d' % v, 'fetch %d %s' % (v, part())])
            for a in range(k):
                for b in range(k):
                    if a != b:
                        cmds.append('net %d %d %d %d %d %d %d' % (a, b, rng.getrandbits(30), loss, dup, dly, 0))
            for v in range(k):
                cmds.append('procin %d' % v)

        def views():
            for v in range(k):
                near = [o for o in range(k) if o != v and rng.random() < .8]
                cmds.extend(nb(v, ids, k, near))
                for s in rng.sample(sws, rng.randint(1, len(sws))):
                    cmds.append('call %d view i:%d' % (v, s))
                    want.append((v, s, mem[v][s], [ids[o] for o in near if mem[o][s]], [ids[o] for o in near if not mem[o][s]]))

        for ph in range(rng.randint(1, 3)):
            for s in range(rng.randint(1, 12)):
                for v in range(k):
                    for _ in range(rng.choice([0, 1, 1, 3])):
                        i = rng.choice(sws)
                        x = rng.random()
                        if x < .45:
                            cmds.append('call %d join i:%d' % (v, i))
                            mem[v][i] = 1
                        elif x < .75:
                            cmds.append('call %d leave i:%d' % (v, i))
                            mem[v][i] = 0
                        else:
                            b = rng.choice([0, 1, 256])
                            cmds.append('call %d select i:%d i:%d' % (v, i, b))
                            mem[v][i] = int(b != 0)
                exchange(loss, dup, dly, (lambda: '') if rel else (lambda: rng.choice(['', '', '1', '0'])), None)
                if rel:
                    views()
                elif rng.random() < .3:
                    for v in range(k):
                        cmds.append('undelay %d %d' % (v, rng.getrandbits(30)))
            # delayed messages arrive, then a reliable period
            for v in range(k):
                cmds += ['undelay %d %d' % (v, rng.getrandbits(30)), 'procin %d' % v]
            for s in range(13):
                exchange(0, 0, 0, lambda: '', None)
            views()
        out.append(Case(cmds, {'p.bzz': prog(sws)}, swarm_oracle, info=(ids, k, want)))
    return out


# ------------------------------------------------------------ one robot

def one_oracle(ev, c):
    e = parse(ev)
    for t in e:
        if t[0] in ('R', 'P', 'K') and t[2]['state'] not in ('ready', 'done'):
            return 'error: %r' % (t[2],)
    tables = [t[2]['members'] for t in e if t[0] == 'Q']
    if len(tables) != len(c.info[1]):
        return 'observed %d membership tables, expected %d' % (len(tables), len(c.info[1]))
    for txt, (want, maybe) in zip(tables, c.info[1]):
        m = re.fullmatch(r'ROBOT 77: swarm member table size: (\d+)\n((?: *77:\d+:[\d ]*\n)*)', txt)
        if not m:
            return 'the membership table is printed as %r' % txt
        rows = [l.strip().split(':') for l in m.group(2).splitlines()]
        tab = {int(r[1]): sorted(map(int, r[2].split())) for r in rows}
        if int(m.group(1)) != len(rows) or len(tab) != len(rows):
            return 'the membership table says it has %s rows: %r' % (m.group(1), rows)
        for r in set(tab) | set(want):
            if r not in maybe and tab.get(r, []) != sorted(want.get(r, [])):
                return 'robot %d: swarms %r in the membership table, expected %r' % (r, tab.get(r), want.get(r))
        c.note('membership tables')
    got = [t for t in e if t[0] == 'T']
    if len(got) != len(c.info[0]):
        return 'observed %d views, expected %d' % (len(got), len(c.info[0]))
    for (sw, kin, non, maybe), t in zip(c.info[0], got):
        if sw is None:
            a = {x[0] for x in t[2][1]['t']}
            b = {x[0] for x in t[2][2]['t']}
            if a != kin or b or t[2][3] != len(kin):
                return 'outside any swarm: kin %r, nonkin %r, count %r; the neighbours are %r' % (a, b, t[2][3], kin)
            continue
        a = {x[0] for x in t[2][2]['t']}
        b = {x[0] for x in t[2][3]['t']}
        if a - maybe != kin - maybe or b - maybe != non - maybe or (a | b) != (kin | non) or a & b:
            return 'swarm %d: kin %r, nonkin %r; expected %r, %r (open: %r)' % (sw, a, b, kin, non, maybe)
        c.note('views')
        if a and b:
            c.note('mixed views')
    return None


def gen_one(rng, n):
    out = []
    for _ in range(n):
        sws = rng.sample([0, 1, 2, 9, 300, 65535], 3)
        robots = rng.sample([1, 2, 3, 4, 500, 65535], rng.randint(1, 5))
        cmds = ['compile 0 @p.bzz', 'new 0 77 0', 'run 0', 'call 0 init'] + ['call 0 join i:%d' % s for s in sws]
        know = {}       # robot -> [set, age]
        want, tabs = [], []
        for s in range(rng.choice([5, 20, 130])):
            idle = rng.random() < .1
            rounds = rng.choice([1, 45, 48, 49, 50, 51, 52, 60]) if idle else 1
            if not idle:
                for _ in range(rng.randint(0, 4)):
                    r = rng.choice(robots)
                    x = rng.random()
                    i = rng.choice(sws)
                    if x < .4:
                        cmds.append('in 0 %d %s' % (r, w_join(i)))
                        know.setdefault(r, [set(), 0])[0].add(i)
                        know[r][1] = 0
                    elif x < .65:
                        cmds.append('in 0 %d %s' % (r, w_leave(i)))
                        if r in know:
                            know[r][0].discard(i)
                            know[r][1] = 0
                            if not know[r][0]:
                                del know[r]
                    elif x < .8:
                        l = [rng.choice(sws) for _ in range(rng.randint(0, 3))]
                        l = sorted(set(l)) if rng.random() < .9 else sorted(set(l))
                        cmds.append('in 0 %d %s' % (r, w_list(l)))
                        know[r] = [set(l), 0]
                    elif x < .9:
                        cmds.append('in 0 %d %s' % (r, w_bcast('zz', 1)))
            # messages of one robot keep their order; those of different robots are independent
            for _ in range(rounds):
                cmds.append('procin 0')
                for r in list(know):
                    know[r][1] += 1
            near = [r for r in robots if rng.random() < .8]
            cmds += ['neigh 0'] + ['neigh 0 %d 1 0 0' % r for r in near]
            for i in sws:
                if rng.random() < .5:
                    cmds.append('call 0 view i:%d' % i)
                    kin = {r for r in near if r in know and i in know[r][0] and know[r][1] <= 50}
                    maybe = {r for r in near if r in know and know[r][1] in (50, 51)}
                    want.append((i, kin, set(near) - kin, maybe))
            if rng.random() < .4:
                o, i = rng.choice(sws), rng.choice(sws)
                cmds.append('call 0 nested i:%d i:%d' % (o, i))
                for j in (i, o):
                    kin = {r for r in near if r in know and j in know[r][0] and know[r][1] <= 50}
                    maybe = {r for r in near if r in know and know[r][1] in (50, 51)}
                    want.append((j, kin, set(near) - kin, maybe))
            if rng.random() < .3:
                cmds.append('memb 0')
                tabs.append(({r: set(know[r][0]) for r in know if know[r][1] <= 50}, {r for r in know if know[r][1] in (50, 51)}))
            if rng.random() < .2:
                cmds.append('call 0 all i:1')
                want.append((None, set(near), set(), set()))
            for r in list(know):
                if know[r][1] > 51:
                    del know[r]
            # after the open steps, be definite: what was open is refreshed or gone
            for r in list(know):
                if know[r][1] in (50, 51):
                    cmds += ['procin 0', 'procin 0']
                    for q in list(know):
                        know[q][1] += 2
                    for q in list(know):
                        if know[q][1] > 50:
                            del know[q]
                    break
        out.append(Case(cmds, {'p.bzz': prog(sws)}, one_oracle, info=(want, tabs)))
    return out


# ------------------------------------------------------------ a robot in very many swarms

MANY = '''
S = {}
function join(a, b) { var i = a while(i < b) { if(S[i] == nil) { S[i] = swarm.create(i) } S[i].join() i = i + 1 } return 1 }
function leave(a, b) { var i = a while(i < b) { if(S[i] != nil) { S[i].leave() } i = i + 1 } return 1 }
function nop(x) { return 1 }
'''


def many_oracle(ev, c):
    e = parse(ev)
    for t in e:
        if t[0] in ('R', 'P', 'K') and t[2]['state'] not in ('ready', 'done'):
            return 'error: %r' % (t[2],)
    tabs = [t[2]['members'] for t in e if t[0] == 'Q']
    if len(tabs) != len(c.info):
        return '%d membership tables instead of %d' % (len(tabs), len(c.info))
    for txt, want in zip(tabs, c.info):
        rows = [l.strip().split(':') for l in txt.splitlines()[1:]]
        got = sorted(map(int, rows[0][2].split())) if rows else []
        if len(rows) > 1 or rows and rows[0][:2] != ['6', '5'] or got != sorted(want):
            miss, more = set(want) - set(got), set(got) - set(want)
            return 'a robot is in %d swarms, its neighbour knows of %d (missing %r, wrong %r, repeated %d)' % (len(want), len(got), sorted(miss)[:9], sorted(more)[:9], len(got) - len(set(got)))
        c.note('memberships learnt', len(want))
    return None


def gen_many(rng, n):
    out = []
    for _ in range(n):
        k = rng.choice([20, 200, 257, 300, 700])
        lo = rng.choice([0, 1, 65000 - k])
        cmds = ['compile 0 @p.bzz', 'gcmode 0', 'netreset', 'new 0 5 0', 'run 0', 'new 1 6 0', 'run 1', 'call 1 nop i:1', 'call 0 join i:%d i:%d' % (lo, lo + k)]
        mem = set(range(lo, lo + k))
        want = []
        for _ in range(rng.randint(1, 3)):
            # changes while the announcement of all swarms waits to be sent
            lost = rng.random() < .5
            if lost:
                cmds += ['procout 0', 'fetch 0']    # these messages are lost
            cmds += ['procout 0'] * rng.randint(10, 12)
            for _ in range(rng.randint(0, 3)):
                a = rng.randint(lo, lo + k - 1)
                b = rng.choice([a + 1, a + 1, a + 5, lo + k])
                if rng.random() < .6:
                    cmds.append('call 0 leave i:%d i:%d' % (a, b))
                    mem -= set(range(a, b))
                else:
                    a += rng.choice([0, k // 2])
                    b = a + rng.choice([1, 3, 30])
                    cmds.append('call 0 join i:%d i:%d' % (a, b))
                    mem |= set(range(a, b))
            cmds += ['fetch 0', 'net 0 1 1 0 0 0 0', 'call 1 nop i:1', 'procin 1', 'memb 1']
            want.append(set(mem))
        out.append(Case(cmds, {'p.bzz': MANY}, many_oracle, info=want, timeout=60))
    return out


STAGES = [Stage('many swarms', gen_many, 10, 200, per=4), Stage('swarms', gen_swarm, 50, 2500, per=20), Stage('one robot', gen_one, 40, 1500, per=20)]
