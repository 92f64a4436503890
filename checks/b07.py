"""B07: virtual stigmergies converge."""
import lang
from run import Case, Stage, Skip, parse
from util import *

RULE = ('Swarms of 2-5 robots over random connected topologies write and read the keys of shared stigmergies while the network loses, '
        'duplicates, delays and reorders messages and the host sends only part of the queue; then the network becomes reliable and the robots keep reading. '
        'Offline checker over the log of all local entries (value, timestamp, author): after the quiet phase all robots agree on every '
        'key; the agreed entry is the one that wins among all the writes ever made (newest timestamp, ties by the conflict rule in force); entries never go back '
        'in that order on any robot; a robot reads its own writes; a robot that reads alone learns what its neighbours know. Non-trivial: at least two robots wrote the same key.')
ASSUMPTIONS = ['conflict handlers are the default one or choose deterministically between the two entries',
               'the robots stay connected in the final phase and read every key in every step of it']

PROG = '''
function setup(h) {
 vs = stigmergy.create(%d)
 if(h == 1) { vs.onconflict(function(k, l, r) {
   if(l.data > r.data) { return l }
   if(r.data > l.data) { return r }
   if(l.robot > r.robot) { return l }
   return r }) }
 if(h == 2) { vs.onconflict(function(k, l, r) { if(l.robot < r.robot) { return l } else { return r } }) }
}
function put(k, v) { vs.put(k, v) trace("put", k, v) }
function get(k) { trace("get", k, vs.get(k)) }
function nop(x) { return 1 }
'''


def gen_with(maxrobots, longer):
    def gen(rng, n):
        out = []
        for _ in range(n):
            k = rng.randint(2, maxrobots)
            ids = rng.sample([0, 1, 2, 3, 9, 100, 255, 256, 40000, 65535], k)
            h = rng.choice([0, 0, 0, 1, 2])
            # a random connected graph
            edges = set()
            for a in range(1, k):
                edges.add((a, rng.randrange(a)))
            for a in range(k):
                for b in range(a):
                    if rng.random() < .3:
                        edges.add((a, b))
            edges = sorted(edges | {(b, a) for a, b in edges})
            keys = [rng.choice(['a', 'b', 3, F(2.5), '5', 5, -1, '']) for _ in range(rng.randint(1, 4))]
            keys = list({Table.canon(x): x for x in keys}.values())
            vid = rng.choice([1, 7, 300])
            cmds = ['compile 0 @p.bzz', 'gcmode %d' % rng.choice([0, 0, 0, 1]), 'netreset']
            for v in range(k):
                cmds += ['new %d %d 0' % (v, ids[v]), 'run %d' % v, 'call %d setup i:%d' % (v, h)]
            cnt = 0
            loss, dup, dly = rng.choice([0, 20, 60]), rng.choice([0, 20]), rng.choice([0, 20, 50])
            writes = 0
            for s in range(rng.randint(2, 8) * (2 if longer else 1)):
                for v in rng.sample(range(k), k):
                    cmds.append('procin %d' % v)
                    for _ in range(rng.choice([0, 0, 1, 1, 2])):
                        key = rng.choice(keys)
                        if rng.random() < .7:
                            cnt += 1
                            writes += 1
                            # values are unique, so that entries can be told apart
                            val = None if h != 1 and rng.random() < .12 else rng.choice([cnt, F(cnt + .5), 'v%d' % cnt]) if h != 1 else rng.choice([cnt // 2, cnt])
                            cmds += ['call %d put %s %s' % (v, arg(key), arg(val)), 'vst %d %d' % (v, vid)]
                        else:
                            cmds.append('call %d get %s' % (v, arg(key)))
                    cmds += ['procout %d' % v, 'fetch %d %s' % (v, rng.choice(['', '', '1', '2', '0'])), 'vst %d %d' % (v, vid)]
                    for a, b in edges:
                        if a == v:
                            cmds.append('net %d %d %d %d %d %d %d' % (a, b, rng.getrandbits(30), loss, dup, dly, rng.randint(0, 1)))
                if rng.random() < .4:
                    cmds += ['undelay %d %d' % (v, rng.getrandbits(30)) for v in range(k)]
            # quiet phase: everything still delayed arrives, then reliable steps
            cmds += ['undelay %d %d' % (v, rng.getrandbits(30)) for v in range(k)]
            if rng.random() < .5:
                # only one robot reads: it learns at least what its neighbours know
                r = rng.randrange(k)
                cmds += ['vst %d %d' % (v, vid) for v in range(k)]
                cmds.append('echo reader:%d:%s' % (r, ','.join(str(b) for a, b in edges if a == r)))
                for s in range(k + 5):
                    for v in range(k):
                        cmds.append('procin %d' % v)
                        if v == r:
                            cmds += ['call %d get %s' % (v, arg(x)) for x in keys]
                        cmds += ['procout %d' % v, 'fetch %d' % v]
                    for a, b in edges:
                        cmds.append('net %d %d %d 0 0 0 %d' % (a, b, rng.getrandbits(30), rng.randint(0, 1)))
                cmds += ['procin %d' % r, 'echo read', 'vst %d %d' % (r, vid)]
            cmds.append('echo quiet')
            for s in range(2 * k + 3):
                for v in range(k):
                    cmds.append('procin %d' % v)
                    cmds += ['call %d get %s' % (v, arg(x)) for x in keys]
                    cmds += ['procout %d' % v, 'fetch %d' % v]
                for a, b in edges:
                    cmds.append('net %d %d %d 0 %d 0 %d' % (a, b, rng.getrandbits(30), dup, rng.randint(0, 1)))
            cmds.append('echo final')
            for v in range(k):
                cmds += ['vst %d %d' % (v, vid)] + ['call %d get %s' % (v, arg(x)) for x in keys]
            c = Case(cmds, {'p.bzz': PROG % vid}, oracle, info=(k, ids, h, keys), timeout=30)
            out.append(c)
        return out
    return gen


def okey(j):
    k = lang.norm(j)
    return ('s', k) if isinstance(k, str) else ('n', float(k if isinstance(k, int) else k[1]))


def cmpval(a, b):
    x, y = (v if isinstance(v, int) else v[1] for v in (a, b))
    return (x > y) - (x < y)


def newer(h, a, b):
    """a strictly wins over b; entries are (value, ts, robot)."""
    if a[1] != b[1]:
        return a[1] > b[1]
    if h == 1:
        c = cmpval(a[0], b[0])
        if c:
            return c > 0
        return a[2] > b[2]
    if h == 2:
        return a[2] < b[2]
    if (a[0] is None) != (b[0] is None):
        return b[0] is None
    return a[2] > b[2]


def oracle(ev, c):
    k, ids, h, keys = c.info
    state = [dict() for _ in range(k)]
    writes = {}
    pend = None
    final = [None] * k
    mode = 'run'
    authors = {}
    reader, known = None, {}
    fget = [dict() for _ in range(k)]
    for l in ev:
        t = parse([l])[0]
        if t[0] in ('R', 'P', 'K') and t[2]['state'] not in ('ready', 'done'):
            return 'error: %r' % (t[2],)
        if t[0] == '#':
            mode, *a = t[1].split(':')
            if mode == 'reader':
                reader = int(a[0])
                known = {}
                for b in map(int, a[1].split(',')):
                    for kk, e in state[b].items():
                        if kk not in known or newer(h, e, known[kk]):
                            known[kk] = e
        elif t[0] == 'T':
            if t[2][0] == 'put':
                pend = (t[1], okey(t[2][1]), lang.norm(t[2][2]))
            elif mode == 'final':
                fget[t[1]][okey(t[2][1])] = lang.norm(t[2][2])
            elif t[2][0] == 'get' and mode == 'run':
                pass
        elif t[0] == 'V':
            v = t[1]
            cur = {okey(x[0]): (lang.norm(x[1]), x[2], x[3]) for x in t[2]}
            if len(cur) != len(t[2]):
                return 'robot %d has two entries for one key: %r' % (ids[v], t[2])
            c.note('entries observed', len(cur))
            for kk, e in cur.items():
                old = state[v].get(kk)
                if old and newer(h, old, e):
                    return 'on robot %d the entry of %r went back from %r to %r (value, timestamp, author)' % (ids[v], kk, old, e)
            for kk in state[v]:
                if kk not in cur:
                    return 'on robot %d the entry of %r disappeared' % (ids[v], kk)
            if pend and pend[0] == v:
                _, kk, val = pend
                pend = None
                if kk in cur:
                    e = cur[kk]
                    if e[0] != val or e[2] != ids[v]:
                        return 'robot %d wrote %r under %r and has %r' % (ids[v], val, kk, e)
                    old = state[v].get(kk)
                    if old and e[1] <= old[1]:
                        return 'robot %d wrote %r under %r: the timestamp went from %d to %d' % (ids[v], val, kk, old[1], e[1])
                    writes.setdefault(kk, []).append(e)
                    authors.setdefault(kk, set()).add(ids[v])
                elif val is not None:
                    return 'robot %d wrote %r under %r and has no entry' % (ids[v], val, kk)
            if mode == 'read' and v == reader:
                for kk, e in known.items():
                    c.note('entries learnt by the only reader')
                    if kk not in cur and e[0] is not None or kk in cur and newer(h, e, cur[kk]):
                        return 'robot %d kept reading %r over a reliable network and has %r; a neighbour had %r' % (ids[v], kk, cur.get(kk), e)
            state[v] = cur
            if mode == 'final':
                final[v] = cur
    c.note('writes', sum(map(len, writes.values())))
    c.nontrivial = any(len(a) > 1 for a in authors.values())
    for kk, ws in writes.items():
        best = ws[0]
        for e in ws[1:]:
            if newer(h, e, best):
                best = e
        if sum(e[1] == best[1] and e[2] != best[2] for e in ws):
            c.note('concurrent writes resolved')
        for v in range(k):
            e = final[v].get(kk)
            if e != best and not (e is None and best[0] is None):
                return 'after the quiet phase robot %d has %r under %r; the winning write is %r (all writes: %r)' % (ids[v], e, kk, best, ws)
            if fget[v].get(kk) != best[0]:
                return 'robot %d reads %r under %r; its entry is %r' % (ids[v], fget[v].get(kk), kk, e)
    for v in range(k):
        for kk in final[v]:
            if kk not in writes:
                return 'robot %d has an entry for %r, which nobody wrote' % (ids[v], kk)
    return None


STAGES = [Stage('convergence', gen_with(4, False), 120, 3000, per=20),
          Stage('long histories', gen_with(5, True), 40, 800, per=10)]
