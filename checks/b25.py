"""B25: robots in one process do not influence each other except through delivered messages."""
import os, re
from gen import make
from run import Direct
from swarmgen import Ctl, drive
from util import *

RULE = ('Swarms of robots with one or two different scripts run interleaved in one process (other robots created, failing and destroyed in between); then each robot is executed alone in a process of its own, optimised instead of instrumented, with exactly the inputs '
        'it received (neighbours, calls, delivered messages): every trace, return value, sent message, error and final global must be the same. Non-trivial: at least one message was delivered and one value traced.')
ASSUMPTIONS = ['values that show addresses are not traced', 'the scripts set the seed of their random numbers, which the clock gives otherwise']

MORE = '''
function rnd(k) { return {.a = math.rng.uniform(k), .b = math.rng.gaussian(1.0), .c = math.rng.exponential(2.0)} }
math.rng.setseed(id + 3)
function rnds(n) { var i = 0 var a = 0 while(i < n) { a = a * 3 + math.rng.uniform(1000) i = i + 1 } return {.a = a, .b = math.rng.uniform(0.0, 1.0)} }
function seed(k) { math.rng.setseed(k) return k }
function boom(x) { trace("boom", x) return x + nil }
function files(x) { f = io.fopen("nothere", "r") return {.e = io.errno, .m = io.error_message} }
function strs(x) { var t = {} var i = 0
 while(i < x) { t[string.concat("k", string.tostring(i * id))] = i i = i + 1 }
 var o = "" foreach(t, function(k, v) { o = k }) GO = {} foreach(t, function(k, v) { GO[size(GO)] = k }) return GO }
function swid(k) { var s = swarm.create(k) s.join() return {.i = s.id(), .n = s.in()} }
'''


def extra(rng, dead):
    def fn(rng, s, v):
        c = []
        x = rng.random()
        if x < .2:
            c.append('call %d rnd i:%d' % (v, rng.randint(1, 100)))
            if rng.random() < .4:
                c.append('call %d rnds i:%d' % (v, rng.choice([10, rng.randint(300, 900), rng.randint(590, 640)])))
        elif x < .27:
            c.append('call %d seed i:%d' % (v, rng.randint(0, 5)))
        elif x < .35:
            c.append('call %d strs i:%d' % (v, rng.choice([1, 5, 30])))
        elif x < .4:
            c.append('call %d swid i:%d' % (v, rng.randint(2, 9)))
        elif x < .44:
            c.append('call %d files i:0' % v)
        elif x < .46:
            c.append('call %d boom i:%d' % (v, s))
        elif x < .5:
            c.append('gcnow %d' % v)
        return c
    return fn


def robot_of(c):
    """The robots a command acts on."""
    f = c.split()
    if f[0] == 'net':
        return None
    return int(f[1]) if f[0] in ('new', 'run', 'call', 'procin', 'procout', 'neigh', 'fetch', 'undelay', 'gcnow', 'globals', 'destroy', 'state') else -1


def segments(out):
    seg, cur = {}, None
    for l in out.split('\n'):
        if l.startswith('# m'):
            cur = int(l[3:])
            seg[cur] = []
        elif cur is not None and l and not l.startswith('== '):
            seg[cur].append(l)
    return seg


def stage(rng, ctx):
    r = dict(evaluations=0, keys=[], violations=[], notes={'robots compared': 0, 'events compared': 0, 'messages delivered': 0}, samples=[])
    w = lambda n: os.path.join(ctx.work, n)
    for _ in range(2):
        k = rng.randint(2, 4)
        nprog = rng.choice([1, 2])
        ctl = [Ctl(rng) for _ in range(nprog)]
        files = {'p%d.bzz' % i: ctl[i].text() + MORE for i in range(nprog)}
        for n, t in files.items():
            open(w(n), 'wb').write(t.encode('latin-1'))
        ids = rng.sample([0, 1, 2, 3, 7, 40, 65535], k)
        ids = ids if rng.random() < .8 else [ids[0]] + ids[1:]
        prog = [rng.randrange(nprog) for _ in range(k)]
        net = rng.choice([(0, 0, 0, 0), (20, 20, 20, 1), (0, 0, 0, 1)])
        cmds = drive(rng, k, min(c.nact for c in ctl), rng.choice([4, 10, 20]), *net, extra=extra(rng, None), ids=ids)
        cmds = [re.sub(r'^(new (\d+) \d+) 0$', lambda m: '%s %d' % (m.group(1), prog[int(m.group(2))]), c) for c in cmds]
        # another robot that comes and goes
        other = 'new 9 %d %d' % (rng.choice([0, 50000]), rng.randrange(nprog))
        alive = False
        full = []
        for c in cmds:
            full.append(c)
            if rng.random() < .05:
                if alive:
                    full.append(rng.choice(['destroy 9', 'call 9 rnd i:5', 'call 9 rnds i:%d' % rng.choice([1, 300, 610]), 'call 9 boom i:1', 'call 9 seed i:3', 'gcnow 9', 'call 9 step i:0 i:1']))
                    alive = full[-1] != 'destroy 9'
                else:
                    full += [other, 'run 9 400000']
                    alive = True
        full += ['globals %d' % v for v in range(k)] + ['state %d' % v for v in range(k)]
        mode = rng.choice([0, 0, 1])
        pre = ['case x', 'gcmode %d' % mode] + ['compile %d %s' % (i, w('p%d.bzz' % i)) for i in range(nprog)]
        text = '\n'.join(pre + [x for i, c in enumerate(full) for x in ('echo m%d' % i, c)]) + '\n'
        rc, so, se = ctx.tool(['vh', ctx.work], input=text.encode(), timeout=120)
        r['evaluations'] += 1
        r['keys'].append(text)
        rep = dict(files=dict(files, **{'all.txt': text.replace(ctx.work + '/', '')}), replay='$D/vh . < all.txt')
        if rc != 0:
            if rc == 'timeout':
                continue
            r['violations'].append(dict(rep, msg='the swarm crashed (%r): %s' % (rc, se[-1500:])))
            return r
        if re.search(r'^C \d 0', so.decode('latin-1'), re.M):
            r['violations'].append(dict(rep, msg='the script is refused: %s' % se[-500:]))
            return r
        seg = segments(so.decode('latin-1'))
        traced = 0
        for v in range(k):
            mine, want = [], []
            for i, c in enumerate(full):
                o = robot_of(c)
                for l in seg.get(i, []):
                    f = l.split(' ')
                    if f[0] == 'X' and int(f[2]) == v:
                        mine.append(('in %d %d %s' % (v, ids[int(f[1])], f[3]), None))
                        r['notes']['messages delivered'] += 1
                if o == v and not c.startswith('undelay'):
                    mine.append((c, [l for l in seg.get(i, []) if not l.startswith('X ')]))
            t1 = '\n'.join(pre + [x for j, (c, _) in enumerate(mine) for x in ('echo m%d' % j, c)]) + '\n'
            rc, so1, se = ctx.tool(['vh', ctx.work], input=t1.encode(), timeout=120, flavour='plain')
            if rc == 'timeout':
                continue
            rep['files']['alone.txt'] = t1.replace(ctx.work + '/', '')
            rep['replay'] = '$D/vh . < all.txt > a.out; $D/vh . < alone.txt > b.out; echo compare a.out and b.out'
            if rc != 0:
                r['violations'].append(dict(rep, msg='robot %d alone crashed (%r): %s' % (ids[v], rc, se[-1500:])))
                return r
            s1 = segments(so1.decode('latin-1'))
            r['notes']['robots compared'] += 1
            for j, (c, ev) in enumerate(mine):
                if ev is None:
                    continue
                got = s1.get(j, [])
                r['notes']['events compared'] += len(ev)
                traced += sum(l.startswith('T ') for l in ev)
                if got != ev:
                    d = next(((a, b) for a, b in zip(ev + [None], got + [None]) if a != b), (ev, got))
                    r['violations'].append(dict(rep, msg='robot %d, command %d (%s): %s in the swarm, %s alone with the same inputs' % (ids[v], j, c, str(d[0])[:700], str(d[1])[:700])))
                    return r
        if not traced:
            r['notes']['without traces'] = r['notes'].get('without traces', 0) + 1
    r['samples'] = [dict(robots=ids, commands=len(full))]
    return r


STAGES = [Direct('swarms', stage, 150, 4000)]
FLAVOURS = ('asan', 'plain')
