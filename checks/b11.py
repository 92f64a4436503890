"""B11: broadcasts reach exactly the listeners, once per delivery, in order, with the right sender."""
import lang
from run import Case, Stage, Skip, parse
from util import *

RULE = ('Swarms of 2-4 robots broadcast uniquely numbered values on several topics, start, replace and stop listening at random steps; the host sends any part of '
        'the queue and the network loses, duplicates, delays and reorders. Offline checker over the log of sends, deliveries and callbacks: each robot hears exactly '
        'the delivered broadcasts whose topic it listens to when they are processed, once per delivery, with the topic, value and id of the sender, in '
        'delivery order per sender, by the listener registered last; what leaves a robot is what was broadcast, in order. Non-trivial: at least 5 broadcasts heard and 1 not heard for lack of a listener.')

PROG = '''
function listen(t, tag) { neighbors.listen(t, function(topic, v, rid) { trace("heard", tag, topic, v, rid) %s}) }
function ignore(t) { neighbors.ignore(t) }
function send(t, v) { neighbors.broadcast(t, v) }
function sendt(t, v) { neighbors.broadcast(t, {.n = v, .l = {.x = t}}) }
function once(t) { neighbors.listen(t, function(topic, v, rid) { trace("once", topic, v, rid) neighbors.ignore(topic) }) }
function swap(t, u) { neighbors.listen(t, function(topic, v, rid) { trace("swap", topic, v, rid) neighbors.listen(topic, function(a, b, c) { trace("swapped", a, b, c) }) }) }
function pair(t, u) { neighbors.listen(t, function(topic, v, rid) { trace("pair", topic, v, rid) neighbors.broadcast(u, v) }) }
function nop(x) { return 1 }
'''


def gen(rng, n):
    out = []
    for _ in range(n):
        k = rng.randint(2, 4)
        ids = rng.sample([0, 1, 2, 3, 8, 300, 65535], k)
        topics = rng.sample(['a', 'b', 'topic', 'a ', 'A', '', 'aa', '1'], rng.randint(1, 4))
        cmds = ['compile 0 @p.bzz', 'gcmode %d' % rng.choice([0, 0, 1]), 'netreset']
        for v in range(k):
            cmds += ['new %d %d 0' % (v, ids[v]), 'run %d' % v, 'call %d nop i:1' % v]
        loss, dup, dly = rng.choice([(0, 0, 0), (20, 20, 20), (50, 0, 0), (0, 30, 30)])
        shuf = rng.randint(0, 1)
        cnt = 0
        log = []    # what the model must replay: (op...)
        for s in range(rng.randint(3, 12)):
            for v in rng.sample(range(k), k):
                if rng.random() < .85:
                    cmds.append('procin %d' % v)
                for _ in range(rng.choice([0, 1, 2, 3])):
                    x = rng.random()
                    t = rng.choice(topics)
                    if x < .22:
                        cnt += 1
                        cmds += ['echo listen,%d,%s,%d' % (v, hx(t), cnt), 'call %d listen %s i:%d' % (v, arg(t), cnt)]
                    elif x < .3:
                        cmds += ['echo ignore,%d,%s' % (v, hx(t)), 'call %d ignore %s' % (v, arg(t))]
                    else:
                        cnt += 1
                        tab = rng.random() < .3
                        cmds += ['echo send,%d,%s,%d,%d' % (v, hx(t), cnt, tab), 'call %d %s %s i:%d' % (v, 'sendt' if tab else 'send', arg(t), cnt)]
                cmds += ['procout %d' % v, 'echo fetch,%d' % v, 'fetch %d %s' % (v, rng.choice(['', '', '1', '2', '0']))]
                for o in range(k):
                    if o != v:
                        cmds.append('net %d %d %d %d %d %d %d' % (v, o, rng.getrandbits(30), loss, dup, dly, shuf))
            if rng.random() < .4:
                cmds += ['undelay %d %d' % (v, rng.getrandbits(30)) for v in range(k)]
        cmds += ['stat %d' % v for v in range(k)]
        out.append(Case(cmds, {'p.bzz': PROG % ''}, oracle, info=(k, ids), key=cmds))
    return out


def val(n, tab, t):
    if not tab:
        return n
    a, b = Table(), Table()
    b.put('x', t)
    a.put('n', n)
    a.put('l', b)
    return lang.jv(a)


def oracle(ev, c):
    k, ids = c.info
    queue = [[] for _ in range(k)]                      # broadcasts not yet sent by the host
    inbox = [[[] for _ in range(k)] for _ in range(k)]  # delivered, not processed: receiver, sender
    lis = [dict() for _ in range(k)]
    heard = [[] for _ in range(k)]                      # callbacks since the last procin mark
    unheard = total = 0
    seenid = {}
    for l in ev:
        t = parse([l])[0]
        if t[0] in ('R', 'P', 'K') and t[2]['state'] not in ('ready', 'done'):
            return 'error: %r' % (t[2],)
        if t[0] == 'S' and (t[2]['stack'] or t[2]['stacks'] != 1):
            return 'the processing of messages left values on the stack of robot %d: %r' % (t[1], t[2])
        if t[0] == '#':
            f = t[1].split(',')
            v = int(f[1])
            if f[0] == 'fetch':
                continue
            top = '' if f[2] == '-' else bytes.fromhex(f[2]).decode('latin-1')
            if f[0] == 'listen':
                lis[v][top] = int(f[3])
            elif f[0] == 'ignore':
                lis[v].pop(top, None)
            else:
                queue[v].append((top, val(int(f[3]), f[4] == '1', top)))
        elif t[0] == 'M':
            try:
                m = r_msg(t[2])
            except Bad:
                return 'robot %d sent a malformed message %s' % (ids[t[1]], t[2])
            if m[0] == BROADCAST:
                if not queue[t[1]]:
                    return 'robot %d sent a broadcast that the script did not make: %r' % (ids[t[1]], m)
                w = queue[t[1]].pop(0)
                if (m[1], lang.jv(m[2])) != w:
                    return 'robot %d sent %r, the next broadcast of the script is %r' % (ids[t[1]], (m[1], lang.jv(m[2])), w)
                c.note('sent')
        elif t[0] == 'X':
            m = r_msg(t[3])
            if m[0] == BROADCAST:
                inbox[int(t[2])][int(t[1])].append((m[1], lang.jv(m[2])))
        elif t[0] == 'T':
            if t[2][0] == 'heard':
                heard[t[1]].append((t[2][1], t[2][2], lang.norm(t[2][3]), t[2][4]))
        elif t[0] == 'P':
            v = t[1]
            for o in range(k):
                want = [(lis[v][a], a, b, ids[o]) for a, b in inbox[v][o] if a in lis[v]]
                unheard += len(inbox[v][o]) - len(want)
                got = [h for h in heard[v] if h[3] == ids[o]]
                if got != want:
                    return 'robot %d, broadcasts from robot %d: heard (listener, topic, value, sender) %r, expected %r' % (ids[v], ids[o], got, want)
                total += len(got)
                inbox[v][o] = []
            if len(heard[v]) != sum(h[3] in ids for h in heard[v]) or any(h[3] == ids[v] for h in heard[v]):
                return 'robot %d heard broadcasts from an unknown sender: %r' % (ids[v], heard[v])
            heard[v] = []
        if t[0] == 'K' and any(heard):
            return 'a listener ran outside the processing of messages'
    c.note('heard', total)
    c.note('without listener', unheard)
    c.nontrivial = total >= 5 and unheard >= 1
    return None


# ------------------------------------------------------------ listeners that change listeners

def cb_oracle(ev, c):
    e = parse(ev)
    for t in e:
        if t[0] in ('R', 'P', 'K') and t[2]['state'] not in ('ready', 'done'):
            return 'error: %r' % (t[2],)
        if t[0] == 'S' and (t[2]['stack'] or t[2]['stacks'] != 1):
            return 'the processing of messages left values on the stack of robot %d: %r' % (t[1], t[2])
    got = [t[2] for t in e if t[0] == 'T']
    if got != c.info[0]:
        return 'observed %r, expected %r' % (got, c.info[0])
    ms = [r_msg(t[2]) for t in e if t[0] == 'M']
    if ms != c.info[1]:
        return 'sent %r, expected %r' % (ms, c.info[1])
    c.note('callbacks', len(got))
    return None


def gen_cb(rng, n):
    out = []
    for _ in range(n):
        cmds = ['compile 0 @p.bzz', 'gcmode %d' % rng.choice([0, 1]), 'new 0 5 0', 'run 0', 'call 0 nop i:1']
        tr, ms = [], []
        st = {}
        n = 0
        for _ in range(rng.randint(1, 5)):
            t = rng.choice(['t', 'u', 'w'])
            k = rng.choice(['once', 'swap', 'pair', 'listen', 'ignore'])
            cmds.append('call 0 %s %s%s' % (k, arg(t), '' if k in ('once', 'ignore') else ' s:7a' if k != 'listen' else ' i:9'))
            st[t] = k
            if k == 'ignore':
                del st[t]
            for _ in range(rng.randint(1, 5)):
                n += 1
                t = rng.choice(['t', 'u', 'w', 'zz'])
                cmds.append('in 0 8 ' + w_bcast(t, n))
                k = st.get(t)
                if k == 'once':
                    tr.append(['once', t, n, 8])
                    del st[t]
                elif k == 'swap':
                    tr.append(['swap', t, n, 8])
                    st[t] = 'swapped'
                elif k == 'swapped':
                    tr.append(['swapped', t, n, 8])
                elif k == 'pair':
                    tr.append(['pair', t, n, 8])
                    ms.append((BROADCAST, 'z', n))
                elif k == 'listen':
                    tr.append(['heard', 9, t, n, 8])
            cmds.append('procin 0')
        cmds += ['out 0', 'stat 0']
        out.append(Case(cmds, {'p.bzz': PROG % ''}, cb_oracle, info=(tr, ms)))
    return out


# ------------------------------------------------------------ many messages at once

def burst_oracle(ev, c):
    e = parse(ev)
    for t in e:
        if t[0] in ('R', 'P', 'K') and t[2]['state'] not in ('ready', 'done'):
            return 'error: %r' % (t[2],)
        if t[0] == 'S' and (t[2]['stack'] or t[2]['stacks'] != 1):
            return 'the processing of messages left values on the stack of robot %d: %r' % (t[1], t[2])
    got = {}
    for t in e:
        if t[0] == 'T':
            got.setdefault(t[2][4], []).append((t[2][1], t[2][2], t[2][3]))
    for r, want in c.info[0].items():
        g = got.pop(r, [])
        if g != want:
            k = next((i for i, (x, y) in enumerate(zip(g, want)) if x != y), min(len(g), len(want)))
            return '%d of %d broadcasts from robot %d heard; from number %d on: %r, expected %r' % (len(g), len(want), r, k, g[k:k + 3], want[k:k + 3])
    if got:
        return 'broadcasts from unknown robots heard: %r' % (got,)
    ms = [r_msg(t[2]) for t in e if t[0] == 'M']
    if ms != c.info[1]:
        return '%d messages sent, %d broadcasts made' % (len(ms), len(c.info[1]))
    c.note('heard in bursts', sum(map(len, c.info[0].values())))
    c.note('sent in bursts', len(ms))
    return None


def gen_burst(rng, n):
    out = []
    for _ in range(n):
        ids = rng.sample([0, 1, 2, 3, 5, 9, 300, 65535], rng.randint(1, 4))
        big = rng.choice([20, 70, 130, 300, 700])
        topics = rng.sample(['a', 'b', 'topic', ''], rng.randint(1, 3))
        cmds = ['compile 0 @p.bzz', 'gcmode 0', 'new 0 77 0', 'run 0', 'call 0 nop i:1']
        lis = {}
        for t in topics:
            if rng.random() < .8 or t == topics[0]:
                lis[t] = len(lis) + 1
                cmds.append('call 0 listen %s i:%d' % (arg(t), lis[t]))
        want = {r: [] for r in ids}
        sent = []
        for k in range(big):
            r = ids[0] if rng.random() < .7 else rng.choice(ids)
            t = rng.choice(topics)
            v = rng.choice([k, 's%d' % (k % 50)])
            cmds.append('in 0 %d %s' % (r, w_bcast(t, v)))
            if t in lis:
                want[r].append((lis[t], t, v))
        cmds.append('procin 0')
        for k in range(rng.choice([1, 40, 300])):
            t = rng.choice(topics)
            cmds.append('call 0 send %s i:%d' % (arg(t), k))
            sent.append((BROADCAST, t, k))
        cmds += ['out 0', 'stat 0']
        out.append(Case(cmds, {'p.bzz': PROG % ''}, burst_oracle, info=(want, sent)))
    return out


STAGES = [Stage('bursts', gen_burst, 8, 300, per=4), Stage('swarms', gen, 80, 4000, per=25), Stage('changing listeners', gen_cb, 10, 400, per=30)]
