"""B05: no sequence of received bytes can break a robot."""
import lang
from run import Case, Stage, Skip, parse
from swarmgen import Ctl, drive
from util import *

RULE = ('Arbitrary byte strings (random, mutated and truncated real messages, hand-made deep, huge and inconsistent ones) are queued '
        'from arbitrary senders and processed by robots with stigmergies, listeners, conflict handlers and swarms, under ASan/UBSan. '
        'Monitored: no memory error or hang, the VM stays ready with balanced stacks, a well-formed broadcast queued after the '
        'garbage is heard exactly once, and a strict prefix of a well-formed message (or one of unknown type) has no effect at all on the script, '
        'the stigmergies, the memberships and the outgoing queue. Non-trivial: at least one message was not well-formed.')

PROG = '''
heard = 0
function mk(i) {
 var v = stigmergy.create(i)
 v.onconflict(function(k, l, r) { trace("conflict", k, l, r) if(l.robot > r.robot) { return l } else { return r } })
 v.onconflictlost(function(k, l) { trace("lost", k, l) })
 v.put("a", 1) v.put(2, {.x = 1}) v.put(1.5, "s")
 return v
}
function init() {
 v1 = mk(1) v2 = stigmergy.create(2)
 sw = swarm.create(1) sw.join() sw2 = swarm.create(2)
 neighbors.listen("t", function(t, v, r) { trace("heard", t, v, r) })
 neighbors.listen("sentinel", function(t, v, r) { heard = heard + 1 trace("sentinel", v, r) })
}
function dumpv(v, n) { v.foreach(function(k, x, r) { trace("entry", n, k, x, r) }) trace("vs", n, v.size()) }
function dump(x) { dumpv(v1, 1) dumpv(v2, 2) trace("glob", heard, sw.in(), sw2.in(), sw.id)
 sw.exec(function() { trace("kin", neighbors.kin().count(), neighbors.nonkin().count()) }) }
'''


def deep(rng, n):
    t = rng.choice([0, 1])
    b = b''
    for _ in range(n):
        b += b'\4' + w_u16(1) + (w_obj(1) if t == 0 else b'')
    return b + w_obj(1) * 3


def rmsg(rng):
    """A well-formed message."""
    k = rng.randint(0, 8)
    key = rkey(rng) if rng.random() < .5 else rng.choice(['a', 2, F(1.5)])
    if k == 0:
        return w_bcast(rng.choice(['t', 'u', '']), rvalue(rng))
    if k == 1:
        return w_list([rng.randint(0, 4) for _ in range(rng.randint(0, 5))])
    if k in (2, 3):
        return w_put(rng.randint(0, 3), key, rvalue(rng), rng.randint(0, 5), rng.randint(0, 9))
    if k in (4, 5):
        return w_query(rng.randint(0, 3), key, rvalue(rng), rng.randint(0, 5), rng.randint(0, 9))
    if k == 6:
        return w_join(rng.randint(0, 4))
    return w_leave(rng.randint(0, 4))


def hostile(rng):
    r = rng.random()
    if r < .15:
        return bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 3, 8, 40, 300])))
    if r < .25:
        return bytes([rng.randrange(0, 8)]) + bytes(rng.choice([0, 1, 2, 3, 4, 5, 255, rng.randrange(256)]) for _ in range(rng.randint(0, 30)))
    if r < .35:
        d = deep(rng, rng.choice([1, 5, 100, 127, 128, 129, 200, 3000]))
        return rng.choice([b'\0' + w_obj('t') + d, b'\2' + w_u16(1) + w_obj('a') + d + bytes(4), b'\3' + w_u16(1) + d + d + bytes(4), b'\2' + w_u16(1) + d + w_obj(1) + bytes(4)])
    if r < .42:
        # values of unusual types as topics, keys and data
        o = rng.choice([b'\5\0' + struct.pack('>I', rng.getrandbits(32)), b'\5\1' + struct.pack('>I', rng.choice([0, 1, 50, 2**31, rng.getrandbits(32)])), b'\6', b'\0', b'\4' + w_u16(65535), b'\3' + w_u16(65535) + b'abc',
                        b'\4' + w_u16(2) + w_obj(None) + w_obj(1) + w_obj(1) + w_obj(None), b'\4' + w_u16(1) + b'\4\0\0' + w_obj(1), b'\2' + struct.pack('>II', rng.getrandbits(32), rng.getrandbits(32)),
                        b'\3' + w_u16(3) + b'a\0b', b'\3' + w_u16(0)])
        return rng.choice([b'\0' + o + w_obj(1), b'\0' + w_obj('t') + o, b'\2' + w_u16(1) + o + w_obj(1) + bytes(4), b'\2' + w_u16(1) + w_obj('a') + o + w_u16(9) + w_u16(1),
                           b'\3' + w_u16(1) + w_obj('a') + o + w_u16(1) + w_u16(7), b'\3' + w_u16(1) + o + o + w_u16(1) + w_u16(7)])
    if r < .47:
        return b'\1' + w_u16(rng.choice([0, 1, 300, 65535])) + bytes(rng.randrange(256) for _ in range(rng.randint(0, 20)))
    b = bytearray.fromhex(rmsg(rng))
    if r < .5:
        return bytes(b)
    for _ in range(rng.randint(1, 4)):
        k = rng.randint(0, 4)
        p = rng.randrange(len(b)) if b else 0
        if k == 0 and b:
            b[p] ^= 1 << rng.randrange(8)
        elif k == 1 and b:
            b[p] = rng.choice([0, 1, 2, 3, 4, 5, 6, 127, 128, 255])
        elif k == 2:
            b[p:p] = bytes(rng.randrange(256) for _ in range(rng.randint(1, 5)))
        elif k == 3 and b:
            del b[p:p + rng.randint(1, 5)]
        elif b:
            b += b[p:]
    return bytes(b)


def inp(v, rid, b):
    return 'in %d %d %s' % (v, rid, b.hex() if b else '-')


def wellformed(h):
    try:
        r_msg(h)
        return True
    except Bad:
        return False


def robust_oracle(ev, c):
    e = parse(ev)
    bad, want = c.info
    c.note('malformed messages', bad)
    c.nontrivial = bad > 0
    for t in e:
        if t[0] in ('R', 'P', 'K') and t[2]['state'] not in ('ready', 'done'):
            return 'received bytes put the robot in state %r' % (t[2],)
        if t[0] == 'S' and (t[2]['stack'] != 0 or t[2]['stacks'] != 1 or t[2]['lsymts'] != 1):
            return 'unbalanced stacks after processing messages: %r' % (t[2],)
        if t[0] == 'S' and t[2]['in'] != 0:
            return 'messages left in the queue: %r' % (t[2],)
    got = [tuple(t[2][1:]) for t in e if t[0] == 'T' and t[2][0] == 'sentinel']
    c.note('sentinels', len(got))
    if sorted(got) != sorted(want):
        return 'well-formed broadcasts %r were sent after the garbage, heard %r' % (want, got)
    return None


def gen_robust(rng, n):
    out = []
    for _ in range(n):
        cmds = ['compile 0 @p.bzz', 'new 0 4 0', 'run 0', 'call 0 init']
        bad, want, s = 0, [], 0
        for _ in range(rng.randint(1, 6)):
            cmds += ['neigh 0', 'neigh 0 3 10 0 0', 'neigh 0 5 20 0 0']
            for _ in range(rng.randint(1, 6)):
                b = hostile(rng)
                bad += not wellformed(b.hex() or '-')
                cmds.append(inp(0, rng.choice([3, 5, 4, 0, 65535]), b))
            s += 1
            rid = rng.choice([3, 5, 9])
            cmds += ['in 0 %d %s' % (rid, w_bcast('sentinel', s)), 'procin 0', 'stat 0', 'call 0 dump i:1', 'procout 0', 'out 0 %d' % rng.choice([0, 2, 1000])]
            want.append((s, rid))
            if rng.random() < .2:
                cmds.append('gcnow 0')
        out.append(Case(cmds, {'p.bzz': PROG}, robust_oracle, info=(bad, want)))
    return out


def noeffect_oracle(ev, c):
    segs = {}
    cur = None
    for l in ev:
        if l.startswith('# '):
            cur = l[2:]
            segs[cur] = []
        elif cur is not None:
            segs[cur].append(l)
    for k in segs:
        for t in parse(segs[k]):
            if t[0] in ('R', 'P', 'K') and t[2]['state'] not in ('ready', 'done'):
                return 'received bytes put the robot in state %r' % (t[2],)
    def dumpof(k):
        return sorted([[lang.norm(x) for x in t[2]] for t in parse(segs[k]) if t[0] == 'T'], key=repr)
    a, b = dumpof('before'), dumpof('after')
    mid = [l for l in segs['process'] if l.startswith('T ')]
    if mid:
        return 'a malformed message ran a callback of the script: %s (messages %r)' % (mid[:2], c.info)
    if a != b:
        return 'malformed messages %r changed the robot: %r became %r' % (c.info, a, b)
    o = [l for l in segs['after'] if l.startswith('M ')]
    if o:
        return 'malformed messages %r made the robot send %r' % (c.info, o[:3])
    c.note('malformed messages', len(c.info))
    return None


def gen_noeffect(rng, n):
    out = []
    for _ in range(n):
        ms = []
        while len(ms) < rng.randint(1, 6):
            m = bytes.fromhex(rmsg(rng))
            if len(m) < 2:
                continue
            if rng.random() < .9:
                m = m[:rng.randrange(0, len(m))]
                if wellformed(m.hex() or '-'):
                    continue
            else:
                m = bytes([rng.randint(6, 255)]) + m[1:]
            ms.append(m)
        cmds = ['compile 0 @p.bzz', 'new 0 4 0', 'run 0', 'call 0 init', 'neigh 0', 'neigh 0 3 10 0 0', 'neigh 0 5 20 0 0',
                'in 0 3 ' + w_list([1, 2]), 'in 0 5 ' + w_put(2, 'z', 5, 3, 3), 'procin 0', 'procout 0', 'out 0', 'echo before', 'call 0 dump i:1', 'out 0', 'echo process']
        cmds += [inp(0, rng.choice([3, 5, 7]), m) for m in ms] + ['procin 0', 'stat 0', 'echo after', 'out 0', 'call 0 dump i:1']
        out.append(Case(cmds, {'p.bzz': PROG}, noeffect_oracle, info=[m.hex() for m in ms]))
    return out


def swarm_oracle(ev, c):
    c.note('messages delivered', sum(l.startswith('X ') for l in ev))
    c.note('malformed messages', c.info)
    return None


def gen_swarm(rng, n):
    """Random controllers in a swarm with garbage injected: only the sanitizers and the stacks are watched."""
    out = []
    for _ in range(n):
        ctl = Ctl(rng)
        cnt = [0]

        def extra(r, s, v):
            l = []
            for _ in range(r.randint(0, 4)):
                cnt[0] += 1
                l.append(inp(v, r.choice([0, 1, 2, 77]), hostile(r)))
            return l
        k = rng.randint(1, 3)
        cmds = ['compile 0 @p.bzz', 'gcmode %d' % rng.choice([0, 0, 1, 7])] + drive(rng, k, ctl.nact, rng.randint(3, 7), 10, 10, 10, 1, extra=extra)
        out.append(Case(cmds, {'p.bzz': ctl.text()}, swarm_oracle, info=cnt[0], timeout=40))
    return out


STAGES = [Stage('hostile messages', gen_robust, 60, 4000, per=40),
          Stage('no effect', gen_noeffect, 24, 1200, per=40),
          Stage('hostile swarms', gen_swarm, 24, 1000, per=10)]
