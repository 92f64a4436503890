"""B26: arbitrary bytes as bytecode."""
import os, struct
from gen import make
from run import Case, Direct, Stage, parse
from util import *

RULE = ('Random bytes, random instruction sequences that keep the operand stack mostly well formed (all instructions, all registered functions, counts and addresses of every size, including negative ones) and compiled programs with random changes, cuts and moved pieces '
        'are loaded as bytecode in blocks of exactly their size under ASan/UBSan and executed with a step limit; then the host calls functions, delivers messages, lists the globals and destroys the robot. '
        'Every execution must end in a defined state, an error must have a code and a message and stay, and a second robot with the same bytes must end in the same state. Non-trivial: at least one instruction was executed.')
ASSUMPTIONS = ['the number of instructions is limited', 'memory is sufficient']

INS = ('nop done pushnil dup pop ret0 ret1 add sub mul div mod pow unm land lor lnot band bor bnot lshift rshift eq neq gt gte lt lte gload gstore pusht tput tget callc calls '
       'pushf pushi pushs pushcn pushcc pushl lload lstore lremove jump jumpz jumpnz').split()
STR = ['x', 'y', 'id', 'self', 'math', 'sin', 'size', 'foreach', 'f', 'g', '', 'neighbors', 'poses', 'swarm', 'create', 'stigmergy', 'log', 'T', 'count', 'map', 'kin', 'vs']
ODDI = [-1, 0, 1, 2, 3, 7, 50, 255, 65535, 65536, 2**31 - 1, -2**31, -2]


def rasm(rng):
    """Assembly text whose stack stays mostly well formed."""
    n = rng.choice([5, 20, 60, 200])
    L = ['!%d' % len(STR)] + ["'" + s for s in STR]
    labels = rng.randint(1, 6)
    at = {rng.randrange(n): k for k in range(1, labels)}
    wild = rng.choice([0, .02, .1, .5])
    st = []      # abstract types, best effort
    if rng.random() < .9:
        L += ['\tnop']
    e = L.append

    def push():
        k = rng.choice('iiifssnttccl')
        if k == 'i':
            e('\tpushi %d' % rng.choice(ODDI[:6] + [rng.randint(-9, 9)] * 4 + ODDI))
        elif k == 'f':
            e('\tpushf %s' % rng.choice(['1.5', '-0.25', '0', '1e30', 'nan', 'inf']))
        elif k == 's':
            e('\tpushs %d' % rng.choice([rng.randrange(len(STR))] * 12 + ODDI))
        elif k == 'n':
            e('\tpushnil')
        elif k == 't':
            e('\tpusht')
        elif k == 'c':
            x = rng.random()
            if x < .5:
                e('\tpushcc %d' % rng.choice([rng.randint(0, 80)] * 9 + ODDI))
            elif x < .8:
                e('\tpushl @l%d' % rng.randrange(labels))
            else:
                e('\tpushcn @l%d' % rng.randrange(labels))
        elif k == 'l':
            e('\tlload %d' % rng.choice([0, 1, 2, 3] * 3 + ODDI))
            k = 'x'
        st.append(k)
    e('@l0')
    for i in range(n):
        if i in at:
            e('@l%d' % at[i])
        x = rng.random()
        if x < wild:
            k = rng.choice(INS)
            if k == 'pushf':
                e('\tpushf 2.5')
            elif k in ('pushcn', 'pushl', 'jump', 'jumpz', 'jumpnz'):
                e('\t%s @l%d' % (k, rng.randrange(labels)))
            elif k in ('pushi', 'pushs', 'pushcc', 'lload', 'lstore', 'lremove'):
                e('\t%s %d' % (k, rng.choice(ODDI + [rng.randint(0, 9)])))
            else:
                e('\t' + k)
            st = st[:-1]
            continue
        o = rng.random()
        if o < .4 or not st:
            push()
        elif o < .5 and len(st) >= 2 and st[-1] in 'if' and st[-2] in 'if':
            e('\t' + rng.choice('add sub mul div mod pow eq neq gt gte lt lte land lor'.split()))
            st[-2:] = 'i'
        elif o < .56:
            e('\t' + rng.choice(['dup', 'dup', 'pop']))
            st = st + st[-1:] if L[-1] == '\tdup' else st[:-1]
        elif o < .62:
            e('\tpushs %d' % rng.randrange(len(STR)))
            e('\tgload')
            st.append('x')
        elif o < .68:
            v = rng.choice(STR)
            k = st[-1]
            e('\tpushs %d' % STR.index(v))
            # value is below: rebuild the order
            push()
            e('\tgstore')
            st.pop()
        elif o < .76:
            e('\tpusht')
            e('\tdup')
            e(rng.choice(['\tpushs %d' % rng.randrange(len(STR)), '\tpushi %d' % rng.randint(0, 3), '\tpushf 1.5']))
            push()
            st.pop()
            e('\ttput')
            st.append('t')
        elif o < .8 and st[-1] == 't':
            e('\tpushs %d' % rng.randrange(len(STR)))
            e('\ttget')
            st[-1] = 'x'
        elif o < .94:
            # a call: self, closure, arguments, their number
            k = rng.choice([0, 1, 1, 2, 3])
            if rng.random() < .92:
                e(rng.choice(['\tpushnil', '\tpusht']))
            y = rng.random()
            if y < .6:
                e('\tpushcc %d' % rng.randint(0, 80))
            elif y < .9:
                e('\tpushcn @l%d' % rng.randrange(labels))
            else:
                push()
                st.pop()
            for _ in range(k):
                push()
                st.pop()
            e('\tpushi %d' % (k if rng.random() < .9 else rng.choice(ODDI)))
            e('\t' + rng.choice(['callc'] * 9 + ['calls']))
        elif o < .97:
            e('\t%s @l%d' % (rng.choice(['jump', 'jumpz', 'jumpnz']), rng.randrange(labels)))
        else:
            e(rng.choice(['\tret0', '\tret1', '\tlstore 1', '\tlremove 1', '\tlstore 0', '\tdone']))
    if rng.random() < .9:
        e('\tdone')
    for k in range(labels):
        if not any(l == '@l%d' % k for l in L):
            e('@l%d' % k)
    e('\t' + rng.choice(['ret0', 'ret1', 'done', 'pushnil', 'add']))
    return '\n'.join(L) + '\n'


def tail(rng, v):
    c = ['run %d %d' % (v, rng.choice([300, 3000])), 'strerror %d' % v]
    for _ in range(rng.randint(0, 4)):
        c.append(rng.choice(['call %d f' % v, 'call %d g i:1 n' % v, 'in %d 3 %s' % (v, w_bcast('x', 5)), 'procin %d' % v, 'procout %d' % v, 'neigh %d 4 1 2 3' % v,
                             'globals %d' % v, 'gcnow %d' % v, 'run %d 200' % v, 'call %d size t' % v]))
    return c + ['state %d' % v, 'globals %d' % v]


def two(rng, pre, files, key, timeout=15):
    t = tail(rng, 0)
    # the second robot repeats the first one
    cmds = pre + ['limit 4000', 'new 0 5 0'] + t + ['destroy 0', 'echo second', 'new 0 5 0'] + t + ['destroy 0']
    return Case(cmds, files, oracle, key=key, timeout=timeout)


def g_bytes(rng, n):
    out = []
    for _ in range(n):
        k = rng.choice([0, 1, 2, 3, 4, 8, 30, 100, 400])
        ns = rng.choice([0, 0, 1, 3, 65535])
        b = struct.pack('<H', ns) + b''.join(rng.choice([b'ab\0', b'\0', b'f\0']) for _ in range(min(ns, 3)))
        b += bytes(rng.choice([rng.randrange(48), rng.randrange(48), 0, rng.randrange(256)]) for _ in range(k))
        if rng.random() < .15:
            b = bytes(rng.randrange(256) for _ in range(k))
        b = b[:rng.randint(0, len(b))] if rng.random() < .2 else b
        out.append(two(rng, ['raw 0 @b.bo', 'gcmode %d' % rng.choice([0, 1])], {'b.bo': b}, b))
    return out


def g_asm(rng, n):
    out = []
    for _ in range(n):
        t = rasm(rng)
        k = rng.choice([0, 0, 0, 1, 3])
        seed = rng.getrandbits(30)
        out.append(two(rng, ['asm 0 @a.basm', 'mut 0 %d %d' % (seed, k), 'gcmode %d' % rng.choice([0, 1])], {'a.basm': t}, (t, seed, k)))
    return out


def g_prog(rng, n):
    out = []
    for _ in range(n):
        p, txt, spans, want, e, it, g = make(rng, rng.choice([0, .03]), rng.choice([5, 10, 20]))
        k = rng.choice([1, 1, 2, 5, 20])
        seed = rng.getrandbits(30)
        out.append(two(rng, ['compile 0 @p.bzz', 'mut 0 %d %d' % (seed, k), 'gcmode %d' % rng.choice([0, 1])], {'p.bzz': txt}, (txt, seed, k)))
    return out


def oracle(ev, c):
    runs = [[]]
    if '# limited' in ev:
        c.note('endless programs')
        c.nontrivial = False
        return None
    for t in parse(ev):
        if t[0] == '#' and t[1] == 'second':
            runs.append([])
        elif t[0] in ('N', 'R', 'K', 'E', 'GS'):
            runs[-1].append(t)
        elif t[0] == 'A' and t[2] != '0':
            return 'assembly refused: %r' % (t,)
    for r in runs:
        err = None
        msg = False
        for t in r:
            if t[0] in ('N', 'R'):
                s = t[2]
                if s['state'] not in ('ready', 'done', 'error', 'stopped', 'nocode'):
                    return 'undefined state %r' % s
                if (s['state'] == 'error') != (s['err'] != 0):
                    return 'state and error code disagree: %r' % s
                if err and (s['state'], s['err']) != err:
                    return 'after the error %r the robot is in state %r' % (err, s)
                if s['state'] == 'error':
                    err = (s['state'], s['err'])
                    if not s['msg']:
                        return 'error without a message: %r' % s
                c.note('ended: %s' % s['state'])
            elif t[0] == 'K' and err and t[2]['ret'] == 'ready':
                return 'a call succeeded after an error'
    if len(runs) != 2 or [x[:2] + x[2:] for x in runs[0]] != [x[:2] + x[2:] for x in runs[1]]:
        for a, b in zip(runs[0], runs[1]):
            if a != b:
                return 'the second robot with the same bytes: %r instead of %r' % (b, a)
        return 'the second robot did something else'
    return None


def stage_files(rng, ctx):
    """The command line tools on damaged bytecode and debug files."""
    r = dict(evaluations=0, keys=[], violations=[], notes={}, samples=[])
    w = lambda n: os.path.join(ctx.work, n)
    open(w('a.basm'), 'w').write(rasm(rng) if rng.random() < .5 else '!1\n\'f\n\tnop\n\tpushnil|1,2,a.bzz\n\tpop|1,3,a.bzz\n\tdone|2,0,a.bzz\n')
    rc, so, se = ctx.tool(['bzzasm', 'a.basm', 'a.bo', 'a.bdb'])
    if rc:
        r['violations'].append(dict(msg='assembly refused: %s' % se[-500:], files={'a.basm': open(w('a.basm'), 'rb').read()}, replay='$D/bzzasm a.basm a.bo a.bdb'))
        return r
    bo, bd = open(w('a.bo'), 'rb').read(), open(w('a.bdb'), 'rb').read()

    def damage(b):
        x = rng.random()
        if x < .15:
            return b
        if x < .4:
            return b[:rng.choice([0, 1, 2, 3, rng.randint(0, len(b))])]
        if x < .5:
            return bytes(rng.randrange(256) for _ in range(rng.choice([1, 2, 3, 10, 100])))
        b = bytearray(b)
        for _ in range(rng.choice([1, 2, 8])):
            if b:
                b[rng.randrange(len(b))] = rng.choice([rng.randrange(256), rng.randrange(48), 0, 255])
        return bytes(b)
    for _ in range(6):
        f = {'x.bo': damage(bo), 'x.bdb': damage(bd)}
        r['evaluations'] += 1
        r['keys'].append(repr(f))
        for n, d in f.items():
            open(w(n), 'wb').write(d)
        for a in (['bzzdeasm', 'x.bo', 'x.bdb', 'x.lst'], ['bzzrun', 'x.bo', 'x.bdb']):
            rc, so, se = ctx.tool(a, timeout=2)
            if rc == 'timeout':
                continue
            k = '%s exit %s' % (a[0], rc)
            r['notes'][k] = r['notes'].get(k, 0) + 1
            if rc not in (0, 1, 2) or 'Sanitizer' in se or 'runtime error' in se:
                if 'reallocate' in se or 'out of memory' in se or 'allocation-size' in se:
                    continue
                r['violations'].append(dict(msg='%s crashed (%r): %s' % (a[0], rc, se[-1500:]), files=f, replay='$D/' + ' '.join(a)))
                return r
            if rc != 0 and not se.strip():
                r['violations'].append(dict(msg='%s fails without a message' % a[0], files=f, replay='$D/' + ' '.join(a)))
                return r
    return r


STAGES = [Stage('random instructions', g_asm, 300, 12000, per=60), Stage('random bytes', g_bytes, 60, 2000, per=60), Stage('changed programs', g_prog, 120, 4000, per=30), Direct('damaged files', stage_files, 100, 3000)]
