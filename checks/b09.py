"""B09: swarm membership and swarm context follow the script."""
import lang
from run import Case, Stage, Skip, parse
from util import *

RULE = ('Random scripts over several swarms (create, join, leave, select, in, others, union, intersection, difference, nested exec with '
        'functions, early returns, closures, C functions and callbacks inside) run on the real VM; every membership query, every swarm.id() and which '
        'blocks were executed are compared with a reference model; at the end the swarm context is empty and the stacks are balanced. '
        'Contexts are nested up to hundreds deep. Non-trivial: at least one exec block ran and one was skipped.')


class G:
    def __init__(self, rng):
        self.r = rng
        self.ids = rng.sample([0, 1, 2, 3, 7, 255, 256, 40000, 65535], rng.randint(1, 4))
        self.n = 0
        self.budget = rng.randint(10, 40)

    def stats(self, depth, n):
        out = []
        for _ in range(n):
            if self.budget <= 0:
                break
            self.budget -= 1
            out.append(self.stat(depth))
        return out

    def stat(self, depth):
        r = self.r
        x = r.random()
        i = r.choice(self.ids)
        if x < .12:
            return ('join', i)
        if x < .2:
            return ('leave', i)
        if x < .28:
            return ('select', i, r.choice([0, 1, 2, -1, 256, 512]))
        if x < .38:
            return ('in', i)
        if x < .5:
            return ('ctx', r.choice([None, None, 0, 1, 2, 3, 9, -2]))
        if x < .56:
            return ('setop', r.choice(['union', 'intersection', 'difference']), r.choice(self.ids), i, r.choice(self.ids))
        if x < .6:
            return ('others', i, r.choice(self.ids))
        if x < .64:
            return ('create', i)
        if x < .68:
            return ('helper', r.randint(0, 2))
        if x < .73:
            return ('cb', self.stats(depth + 1, r.randint(1, 2)))
        if depth < 5:
            return ('exec', i, self.stats(depth + 1, r.randint(1, 4)), r.choice([0, 0, 0, 1, 2, 3]))
        return ('in', i)

    def text(self, ss, ind=1):
        o = []
        p = ' ' * ind
        for s in ss:
            k = s[0]
            if k in ('join', 'leave'):
                o.append(p + 'S[%d].%s()' % (s[1], k))
            elif k == 'select':
                o.append(p + 'S[%d].select(%d)' % (s[1], s[2]))
            elif k == 'in':
                o.append(p + 'trace("in", %d, S[%d].in())' % (s[1], s[1]))
            elif k == 'ctx':
                o.append(p + 'trace("ctx", swarm.id(%s))' % ('' if s[1] is None else s[1]))
            elif k == 'setop':
                o.append(p + 'S[%d] = swarm.%s(%d, S[%d], S[%d])' % (s[2], s[1], s[2], s[3], s[4]))
                o.append(p + 'trace("set", S[%d].id, S[%d].in())' % (s[2], s[2]))
            elif k == 'others':
                o.append(p + 'S[%d] = S[%d].others(%d)' % (s[2], s[1], s[2]))
            elif k == 'create':
                o.append(p + 'S[%d] = swarm.create(%d)' % (s[1], s[1]))
            elif k == 'helper':
                o.append(p + 'help%d(%d)' % (s[1], s[1]))
            elif k == 'cb':
                o.append(p + 'foreach({.only = 1}, function(k, v) {\n%s\n%s})' % (self.text(s[1], ind + 1), p))
            elif k == 'exec':
                m = s[3]
                body = self.text(s[2], ind + 1)
                if m == 1:
                    body += '\n%s return 5' % p
                elif m == 2:
                    body = '%s if(%s) { return nil }\n%s' % (p, 'swarm.id() == nil', body)
                self.n += 1
                body = '%s trace("enter", %d)\n%s' % (p, self.n, body)
                s[2].insert(0, ('mark', self.n))
                if m == 3:
                    o.append(p + 'F[%d] = function() {\n%s\n%s}' % (self.n, body, p))
                    o.append(p + 'S[%d].exec(F[%d])' % (s[1], self.n))
                else:
                    o.append(p + 'S[%d].exec(function() {\n%s\n%s})' % (s[1], body, p))
            elif k == 'mark':
                pass
        return '\n'.join(o)


class M:
    def __init__(self):
        self.m, self.st, self.tr = {}, [], []
        self.ran = self.skipped = 0

    def ctx(self, n=None):
        if not self.st:
            return None
        n = 1 if n is None else max(1, min(n, len(self.st)))
        return self.st[-n]

    def run(self, ss):
        for s in ss:
            k = s[0]
            if k == 'join':
                self.m[s[1]] = 1
            elif k == 'leave':
                self.m[s[1]] = 0
            elif k == 'select':
                self.m[s[1]] = int(s[2] != 0)
            elif k == 'in':
                self.tr.append(['in', s[1], self.m[s[1]]])
            elif k == 'ctx':
                self.tr.append(['ctx', self.ctx(s[1])])
            elif k == 'setop':
                a, b = self.m[s[3]], self.m[s[4]]
                self.m[s[2]] = {'union': a | b, 'intersection': a & b, 'difference': a & (1 - b)}[s[1]]
                self.tr.append(['set', s[2], self.m[s[2]]])
            elif k == 'others':
                self.m[s[2]] = 1 - self.m[s[1]]
            elif k == 'create':
                self.m.setdefault(s[1], 0)
            elif k == 'helper':
                if s[1] == 2:
                    self.tr.append(['help', 2, self.ctx()])
                elif s[1] == 1:
                    self.tr.append(['help', 0, self.ctx()])
                    self.tr.append(['help', 1, self.ctx()])
                else:
                    self.tr.append(['help', 0, self.ctx()])
            elif k == 'mark':
                self.tr.append(['enter', s[1]])
            elif k == 'cb':
                self.run(s[1])
            elif k == 'exec':
                if self.m[s[1]]:
                    self.ran += 1
                    self.st.append(s[1])
                    self.run(s[2])
                    self.st.pop()
                else:
                    self.skipped += 1


HELP = '''
S = {} F = {}
function help0(x) { trace("help", 0, swarm.id()) }
function help1(x) { help0(x) trace("help", 1, swarm.id()) return x }
function help2(x) { trace("help", 2, ccall(function(y) { return swarm.id() }, x)) }
'''


def oracle(ev, c):
    want, ran, skipped, finals = c.info
    c.note('blocks executed', ran)
    c.note('blocks skipped', skipped)
    c.nontrivial = ran > 0 and skipped > 0
    e = parse(ev)
    for t in e:
        if t[0] in ('R', 'P', 'K') and t[2]['state'] not in ('ready', 'done'):
            return 'error: %r' % (t[2],)
    got = [t[2] for t in e if t[0] == 'T']
    for n, (a, b) in enumerate(zip(got, want)):
        if a != b:
            return 'event %d: observed %r, expected %r' % (n, a, b)
    if len(got) != len(want):
        return 'observed %d events, expected %d' % (len(got), len(want))
    s = [t[2] for t in e if t[0] == 'S'][-1]
    if s['swarmstack'] != 0 or s['stack'] != 0 or s['stacks'] != 1 or s['lsymts'] != 1:
        return 'the swarm context or the stacks are not empty at the end: %r' % s
    return None


def gen(rng, n):
    out = []
    while len(out) < n:
        g = G(rng)
        fs = [g.stats(0, rng.randint(2, 10)) for _ in range(rng.randint(1, 3))]
        ini = {i: rng.randint(0, 1) for i in g.ids}
        txt = HELP + 'function init() {\n%s\n}\n' % '\n'.join(' S[%d] = swarm.create(%d) S[%d].select(%d)' % (i, i, i, ini[i]) for i in g.ids)
        for k, f in enumerate(fs):
            txt += 'function go%d() {\n%s\n trace("end", %d)\n}\n' % (k, g.text(f), k)
        txt += 'init()\n'
        m = M()
        for i in g.ids:
            m.m[i] = ini[i]
        cmds = ['compile 0 @p.bzz', 'gcmode %d' % rng.choice([0, 0, 1]), 'new 0 %d 0' % rng.randint(0, 9), 'run 0']
        for _ in range(rng.randint(1, 4)):
            k = rng.randrange(len(fs))
            cmds.append('call 0 go%d' % k)
            m.run(fs[k])
            m.tr.append(['end', k])
            if rng.random() < .3:
                # messages do not change the own memberships
                cmds += ['in 0 9 ' + rng.choice([w_list(g.ids), w_join(g.ids[0]), w_leave(g.ids[0])]), 'procin 0', 'procout 0', 'out 0 1']
        cmds.append('stat 0')
        out.append(Case(cmds, {'p.bzz': txt}, oracle, info=(m.tr, m.ran, m.skipped, None), key=(txt, len(cmds))))
    return out


# ------------------------------------------------------------ deep nesting

DEEP = '''
S = {.0 = swarm.create(%d), .1 = swarm.create(%d), .2 = swarm.create(%d)}
S[0].join() S[1].join() S[2].join()
function ids(a, b, c, d) { trace("ids", swarm.id(), swarm.id(a), swarm.id(b), swarm.id(c), swarm.id(d)) }
function down(n, a, b, c, d) {
 if(n == 0) { ids(a, b, c, d) }
 else {
  S[n %% 3].exec(function() { down(n - 1, a, b, c, d) if(n %% 50 == 0) { trace("up", n, swarm.id()) } })
 }
 return n
}
function rec(m, n, a, b, c, d) { if(m == 0) { return down(n, a, b, c, d) } else { return 1 + rec(m - 1, n, a, b, c, d) } }
function go(m, n, a, b, c, d) { trace("ret", rec(m, n, a, b, c, d), swarm.id()) return 1 }
'''


def deep_oracle(ev, c):
    e = parse(ev)
    for t in e:
        if t[0] in ('R', 'P', 'K') and t[2]['state'] not in ('ready', 'done'):
            return 'error: %r' % (t[2],)
        if t[0] == 'S' and (t[2]['stack'] or t[2]['stacks'] != 1):
            return 'values left on the stack: %r' % (t[2],)
    got = [t[2] for t in e if t[0] == 'T']
    if got != c.info:
        return 'observed %r, expected %r' % (got, c.info)
    c.note('deep nestings')
    return None


def gen_deep(rng, n):
    out = []
    for _ in range(n):
        ids = rng.sample([0, 1, 9, 255, 256, 300, 32768, 65535], 3)
        d = rng.choice([3, 60, 126, 140, 258, 300])
        m = rng.choice([0, 0, 100, 260, 400])
        at = [rng.randint(1, d) for _ in range(3)] + [d]
        # the block executed last is that of n = 1
        where = lambda k: ids[k % 3]
        tr = [['ids', where(1)] + [where(k) for k in at]]
        tr += [['up', k, where(k)] for k in range(1, d + 1) if k % 50 == 0]
        tr.append(['ret', d + m, None])
        out.append(Case(['compile 0 @p.bzz', 'gcmode 0', 'new 0 3 0', 'run 0', 'call 0 go ' + ' '.join('i:%d' % x for x in [m, d] + at), 'stat 0'],
                        {'p.bzz': DEEP % tuple(ids)}, deep_oracle, info=tr, timeout=60))
    return out


STAGES = [Stage('deep nesting', gen_deep, 8, 100, per=4), Stage('scripts', gen, 80, 4000, per=40)]
