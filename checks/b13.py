"""B13: the neighbours structure and what is derived from it."""
import lang
from run import Case, Stage, Skip, parse
from util import *

RULE = ('The host updates the neighbours of a robot (reset, add, add again with other positions, nothing) with any ids and positions, over many steps; scripts apply random chains of '
        'foreach, map, reduce, filter, get, count, kin and nonkin to the neighbours, to derived structures and to structures saved in earlier steps, with nested iterations and '
        'callbacks that capture variables and return any type. Everything traced is compared with a reference model. Non-trivial: at least one non-empty derived structure was observed.')
ASSUMPTIONS = ['the order of iteration is unspecified']


def wrap(x):
    return (x + 2**31) % 2**32 - 2**31


class Gen:
    def __init__(self, rng):
        self.r = rng
        self.n = 0
        self.names = {}      # script name -> kind of values ('pose', 'num', 'any')
        self.saved = {}

    def src(self):
        c = ['neighbors'] * 3 + list(self.loc) + list(self.saved)
        return self.r.choice(c)

    def kind(self, s):
        return 'pose' if s == 'neighbors' else self.loc.get(s) or self.saved.get(s)

    def filt(self, s):
        r, k = self.r, self.kind(s)
        x = r.choice([0.5, 2.0, 7.25])
        i = r.randint(0, 9)
        L = [('function(rid, d) { return rid %% 2 == %d }' % (i % 2), lambda rid, d: rid % 2 == i % 2),
             ('function(rid, d) { if(rid > %d) { return "yes" } else { return nil } }' % i, lambda rid, d: rid > i),
             ('function(rid, d) { return 0.0 }', lambda rid, d: True),
             ('function(rid, d) { return rid - %d }' % i, lambda rid, d: rid != i),
             ('function(rid, d) { return {} }', lambda rid, d: True),
             ('function(rid, d) { }', lambda rid, d: False),
             ('function(rid, d) { return rid > lim }', lambda rid, d: rid > self.lim)]
        if k == 'pose':
            L += [('function(rid, d) { return d.distance > %f }' % x, lambda rid, d: d.get('distance').v > x)] * 3
        if k == 'num':
            L += [('function(rid, d) { return d > %f }' % x, lambda rid, d: (d if isinstance(d, int) else d.v) > x)] * 3
        return r.choice(L)

    def mapf(self, s):
        r, k = self.r, self.kind(s)
        i = r.randint(0, 9)

        def tab(**kw):
            t = Table()
            for a, b in kw.items():
                if b is not None:
                    t.put(a, b)
            return t
        L = [('function(rid, d) { return rid }', lambda rid, d: rid, 'num'),
             ('function(rid, d) { return {.id = rid, .d = d, .c = lim} }', lambda rid, d: tab(id=rid, d=d, c=self.lim), 'any'),
             ('function(rid, d) { if(rid %% 3 == %d) { return nil } else { return d } }' % (i % 3), lambda rid, d: None if rid % 3 == i % 3 else d, 'any'),
             ('function(rid, d) { return string.concat("r", string.tostring(rid)) }', lambda rid, d: 'r%d' % rid, 'any')]
        if k == 'pose':
            L += [('function(rid, d) { return d.distance }', lambda rid, d: d.get('distance'), 'num'),
                  ('function(rid, d) { return {.distance = d.distance * 2.0, .azimuth = d.elevation, .elevation = d.azimuth} }',
                   lambda rid, d: tab(distance=F(d.get('distance').v * 2), azimuth=d.get('elevation'), elevation=d.get('azimuth')), 'pose'),
                  ('function(rid, d) { return neighbors.count() + rid }', lambda rid, d: len(self.m) + rid, 'num')]
        if k == 'num':
            L += [('function(rid, d) { return d + 1.0 }', lambda rid, d: F((d if isinstance(d, int) else d.v) + 1.0), 'num')]
        return r.choice(L)

    def stmts(self, n):
        r, out = self.r, []
        for _ in range(n):
            x = r.random()
            s = self.src()
            self.n += 1
            v = 'v%d' % self.n
            if x < .22:
                t, f = self.filt(s)
                self.loc[v] = self.kind(s)
                out.append(('var %s = %s.filter(%s)' % (v, s, t), lambda E, s=s, v=v, f=f: E.__setitem__(v, {k: d for k, d in E[s].items() if f(k, d)})))
            elif x < .45:
                t, f, k = self.mapf(s)
                self.loc[v] = k
                out.append(('var %s = %s.map(%s)' % (v, s, t), lambda E, s=s, v=v, f=f: E.__setitem__(v, {k: f(k, d) for k, d in E[s].items()})))
            elif x < .52:
                w = r.choice(['kin', 'nonkin'])
                self.loc[v] = self.kind(s)
                out.append(('var %s = %s.%s()' % (v, s, w), lambda E, s=s, v=v, w=w: E.__setitem__(v, dict(E[s]) if w == 'kin' else {})))
            elif x < .6:
                i = r.randint(0, 12)
                out.append(('trace("get", %s.get(%d))' % (s, i), lambda E, s=s, i=i: E.tr(['get', E[s].get(i)])))
            elif x < .68:
                out.append(('trace("count", %s.count())' % s, lambda E, s=s: E.tr(['count', len(E[s])])))
            elif x < .76:
                out.append(('%s.foreach(function(rid, d) { trace("each", rid, d, lim) })' % s, lambda E, s=s: E.tr(*sorted((['each', k, d, self.lim] for k, d in E[s].items()), key=lambda z: z[1]))))
            elif x < .84:
                i = r.randint(-3, 3)
                out.append(('trace("sum", %s.reduce(function(rid, d, acc) { return acc + rid }, %d))' % (s, i), lambda E, s=s, i=i: E.tr(['sum', i + sum(E[s])])))
            elif x < .9:
                q = self.src()
                out.append(('trace("nest", %s.reduce(function(rid, d, acc) { return acc + %s.reduce(function(r2, d2, a2) { return a2 + r2 * rid }, 0) }, 0))' % (s, q),
                            lambda E, s=s, q=q: E.tr(['nest', wrap(sum(a * b for a in E[s] for b in E[q]))])))
            elif x < .95 and self.loc:
                w = 'K%d' % r.randint(0, 3)
                l = r.choice(list(self.loc))
                out.append(('%s = %s' % (w, l), lambda E, w=w, l=l: E.__setitem__(w, E[l])))
                self.saved[w] = self.loc[l]
            else:
                out.append(('trace("dump", %s.reduce(function(rid, d, acc) { acc[rid] = d return acc }, {}))' % s, lambda E, s=s: E.tr(['dump', self.dump(E[s])])))
            if x < .52 and r.random() < .7:
                out.append(('trace("dump", %s.count(), %s.reduce(function(rid, d, acc) { acc[rid] = d return acc }, {}))' % (v, v),
                            lambda E, v=v: E.tr(['dump', len(E[v]), self.dump(E[v])])))
        return out

    @staticmethod
    def dump(m):
        t = Table()
        for k, d in m.items():
            if d is not None:
                t.put(k, d)
        return t


class Env(dict):
    def __init__(self):
        dict.__init__(self)
        self.trace = []

    def tr(self, *l):
        self.trace += l


def oracle(ev, c):
    want = c.info
    segs, cur = [], None
    for l in ev:
        if l.startswith('# step'):
            cur = []
            segs.append(cur)
        elif cur is not None:
            cur.append(l)
    if len(segs) != len(want):
        return 'cut short'
    for n, (w, seg) in enumerate(zip(want, segs)):
        e = parse(seg)
        for t in e:
            if t[0] in ('R', 'P', 'K') and t[2]['state'] not in ('ready', 'done'):
                return 'step %d: error %r' % (n, t[2])
            if t[0] == 'S' and (t[2]['stack'] or t[2]['stacks'] != 1):
                return 'step %d: unbalanced stack' % n
        got = [[lang.norm(x) for x in t[2]] for t in e if t[0] == 'T']
        # runs of "each" come in any order
        out, run = [], []
        for g in got + [None]:
            if g and g[0] == 'each':
                run.append(g)
            else:
                out += sorted(run, key=repr)
                run = []
                if g:
                    out.append(g)
        w2, run = [], []
        for g in [[lang.jv(x) for x in y] for y in w] + [None]:
            if g and g[0] == 'each':
                run.append(g)
            else:
                w2 += sorted(run, key=repr)
                run = []
                if g:
                    w2.append(g)
        if out != w2:
            d = next((i for i, (a, b) in enumerate(zip(out, w2)) if a != b), min(len(out), len(w2)))
            return 'step %d: observation %d is %r, expected %r' % (n, d, out[d:d + 1], w2[d:d + 1])
        c.note('observations', len(out))
        if any(g[0] == 'dump' and len(g) > 2 and g[1] for g in out):
            c.note('derived structures')
    c.nontrivial = c.notes.get('derived structures', 0) > 0
    return None


def gen(rng, n):
    out = []
    for _ in range(n):
        g = Gen(rng)
        cmds = ['compile 0 @p.bzz', 'gcmode %d' % rng.choice([0, 0, 1, 9]), 'new 0 1 0', 'run 0', 'call 0 nop i:1']
        txt = 'lim = 0\nfunction nop(x) { return 1 }\n'
        env = Env()
        m = {}
        want = []
        for s in range(rng.randint(1, 6)):
            cmds.append('echo step')
            x = rng.random()
            if x < .8 and (s or rng.random() < .8):
                cmds.append('neigh 0')
                m = {}
            if x < .9:
                for _ in range(rng.choice([0, 1, 2, 3, 5, 12, 40])):
                    rid = rng.choice([rng.randint(0, 12), rng.randint(0, 12), 65535, 1000 + rng.randint(0, 50)])
                    p = [rng.choice([0.0, .25, 1.5, 100.125, -3.5, rng.randint(0, 400) / 16]) for _ in range(3)]
                    cmds.append('neigh 0 %d %r %r %r' % (rid, *p))
                    t = Table()
                    for a, b in zip(('distance', 'azimuth', 'elevation'), p):
                        t.put(a, F(b))
                    m = dict(m)
                    m[rid] = t
            env['neighbors'] = m
            g.m = m
            g.lim = rng.randint(0, 9)
            g.loc = {}
            st = g.stmts(rng.randint(2, 9))
            txt += 'function step%d(l) {\n lim = l\n %s\n}\n' % (s, '\n '.join(a for a, _ in st))
            env.trace = []
            for _, f in st:
                f(env)
            want.append(env.trace)
            cmds += ['call 0 step%d i:%d' % (s, g.lim), 'stat 0']
            if rng.random() < .3:
                cmds.append('gcnow 0')
        out.append(Case(cmds, {'p.bzz': txt}, oracle, info=want))
    return out


STAGES = [Stage('histories', gen, 80, 4000, per=40)]
