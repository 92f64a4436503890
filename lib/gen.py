"""Random Buzz programs (see lang.py for the abstract syntax)."""
import random
from lang import *

INTS = [0, 1, 2, 3, 5, 7, -1, -2, -7, 10, 31, 32, 33, 100, 255, 256, 1000, 65535, 65536, 2147483647, -2147483647, 1073741824]
FLTS = ['0.0', '1.0', '0.5', '2.5', '3.25', '-1.5', '100.125', '0.1', '1000000.0', '-0.25', '7.0', '16777216.0']
STRS = ['', 'a', 'b', 'abc', 'abd', 'hello', '5', '5.000000', '-7', 'x y', 'A', 'zz', 'a"b', "it's", 'tab\there', 'nl\nx', 'back\\slash', '#notcomment', '}{', '100', 'end\\', '\\', '\\n', '\\"', 'a\n\nb\n']
GNAMES = ['g%d' % i for i in range(8)]
LNAMES = ['v%d' % i for i in range(12)]


class Fn:
    def __init__(self, name, ptypes, ret):
        self.name, self.ptypes, self.ret = name, ptypes, ret


class Gen:
    def __init__(self, rng, err=0.0, size=25, side=True, floats=True):
        self.r = rng
        self.err = err            # chance of a deliberately ill-typed operand
        self.size = size
        self.gl = {}              # name -> type
        self.fns = []
        self.side = side
        self.floats = floats
        self.loopn = 0
        self.inloop = 0
        self.counters = set()

    # --- scopes: list of dicts name -> type (locals); [] at top level
    def locs(self, env, t):
        return [n for s in env for n, ty in s.items() if ty == t]

    def vars(self, env, t):
        vis = {n for s in env for n in s}
        return self.locs(env, t) + [n for n, ty in self.gl.items() if ty == t and n not in vis]

    def fresh(self, env):
        vis = {n for s in env for n in s}
        c = [n for n in LNAMES + GNAMES[:3] if n not in vis]
        return self.r.choice(c) if c else None

    def pick(self, l):
        return self.r.choice(l)

    # --- expressions
    def any(self, env, d):
        return self.ex(self.pick('iiifsnto'), env, d)

    def ex(self, t, env, d=3):
        r = self.r
        if self.err and r.random() < self.err:
            t = self.pick('ifsntoc')
        return getattr(self, 'e_' + t)(env, d)

    def e_n(self, env, d):
        return ('nil',)

    def e_c(self, env, d):
        """a closure int -> int"""
        r = self.r
        vs = self.vars(env, 'c')
        if vs and r.random() < .5:
            return ('var', self.pick(vs))
        fs = [f for f in self.fns if f.ptypes == ['i'] and f.ret == 'i' and f.name not in {n for s in env for n in s}]
        if fs and r.random() < .3:
            return ('var', self.pick(fs).name)
        return self.lam(env, ['i'], 'i', d)

    def ob(self):
        """An object whose methods are reached in every way the language has."""
        v = lambda n: ('var', n)
        self.chain = True
        return [['set', v('OB'), ('tab', [('x', ('int', 4)), ('m', ('lam', ['a'], [['ret', ('bin', '+', ('dot', v('self'), 'x'), v('a'))]])),
                                          ('mk', ('lam', ['a'], [['ret', ('lam', ['b'], [['ret', ('bin', '-', v('a'), v('b'))]])]])),
                                          ('z', ('lam', [], [['ret', ('lam', [], [['ret', ('int', 7)]])]])),
                                          ('t', ('tab', [('y', ('int', 3)), ('n', ('lam', ['a', 'b'], [['ret', ('bin', '+', ('bin', '*', ('dot', v('self'), 'y'), v('a')), v('b'))]]))])),
                                          ('g', ('lam', ['a'], [['ret', ('dot', v('OB'), 't')]])),
                                          ('0', ('lam', ['a'], [['ret', ('bin', '-', v('a'), ('int', 1))]])),
                                          ('1', ('lam', ['a'], [['ret', ('bin', '*', v('a'), ('dot', v('self'), 'x'))]]))])]]

    def e_chain(self, env, d):
        r = self.r
        i = lambda: self.ex('i', env, d - 1)
        OB = ('var', 'OB')
        at = lambda b, k: ('dot', b, k) if r.random() < .5 else ('idx', b, ('str', k))
        k = r.randrange(8)
        if k == 0:
            return ('call', at(OB, 'm'), [i()])
        if k == 1:
            return ('call', ('call', at(OB, 'mk'), [i()]), [i()])
        if k == 2:
            return ('call', ('call', at(OB, 'z'), []), [])
        if k == 3:
            return at(at(OB, 't'), 'y')
        if k == 4:
            return ('call', at(at(OB, 't'), 'n'), [i(), i()])
        if k == 5:
            return ('call', at(('call', at(OB, 'g'), [i()]), 'n'), [i(), i()])
        if k == 6:
            return at(('call', at(OB, 'g'), [i()]), 'y')
        return ('call', ('idx', OB, ('bin', '&', i(), ('int', 1))), [i()])

    def lam(self, env, ptypes, ret, d):
        vis = {n for s in env for n in s}
        c = [n for n in ['p', 'q', 'w', 'k', 'u', 'h'] if n not in vis]
        if len(c) < len(ptypes):
            c = c + ['p%d' % i for i in range(50) if 'p%d' % i not in vis]
        ps = self.r.sample(c[:6], len(ptypes)) if len(c) >= len(ptypes) else c
        if vis and self.r.random() < .3:
            # parameters that hide variables of the enclosing functions
            for i in range(len(ps)):
                h = self.pick(sorted(vis))
                if self.r.random() < .6 and h not in ps and h != 'self':
                    ps[i] = h
        e2 = [{n: t for n, t in s.items() if n not in ps} for s in env] + [dict(zip(ps, ptypes))]
        body = []
        save, self.inloop = self.inloop, 0
        if d > 1 and self.r.random() < .4:
            body += self.stats(e2 + [{}], self.r.randint(1, 2), d - 2, infun=True)
            # declared locals are not visible to the final return, on purpose
        body.append(['ret', self.ex(ret, e2, d - 1)])
        self.inloop = save
        return ('lam', ps, body)

    def e_i(self, env, d):
        r = self.r
        vs = self.vars(env, 'i')
        if d <= 0 or r.random() < .25:
            if vs and r.random() < .75:
                return ('var', self.pick(vs))
            n = self.pick(INTS) if r.random() < .5 else r.randint(-20, 20)
            return ('int', n)
        k = r.random()
        if k < .34:
            op = self.pick(['+', '-', '*', '+', '-', '*', '/', '%'])
            a = self.ex('i', env, d - 1)
            if op in '/%' and r.random() < .93:
                b = ('int', self.pick([1, 2, 3, 5, 7, 16, -1, -2, -3, 100])) if r.random() < .6 else ('bin', '|', self.ex('i', env, d - 2), ('int', 1))
            else:
                b = self.ex('i', env, d - 1)
            return ('bin', op, a, b)
        if k < .44:
            return ('bin', self.pick(['&', '|', '<<', '>>']), self.ex('i', env, d - 1), self.ex('i', env, d - 1))
        if k < .50:
            return ('bnot', self.ex('i', env, d - 1)) if r.random() < .5 else ('un', '-', self.ex('i', env, d - 1))
        if k < .62:
            return self.cond(env, d - 1)
        if k < .72:
            ts = self.vars(env, 't')
            if ts:
                # an element that exists or not: guarded by the table size idiom, or read through a default
                t = self.pick(ts)
                return ('call', ('var', 'size'), [('var', t)])
            return self.e_i(env, d - 1)
        if k < .80 and r.random() < .3:
            return self.e_chain(env, d)
        if k < .80:
            os_ = self.vars(env, 'o')
            if os_:
                o = ('var', self.pick(os_))
                if r.random() < .3:
                    return ('call', ('dot', o, 'm') if r.random() < .6 else ('idx', o, ('str', 'm')), [self.ex('i', env, d - 1)])
                return ('dot', o, 'x') if r.random() < .6 else ('idx', o, ('str', 'x'))
            return self.e_i(env, d - 1)
        if k < .92:
            fs = [f for f in self.fns if f.ret == 'i' and f.name not in {n for s in env for n in s}]
            if fs and self.inloop < 2:
                f = self.pick(fs)
                return ('call', ('var', f.name), [self.ex(t, env, d - 1) for t in f.ptypes])
            cs = self.vars(env, 'c')
            if cs:
                return ('call', ('var', self.pick(cs)), [self.ex('i', env, d - 1)])
            return self.e_i(env, d - 1)
        if k < .96:
            return ('call', ('var', 'int'), [self.ex('f', env, d - 1)])
        if k < .98:
            cs = self.vars(env, 'c')
            if cs:
                return ('call', ('var', 'ccall'), [('var', self.pick(cs)), self.ex('i', env, d - 1)])
        return ('call', ('var', 'cfirst'), [self.ex('i', env, d - 1)])

    def cond(self, env, d):
        r = self.r
        k = r.random()
        if k < .55 or d <= 0:
            t = self.pick('iiiffs')
            a, b = self.ex(t, env, d - 1), self.ex(t, env, d - 1)
            if r.random() < .15:
                b = self.ex(self.pick('ifsn'), env, d - 1)
                if a[0] == 'tab' or b[0] == 'tab':
                    b = ('nil',)
            return ('cmp', self.pick(['==', '!=', '<', '<=', '>', '>=']), a, b)
        if k < .75:
            return ('log', self.pick(['and', 'or']), self.truth(env, d - 1), self.truth(env, d - 1))
        if k < .85:
            return ('not', self.truth(env, d - 1))
        if k < .93:
            return ('cmp', self.pick(['==', '!=']), self.any(env, d - 1), ('nil',))
        return ('call', ('var', 'is' + self.pick(['nil', 'int', 'float', 'string', 'table', 'closure'])), [self.any(env, d - 1)])

    def truth(self, env, d):
        """Any value is a condition: only nil and the integer 0 are false."""
        if self.r.random() < .2:
            x = self.any(env, d - 1)
            if x[0] not in ('tab', 'lam'):
                return x
        return self.cond(env, d)

    def e_f(self, env, d):
        r = self.r
        vs = self.vars(env, 'f')
        if d <= 0 or r.random() < .3:
            if vs and r.random() < .7:
                return ('var', self.pick(vs))
            return ('flt', self.pick(FLTS))
        k = r.random()
        if k < .6:
            op = self.pick(['+', '-', '*', '+', '-', '*', '/', '%'])
            a, b = self.ex('f', env, d - 1), self.ex(self.pick('fi'), env, d - 1)
            if r.random() < .3:
                a, b = b, a
            if a[0] != 'flt' and b[0] != 'flt' and op in '/%':
                b = ('flt', self.pick(['2.0', '0.5', '-3.0', '4.0']))
            return ('bin', op, a, b)
        if k < .7:
            base = ('bin', '%', self.ex('i', env, d - 1), ('int', self.pick([3, 5, 7])))
            return ('bin', '^', base, ('int', r.randint(0, 4)))
        if k < .75:
            return ('bin', '^', ('int', 2), ('bin', '^', ('int', r.randint(0, 2)), ('int', r.randint(0, 3))))
        if k < .85:
            os_ = self.vars(env, 'o')
            if os_:
                return ('dot', ('var', self.pick(os_)), 'y')
        if k < .93:
            return ('un', '-', self.ex('f', env, d - 1))
        return ('call', ('var', 'float'), [self.ex('i', env, d - 1)])

    def e_s(self, env, d):
        r = self.r
        vs = self.vars(env, 's')
        if vs and r.random() < .5:
            return ('var', self.pick(vs))
        if d > 0 and r.random() < .2:
            return ('call', ('var', 'type'), [self.any(env, d - 1)])
        os_ = self.vars(env, 'o')
        if os_ and r.random() < .2:
            return ('dot', ('var', self.pick(os_)), 's')
        return ('str', self.pick(STRS))

    def e_t(self, env, d):
        """a table int/float/string -> int"""
        r = self.r
        vs = self.vars(env, 't')
        if vs and r.random() < .6:
            t = ('var', self.pick(vs))
            if d > 1 and r.random() < .35:
                k = r.random()
                if k < .3:
                    return ('call', ('var', 'clone'), [t])
                if k < .6:
                    return ('call', ('var', 'map'), [t, self.lam(env, ['a', 'i'], 'i', 1)])
                return ('call', ('var', 'filter'), [t, self.lam(env, ['a', 'i'], 'i', 1)])
            return t
        ks = []
        es = []
        for _ in range(r.randint(0, 4)):
            k = self.pick(['a', 'b', 'k1', '1', '2', '3', '7', '2.5', '12'])
            if k in ks:
                continue
            ks.append(k)
            es.append((k, self.ex('i', env, d - 2)))
        return ('tab', es)

    def e_a(self, env, d):
        return self.key(env, d)

    def key(self, env, d):
        r = self.r
        k = r.random()
        if k < .5:
            return ('int', r.randint(-3, 12))
        if k < .7:
            return ('str', self.pick(['a', 'b', 'k1', 'x', '5', '']))
        if k < .8:
            return ('flt', self.pick(['1.0', '2.5', '-3.0', '0.0', '7.0', '2.0']))
        return ('bin', '%', self.ex('i', env, min(d, 1)), ('int', 9))

    def e_o(self, env, d):
        """an object with fields x int, y float, s string, m method"""
        r = self.r
        vs = self.vars(env, 'o')
        if vs and r.random() < .6:
            o = ('var', self.pick(vs))
            return ('call', ('var', 'clone'), [o]) if r.random() < .15 else o
        e2 = [dict(s) for s in env]
        vis = {n for s in env for n in s}
        p = self.pick(sorted(vis - {'self'})) if vis - {'self'} and r.random() < .15 else next(n for n in ['z', 'z1', 'z2', 'z3', 'z4', 'z5', 'z6', 'z7', 'z8', 'z9'] if n not in vis)
        e2 = [{n: t for n, t in s.items() if n != p} for s in env]
        body = []
        if r.random() < .6:
            body.append(['set', ('dot', ('var', 'self'), 'x'), ('bin', '+', ('dot', ('var', 'self'), 'x'), ('var', p))])
        body.append(['ret', ('bin', self.pick(['+', '-', '*']), ('dot', ('var', 'self'), 'x'), self.ex('i', e2 + [{p: 'i'}], 1))])
        save, self.inloop = self.inloop, 0
        m = ('lam', [p], body)
        self.inloop = save
        es = [('x', self.ex('i', env, d - 2)), ('y', self.ex('f', env, d - 2)), ('s', self.ex('s', env, 1)), ('m', m)]
        r.shuffle(es)
        return ('tab', es)

    # --- statements
    def stats(self, env, n, d, infun=False, ret=None):
        out = []
        for _ in range(n):
            s = self.stat(env, d, infun, ret)
            if s:
                out += s
        return out

    def stat(self, env, d, infun, ret):
        r = self.r
        k = r.random()
        if k < .22:
            t = self.pick('iiifsstoc')
            if env:
                n = self.fresh(env)
                if n is None:
                    return None
                env[-1][n] = 'undef'
                e = self.ex(t, env, 3)
                env[-1][n] = t
                return [['var', n, e]]
            c = [n for n in GNAMES if n not in self.gl]
            if not c:
                return self.assign(env, d)
            n = self.pick(c)
            e = self.ex(t, env, 3)
            self.gl[n] = t
            return [['var', n, e]] if r.random() < .5 else [['set', ('var', n), e]]
        if k < .45:
            return self.assign(env, d)
        if k < .62:
            return [['expr', ('call', ('var', 'trace'), [self.any(env, 3) for _ in range(r.randint(1, 3))])]]
        if k < .72 and d > 0:
            c = self.truth(env, 2)
            a = self.stats(env + [{}], r.randint(0, 3), d - 1, infun, ret)
            b = self.stats(env + [{}], r.randint(0, 3), d - 1, infun, ret) if r.random() < .5 else None
            return [['if', c, a, b]]
        if k < .82 and d > 0 and self.inloop < 2:
            return self.loop(env, d, infun, ret)
        if k < .86 and d > 0:
            return self.iterate(env)
        if k < .89 and infun and ret:
            return [['if', self.truth(env, 1), [['ret', self.ex(ret, env, 2)]], None]]
        if k < .93:
            os_ = self.vars(env, 'o')
            if os_:
                return [['expr', ('call', ('dot', ('var', self.pick(os_)), 'm'), [self.ex('i', env, 2)])]]
        if k < .96:
            return [['expr', ('call', ('var', 'gc'), [])]]
        fs = [f for f in self.fns if f.name not in {n for s in env for n in s}]
        if fs and self.inloop < 2:
            f = self.pick(fs)
            return [['expr', ('call', ('var', f.name), [self.ex(t, env, 2) for t in f.ptypes])]]
        return self.assign(env, d)

    def loop(self, env, d, infun, ret):
        r = self.r
        n = self.fresh(env) if env else None
        self.loopn += 1
        lim = r.randint(1, 5)
        self.inloop += 1
        try:
            if env:
                if n is None:
                    return None
                env[-1][n] = 'cnt'
                init = ['var', n, ('int', 0)]
                v = ('var', n)
            else:
                nm = 'lc%d' % self.loopn
                init = ['set', ('var', nm), ('int', 0)]
                v = ('var', nm)
            inc = ['set', v, ('bin', '+', v, ('int', 1))]
            c = ('cmp', '<', v, ('int', lim))
            pre = []
            if r.random() < .2:
                # the loop ends at the first false value of a list
                tn = 'lz%d' % self.loopn
                pre = [['set', ('var', tn), ('tab', [(i, self.pick([('flt', '0.5'), ('flt', '0.0'), ('str', ''), ('str', 'x'), ('int', 2), ('int', -1)]))
                                                     for i in range(lim)] + ([(lim, ('int', 0))] if r.random() < .5 else []))]]
                c = ('idx', ('var', tn), v)
            elif r.random() < .3:
                c = ('log', 'and', c, self.cond(env, 1))
            body = self.stats(env + [{}], r.randint(1, 3), d - 1, infun, ret)
            if r.random() < .4:
                body.append(['expr', ('call', ('var', 'trace'), [('str', 'loop'), v])])
            if r.random() < .5:
                return pre + [init, ['while', c, body + [inc]]]
            if env:
                return pre + [init, ['for', ['set', v, ('int', 0)], c, inc, body]]
            return pre + [['for', init, c, inc, body]]
        finally:
            self.inloop -= 1

    def assign(self, env, d):
        r = self.r
        k = r.random()
        if k < .3:
            ts = self.vars(env, 't')
            if ts:
                t = ('var', self.pick(ts))
                key = self.key(env, 2)
                lv = ('dot', t, key[1]) if key[0] == 'str' and key[1].isalnum() and not key[1][0].isdigit() and r.random() < .7 else ('idx', t, key)
                if r.random() < .2:
                    return [['set', lv, ('nil',)]]
                return [['set', lv, self.ex('i', env, 2)]]
        if k < .45:
            os_ = self.vars(env, 'o')
            if os_:
                o = ('var', self.pick(os_))
                f, t = self.pick([('x', 'i'), ('y', 'f'), ('s', 's')])
                return [['set', ('dot', o, f), self.ex(t, env, 2)]]
        t = self.pick('iiifsstoc')
        vs = [v for v in self.vars(env, t)]
        if not vs:
            return None
        return [['set', ('var', self.pick(vs)), self.ex(t, env, 3)]]

    def iterate(self, env):
        """foreach/reduce with effects that do not depend on the order"""
        r = self.r
        ts = self.vars(env, 't')
        if not ts:
            return None
        t = ('var', self.pick(ts))
        vis = {n for s in env for n in s}
        p = [n for n in ['fk', 'fv', 'fa', 'fk2', 'fv2', 'fa2', 'fk3', 'fv3', 'fa3', 'fk4', 'fv4', 'fa4', 'fk5', 'fv5', 'fa5'] if n not in vis][:3]
        k = r.random()
        if k < .5:
            f = ('lam', p, [['ret', ('bin', '+', ('var', p[2]), ('bin', '*', ('var', p[1]), ('int', r.randint(1, 9))))]])
            return [['expr', ('call', ('var', 'trace'), [('call', ('var', 'reduce'), [t, f, ('int', r.randint(0, 9))])])]]
        f = ('lam', p[:2], [['set', ('dot', ('var', 'ACC'), 'n'), ('bin', '+', ('dot', ('var', 'ACC'), 'n'), ('bin', '-', ('var', p[1]), ('int', 3)))]])
        return [['set', ('var', 'ACC'), ('tab', [('n', ('int', 0))])],
                ['expr', ('call', ('var', 'foreach'), [t, f])],
                ['expr', ('call', ('var', 'trace'), [('dot', ('var', 'ACC'), 'n')])]]

    def program(self):
        r = self.r
        out = []
        nf = r.randint(0, 4)
        decl = []
        for i in range(nf):
            pt = [self.pick('iifso') for _ in range(r.randint(0, 3))]
            decl.append(Fn('fn%d' % i, pt, self.pick('iifst')))
        # functions may call only earlier ones (no unbounded recursion); globals by name
        bodies = []
        n = self.size
        pre = self.ob() + self.stats([], n // 4, 2)
        for f in decl:
            ps = ['a%d' % i for i in range(len(f.ptypes))]
            env = [dict(zip(ps, f.ptypes)), {}]
            b = self.stats(env, r.randint(1, 5), 2, True, f.ret)
            b.append(['ret', self.ex(f.ret, env, 2)])
            bodies.append(['fun', f.name, ps, b])
            self.fns.append(f)
        if r.random() < .3:
            fr = Fn('rec', ['i'], 'i')
            op = self.pick(['+', '*', '-'])
            bodies.append(['fun', 'rec', ['n'], [['if', ('cmp', '<=', ('var', 'n'), ('int', 0)), [['ret', ('int', r.randint(0, 3))]], None],
                                                 ['ret', ('bin', op, ('var', 'n'), ('call', ('var', 'rec'), [('bin', '-', ('var', 'n'), ('int', r.randint(1, 2)))]))]]])
            pre.append(['expr', ('call', ('var', 'trace'), [('call', ('var', 'rec'), [('int', r.randint(0, 12))])])])
        post = self.stats([], n - n // 4, 3)
        end = [['expr', ('call', ('var', 'trace'), [('str', 'end')] + [('var', g) for g in sorted(self.gl)])]]
        self.bodies = bodies
        if r.random() < .5:
            return pre + bodies + post + end
        return pre + post + bodies + end


def make(rng, err=0.0, size=25):
    """A program with the events it must produce: (stats, text, spans, events, error, globals-interp)."""
    for _ in range(50):
        g = Gen(rng, err, size)
        p = g.program()
        try:
            runs = []
            longest = [0]

            def plain(l):
                longest[0] = max(longest[0], len(l))
                return l

            def shuffled(seed):
                x = random.Random(seed)
                return lambda l: x.sample(l, len(l))
            for o in [plain, lambda l: l[::-1], lambda l: l[1::2] + l[::2], lambda l: l[1:] + l[:1]] + [shuffled(k) for k in range(12)]:
                it = Interp(fuel=60000, order=o)
                e = it.run(p)
                runs.append((it.events, e.code if e else None))
                if longest[0] < 2 or runs[-1] != runs[0]:
                    break
        except (TooLong, Unknown):
            continue
        if any(r != runs[0] for r in runs):
            continue    # depends on the order of iteration, which is unspecified
        txt, spans = program_text(p, rng)
        return p, txt, spans, it.events, e, it, g
    raise RuntimeError('no program')


def big(rng):
    """Programs that are large in one or two directions: locals, names, constants, parameters, depth, length of a line."""
    V = lambda n: ('var', n)
    I = lambda n: ('int', n)
    tr = lambda *a: ['expr', ('call', V('trace'), list(a))]
    add = lambda a, b: ('bin', rng.choice('+-') if rng.random() < .8 else '|', a, b)
    p = [['set', V('acc'), I(1)]]

    def chain(xs):
        e = xs[0]
        for x in xs[1:]:
            e = add(e, x)
        return e

    def f_locals(u):
        n = rng.choice([20, 66, 130, 258, rng.randint(2, 500)])
        b, live = [], ['a']
        for i in range(n):
            v = 'v%d' % i
            b.append(['var', v, add(V(rng.choice(live[-3:] + live[:3])), I(rng.randint(0, 9)))])
            live.append(v)
            if rng.random() < .1:
                b.append(['var', 't%d' % i, ('tab', [('x', V(v)), ('f', ('lam', ['q'], [['ret', ('bin', '+', V('q'), I(i))]]))])])
                b.append(['var', 'c%d' % i, ('lam', ['q'], [['ret', ('bin', '-', V('q'), V(v))]])])
                b.append(tr(('dot', V('t%d' % i), 'x'), ('idx', V('t%d' % i), ('str', 'x')), ('call', ('dot', V('t%d' % i), 'f'), [I(1)]), ('call', V('c%d' % i), [I(5)])))
                b.append(['set', ('dot', V('t%d' % i), 'x'), ('call', V('c%d' % i), [V(rng.choice(live))])])
                b.append(['set', V(v), ('dot', V('t%d' % i), 'x')])
            if rng.random() < .05:
                m = rng.randint(1, 40)
                in_ = [['var', 'w%d' % j, add(V(rng.choice(live)), I(j))] for j in range(m)]
                in_.append(['set', V(rng.choice(live)), chain([V('w%d' % rng.randrange(m)) for _ in range(4)])])
                b.append(['if', ('cmp', rng.choice(['>', '!=']), V(rng.choice(live)), I(3)), in_, None])
            if rng.random() < .05:
                b.append(['set', V(rng.choice(live)), chain([V(x) for x in rng.sample(live, min(5, len(live)))])])
        keep = chain([V('q')] + [V(x) for x in rng.sample(live, min(12, len(live)))])
        b.append(['set', V('keep'), ('lam', ['q'], [['ret', keep]])])
        for i in range(0, len(live), 40):
            b.append(tr(*[V(x) for x in live[i:i + 40]]))
        b.append(['ret', chain([V(x) for x in rng.sample(live, min(30, len(live)))])])
        return [['fun', 'fl%d' % u, ['a'], b], tr(('call', V('fl%d' % u), [I(rng.randint(-5, 5))])), tr(('call', V('keep'), [I(3)]))]

    def f_names(u):
        n = rng.choice([70, 258, 300, 1100, 2600])
        out = [['set', V('gl%d_%d' % (u, i)), I(i) if rng.random() < .5 else ('str', 'val%d' % i)] for i in range(n)]
        pick = [rng.randrange(n) for _ in range(60)] + [0, n - 1]
        for i in range(0, len(pick), 20):
            out.append(tr(*[V('gl%d_%d' % (u, x)) for x in pick[i:i + 20]]))
        return out

    def f_params(u):
        n = rng.choice([10, 40, 129, 260])
        ps = ['p%d' % i for i in range(n)]
        b = [tr(*[V(x) for x in rng.sample(ps, min(n, 20))]), ['ret', chain([V(x) for x in ps])]]
        return [['fun', 'fp%d' % u, ps, b], tr(('call', V('fp%d' % u), [I(rng.randint(-99, 99)) for _ in ps])), tr(*[I(i) for i in range(n)])]

    def f_line(u):
        n = rng.choice([50, 300, 900])
        return [tr(chain([I(rng.randint(0, 9)) if rng.random() < .7 else V('acc') for _ in range(n)]))]

    def f_deep(u):
        n = rng.choice([5, 30, 100])
        e = V('acc')
        for i in range(n):
            k = rng.randrange(5)
            e = ('bin', '*', ('bin', '-', I(i), e), I(rng.choice([1, 2, -1]))) if k == 0 else ('un', '-', e) if k == 1 else ('bnot', e) if k == 2 else ('call', ('lam', ['z'], [['ret', V('z')]]), [e]) if k == 9 else add(I(1), e)
        m = rng.choice([3, 20, 60])
        b = [['set', V('acc'), ('bin', '+', V('acc'), V('d%d' % (m - 1)))]]
        for i in reversed(range(m)):
            b = [['var', 'd%d' % i, I(i) if i == 0 else ('bin', '+', V('d%d' % (i - 1)), I(1))],
                 ['if', ('cmp', '>=', V('d%d' % i), I(0)), b, [tr(('str', 'never'))] if rng.random() < .5 else None], tr(V('d%d' % i))]
        return [tr(e), ['fun', 'fd%d' % u, [], b], ['expr', ('call', V('fd%d' % u), [])], tr(V('acc'))]

    def f_table(u):
        n = rng.choice([30, 257, 1000])
        es = [('k%d' % i if rng.random() < .5 else str(i), I(i) if rng.random() < .8 else ('str', 's%d' % i)) for i in range(n)]
        t = ('tab', [('leaf', I(5))])
        m = rng.choice([3, 40])
        for _ in range(m):
            t = ('tab', [('n', t)])
        q = V('TD%d' % u)
        for _ in range(m):
            q = ('dot', q, 'n')
        out = [['set', V('TB%d' % u), ('tab', es)], ['set', V('TD%d' % u), t], tr(('call', V('size'), [V('TB%d' % u)]), ('dot', q, 'leaf'))]
        for k, x in rng.sample(es, 20):
            out.append(tr(('idx', V('TB%d' % u), ('str', k) if k[0] == 'k' else I(int(k)))))
        return out

    def f_else(u):
        n = rng.choice([5, 40, 120])
        b = [['ret', I(-1)]]
        for i in reversed(range(n)):
            b = [['if', ('cmp', '==', V('x'), I(i)), [['ret', I(i * 3)]], b]]
        return [['fun', 'fe%d' % u, ['x'], b], tr(*[('call', V('fe%d' % u), [I(x)]) for x in (0, n // 2, n - 1, n)])]

    def f_text(u):
        s = ''.join(rng.choice('abc xyz#\\"\'\n') for _ in range(rng.choice([300, 2000, 20000])))
        nm = 'n' + ''.join(rng.choice('abc_1') for _ in range(rng.choice([100, 600])))
        return [['set', V(nm), ('str', s)], tr(V(nm)), ['set', V(nm + 'x'), I(1)], ['set', V(nm[:-1]), I(2)], tr(V(nm), V(nm + 'x'), V(nm[:-1]))]

    def f_funs(u):
        n = rng.choice([20, 300])
        out = [['fun', 'ff%d_%d' % (u, i), ['x'], [['ret', ('bin', '+', V('x'), I(i)) if i == 0 or rng.random() < .6 else ('call', V('ff%d_%d' % (u, rng.randrange(max(0, i - 5), i))), [add(V('x'), I(1))])]]]
               for i in range(n)]
        return out + [tr(*[('call', V('ff%d_%d' % (u, rng.randrange(n))), [I(3)]) for _ in range(10)])]

    for u in range(rng.randint(1, 3)):
        p += rng.choice([f_locals, f_locals, f_names, f_params, f_line, f_deep, f_table, f_else, f_text, f_funs])(u)
    p.append(tr(('str', 'end'), V('acc')))
    it = Interp(fuel=200000)
    e = it.run(p)
    txt, spans = program_text(p, rng)
    return txt, it.events, e
