"""B21: debug information and breakpoints."""
import os, re, struct
import lang
from gen import make
from run import Case, Direct, Skip, Stage, parse
from util import *
import b20

RULE = ('Generated programs run under the debugger with random sets of breakpoints that change while stopped: the stops must be exactly the visits of those instructions in a run executed instruction by instruction, with the same effects, '
        'values and outcome; calls with breakpoints are compared with the calls that stop everywhere. The debug information must map every constant of the source (several files, comments, layouts) to its line and column, survive the debug file, and map each position '
        'back to its first instruction. Empty lines and spaces before a program (up to 140000) must move every position by exactly that much. Non-trivial: at least one stop or position was observed.')
ASSUMPTIONS = ['callbacks that C functions execute inside one instruction do not stop']

EXTRA = '''
function dbg_f(a, b) {
  var s = 0
  var i = 0
  while(i < b) { s = s + a i = i + 1 trace(i, s) }
  return s
}
function dbg_g(a) {
  if(a > 2) { return dbg_f(a, 2) + dbg_g(a - 1) }
  trace("leaf", a)
  return a
}
function dbg_t(a) { var t = {.x = a, .m = function(k) { trace(k) return self.x + k }} return t.m(4) * 2 }
function dbg_n(a) { foreach({.a = 1, .b = 2}, function(k, v) { dbg_s = v }) }
function dbg_e(a) { trace(1) return a + nil }
'''


def gen_run(rng, n):
    out = []
    while len(out) < n:
        p, txt, spans, want, e, it, g = make(rng, rng.choice([0, .03]), rng.choice([5, 10, 20]))
        S = rng.randint(0, 10**6)
        cmds = ['compile 0 @p.bzz', 'gcmode %d' % rng.choice([0, 1, 7]), 'new 0 0 0', 'steps 0 20000', 'new 1 0 0']
        plan = []

        def do(c):
            cmds.append(c)
            plan.append(c)
        first = True
        for _ in range(rng.choice([1, 1, 2, 4])):
            do('bp 1 rand %d %d' % (S, rng.choice([5, 50, 200, 1000])))
            S += 1
            for _ in range(rng.choice([1, 3])):
                do('cont 1 %d%s' % (rng.choice([1, 1, 2, 10]), ' 0' if first else ''))
                first = False
                if rng.random() < .3:
                    cmds.append('dump 1')
                if rng.random() < .5:
                    do('bp 1 del %d' % rng.randint(0, 50))
            if rng.random() < .3:
                do('bp 1 clear')
        do('cont 1 100000')
        do('cont 1 1')
        cmds += ['stat 1', 'dbginfo 0', 'dbginfo 0 @d.bdb']
        out.append(Case(cmds, {'p.bzz': txt, 'd.bdb': ''}, oracle_run, key=(txt, cmds), info=plan))
    return out


def oracle_run(ev, c):
    q = [t[2] for t in parse(ev) if t[0] == 'Q']
    ref = q.pop(0)
    if ref['state'] == 'ready':
        raise Skip()
    T = [[t[2] for t in parse(ev) if t[0] == 'T' and t[1] == i] for i in (0, 1)]
    steps, pos = ref['steps'], 0     # pos: next step to execute
    bps, stopped, over = [], False, False
    for cmd in c.info:
        w = cmd.split()
        d = q.pop(0)
        while 'dump' in d:
            m = checkdump(d, c)
            if m:
                return m
            d = q.pop(0)
        if w[0] == 'bp':
            if w[2] == 'clear':
                bps = []
            elif w[2] == 'del':
                if bps:
                    bps.pop(int(w[3]) % len(bps))
            else:
                new = d['bps'][len(bps):]
                if set(new) & set(bps) or len(set(new)) != len(new) or not set(new) <= {s[0] for s in steps}:
                    return 'breakpoints %r after adding to %r' % (d['bps'], bps)
                bps += new
            if d['bps'] != bps:
                return '%s: the breakpoints are %r, expected %r' % (cmd, d['bps'], bps)
            continue
        want = []
        if not over:
            B = set(bps)
            for _ in range(int(w[2])):
                k = pos + (1 if stopped else 0)
                while k < len(steps) and steps[k][0] not in B:
                    k += 1
                pos = k
                stopped = k < len(steps)
                if not stopped:
                    over = True
                    break
                want.append(steps[k])
        got = d['stops'][1:]
        c.note('stops', len(got))
        if got != want:
            return '%s with breakpoints %r: stops %r, expected %r' % (cmd, bps, got[:10], want[:10])
        st = ref['state'] if over else 'stopped'
        if d['state'] != st:
            return '%s: state %s, expected %s' % (cmd, d['state'], st)
        if over and d['traces'] != ref['traces']:
            return '%d traces, expected %d' % (d['traces'], ref['traces'])
    if T[0] != T[1]:
        return 'the run with breakpoints traced %r, without %r' % (T[1][:5], T[0][:5])
    while 'dump' in q[0]:
        q.pop(0)
    return info(q, c)


def info(q, c):
    if len(q) != 2:
        return 'debug information was not printed'
    a = sorted(q[0]['info'][:-1])
    c.note('positions', len(a))
    if len(a) != q[0]['count'] or len({x[0] for x in a}) != len(a):
        return 'count %r for %d positions' % (q[0]['count'], len(a))
    first = {}
    for off, ln, col, f, back, bad in a:
        first.setdefault((ln, col, f), off)
    for off, ln, col, f, back, bad in a:
        if back != first[(ln, col, f)] or bad:
            return 'position %r is mapped to offset %d, the first instruction there is %d' % ((ln, col, f), back, first[(ln, col, f)])
    if sorted(q[1]['info'][:-1]) != a:
        return 'the debug information changed when written to and read from a file'
    return None


def checkdump(d, c):
    L = [l for l in d['dump'].split('\n') if re.match(r'\t\d+\t', l)]
    c.note('dumps')
    if 'pc: %d\n' % d['pc'] not in d['dump'] or len(L) != len(d['stack']):
        return 'the dump %r does not show the stack %r' % (d['dump'][:500], d['stack'])
    for l in L:
        _, i, t = l.split('\t', 2)
        v = lang.norm(d['stack'][int(i)])
        w = '[nil]' if v is None else '[int] %d' % v if isinstance(v, int) else None
        if w is not None and t != w or isinstance(v, tuple) and v[0] == 'f' and not t.startswith('[float] ') or isinstance(v, tuple) and v[0] == 't' and not t.startswith('[table] %d elements' % len(v[1])):
            return 'the dump shows %r for %r' % (t, v)
    return None


def gen_call(rng, n):
    out = []
    for _ in range(n):
        f, a = rng.choice([('dbg_f', ['i:%d' % rng.randint(-5, 5), 'i:%d' % rng.randint(0, 5)]), ('dbg_g', ['i:%d' % rng.randint(0, 5)]), ('dbg_t', ['i:%d' % rng.randint(-3, 3)]), ('dbg_n', ['i:1']), ('dbg_e', ['i:1']), ('nofun', [])])
        call = 'dcall %%d %s' % ' '.join([f] + a)
        pre = '\n' * rng.randint(0, 3) + rng.choice(['', 'x = 1\n', '# c\n'])
        cmds = ['compile 0 @p.bzz', 'gcmode %d' % rng.choice([0, 1])]
        for i in range(3):
            cmds += ['new %d 0 0' % i, 'run %d' % i]
        cmds += ['bp 0 clear', call % 0, 'bp 1 all', call % 1, 'cont 1 100000', 'bp 1 clear', 'bp 2 pick %d %d' % (rng.randint(0, 10**6), rng.choice([20, 100, 300])), call % 2, 'cont 2 100000', 'call 0 %s' % ' '.join([f] + a), 'stat 0']
        out.append(Case(cmds, {'p.bzz': pre + EXTRA}, oracle_call, key=(pre, cmds), info=(f, a)))
    return out


def oracle_call(ev, c):
    e = parse(ev)
    T = [[t[2] for t in e if t[0] == 'T' and t[1] == i] for i in range(3)]
    q = [t[2] for t in e if t[0] == 'Q' and 'bps' not in t[2]]
    bps = [t[2]['bps'] for t in e if t[0] == 'Q' and 'bps' in t[2]][-1]
    free, c1, s1, c2, s2 = q
    fails = c.info[0] in ('dbg_e', 'nofun')
    k = [t for t in e if t[0] == 'K'][0][2]
    if any(not x['same'] for x in (free, c1, c2)):
        return 'the call returned another state than the robot is in: %r' % [free, c1, c2]
    if c.info[0] == 'nofun':
        if not free['state'] == c1['state'] == c2['state'] == 'error':
            return 'calling an undefined function gave %r' % [free, c1, c2]
        return None
    # without breakpoints: as a plain call
    if free['state'] != ('error' if fails else 'ready'):
        return 'a call without breakpoints ended in state %s' % free['state']
    n = len(T[0]) // (1 if fails else 2)
    if not fails and (free['top'] != k['top'] or T[0][:n] != T[0][n:]):
        return 'a call without breakpoints gave %r and traced %r, a plain call %r and %r' % (free['top'], T[0][:n], k['top'], T[0][n:])
    allst = [c1['call']] + s1['stops'][1:]
    c.note('stops', len(allst))
    if c1['state'] != 'stopped':
        return 'with breakpoints everywhere the call ended in state %s' % c1['state']
    if len(allst) < 4:
        return 'with breakpoints everywhere there were %d stops' % len(allst)
    want = [s for s in allst if s[0] in set(bps)]
    got = ([c2['call']] if c2['state'] == 'stopped' else []) + s2['stops'][1:]
    c.note('stops', len(got))
    if c2['state'] == 'ready' and not fails:
        # the call was completed; continuing executes the end of the script
        want2 = [s for s in allst[-1:] if s[0] in set(bps)]
        if [s for s in got if s not in want2] or [s for s in want if s not in want2]:
            return 'breakpoints %r: stops %r, expected %r' % (bps, got, want)
    elif got != want:
        return 'breakpoints %r: stops %r, expected %r' % (bps, got, want)
    if not T[0][:n] == T[1] == T[2]:
        return 'traces with breakpoints %r and %r, without %r' % (T[1], T[2], T[0])
    for s in (s1, s2):
        if fails:
            if s['state'] != 'error':
                return 'the failing call ended in state %s' % s['state']
        elif s['state'] != 'done' or s['top'] != free['top']:
            return 'with breakpoints the call ended in state %s with %r, without in %r' % (s['state'], s['top'], free['top'])
    return None


# ------------------------------------------------------------ positions of constants

class Src:
    """A source text made of tokens; remembers where each constant is."""
    def __init__(self, rng, start):
        self.rng, self.t, self.line, self.col, self.k, self.at = rng, '', 1, 0, start, {}

    def raw(self, s):
        self.t += s
        n = s.count('\n')
        if n:
            self.line += n
            self.col = len(s) - s.rindex('\n') - 1
        else:
            self.col += len(s)

    def sep(self, nl=True):
        r = self.rng
        x = r.random()
        if nl and x < .15:
            self.raw(r.choice(['\n', '\n\n', '\n   ', ' # a comment\n', '\n# "x\n\t', '\n\t ']))
        elif x < .5:
            self.raw(r.choice([' ', '  ', '\t', ' ', ' ']) if r.random() < .97 else ' ' * r.choice([100, 250, 300, 70000]))

    def tok(self, s, nl=True):
        self.sep(nl)
        self.raw(s)

    def const(self):
        self.sep()
        self.at[self.k] = (self.line, self.col)
        self.raw(str(self.k))
        self.k += 1

    def expr(self, d=2, names=('x',)):
        r = self.rng
        x = r.random()
        if d == 0 or x < .4:
            self.const()
        elif x < .5:
            self.tok(r.choice(names))
        elif x < .7:
            self.tok('(')
            self.expr(d - 1, names)
            self.tok(')')
        elif x < .75:
            self.tok(r.choice(['"a%d"' % r.randint(0, 5), "'it'", '"\\\\"', '"a\n b"', "'\n\n'", '"q\\"\n"', '"x\\\ny"']))
        else:
            self.expr(d - 1, names)
            self.tok(r.choice(['+', '*', '/', '%', '^', '<<', '&', '|']) if x < .9 else '+')
            self.expr(d - 1, names)

    def stat(self, d=2, names=('x',), infun=False):
        r = self.rng
        x = r.random()
        if x < .3:
            self.tok(r.choice(['x', 'y', 'zed']))
            self.tok('=')
            self.expr(2, names)
        elif x < .4:
            self.tok('x')
            self.tok('=')
            self.tok('{')
            self.tok('.a')
            self.tok('=')
            self.expr(1, names)
            self.tok(',')
            self.tok('.b')
            self.tok('=')
            self.expr(1, names)
            self.tok('}')
        elif x < .5:
            self.tok('x')
            self.tok('[')
            self.expr(1, names)
            self.tok(']')
            self.tok('=')
            self.expr(1, names)
        elif x < .6:
            self.tok('trace')
            self.raw('(')
            self.expr(1, names)
            self.tok(',')
            self.expr(1, names)
            self.tok(')')
        elif d and x < .8:
            self.tok(r.choice(['if', 'while']))
            self.tok('(')
            self.expr(1, names)
            self.tok(')')
            self.tok('{')
            self.raw('\n' if r.random() < .6 else ' ')
            for _ in range(r.randint(1, 2)):
                self.stat(d - 1, names)
                self.raw(r.choice(['\n', '\n', '\n\n', ' ; ']))
            self.tok('}')
        elif d:
            self.tok('x')
            self.tok('=')
            self.tok('function')
            self.tok('(')
            self.tok('a')
            self.tok(')')
            self.tok('{')
            self.raw('\n')
            self.stat(d - 1, ('x', 'a'))
            self.raw(r.choice(['\n', ' \n ']))
            if r.random() < .6:
                self.raw('return')
                self.raw(r.choice([' ', '  ']))
                self.raw('(')
                self.expr(1, ('x', 'a'))
                self.tok(')')
                self.raw('\n')
            self.tok('}')
        else:
            self.tok('y')
            self.tok('=')
            self.expr(1, names)


def stage_pos(rng, ctx):
    r = dict(evaluations=0, keys=[], violations=[], notes={'constants located': 0, 'files': 0}, samples=[])
    try:
        cd = b20.codes(ctx)
    except b20.Viol as e:
        r['violations'].append(dict(msg=str(e), replay='$D/bzzasm'))
        r['evaluations'], r['keys'] = 1, ['codes']
        return r
    for _ in range(12):
        r['evaluations'] += 1
        wd = os.path.join(ctx.work, 'd%d' % r['evaluations'])
        os.makedirs(wd)
        k = 100000
        files = {}
        where = {}
        nf = rng.choice([1, 1, 2, 3])
        inc = rng.choice(['inc%d.bzz', 'inc%d.bzz', 'a_rather_long_file_name_that_differs_late_%d.bzz', 'q%d', 'I,%d.bzz', '%d.bzz'])
        for fi in reversed(range(nf)):
            s = Src(rng, k)
            name = 'p.bzz' if fi == 0 else inc % fi
            for _ in range(rng.randint(0, 4)):
                s.stat()
                s.raw(rng.choice(['\n', '\n', '\n\n', '  \n']))
            if fi + 1 < nf:
                s.raw(rng.choice(['', ' ', '\t']) + 'include "' + inc % (fi + 1) + '"' + rng.choice(['\n', ' \n', '\n\n']))
            for _ in range(rng.randint(1, 4)):
                s.stat()
                s.raw(rng.choice(['\n', '\n', '\n\n', '  \n', '\n#end\n']))
            if rng.random() < .3:
                s.t = s.t.rstrip('\n')
            k = s.k
            files[name] = s.t
            for c, (l, col) in s.at.items():
                where[c] = (name, l, col)
            open(os.path.join(wd, name), 'w').write(s.t)
        r['keys'].append(str(hash(tuple(sorted(files.items())))))
        r['notes']['files'] += nf
        try:
            rc, so, se = ctx.tool(['bzzparse', 'p.bzz', 'a.basm'], cwd=wd)
            b20.crash('bzzparse', rc, se)
            if rc:
                raise b20.Viol('bzzparse refuses the program: %r' % se[-500:])
            rc, so, se = ctx.tool(['bzzasm', 'a.basm', 'a.bo', 'a.bdb'], cwd=wd)
            b20.crash('bzzasm', rc, se)
            bc = open(os.path.join(wd, 'a.bo'), 'rb').read()
            dbg = b20.debugfile(open(os.path.join(wd, 'a.bdb'), 'rb').read())
            names = {v: n for n, v in cd.items()}
            p = 2
            for _ in range(struct.unpack_from('<H', bc)[0]):
                p = bc.index(b'\0', p) + 1
            seen = set()
            while p < len(bc):
                n = names[bc[p]]
                if n == 'pushi':
                    v = struct.unpack_from('<i', bc, p + 1)[0]
                    if v in where:
                        f, l, col = where[v]
                        seen.add(v)
                        g = dbg.get(p)
                        r['notes']['constants located'] += 1
                        if g is None:
                            raise b20.Viol('the instruction of the constant %d at %s:%d:%d has no position' % (v, f, l, col))
                        if os.path.basename(g[2]) != f or g[0] != l or g[1] not in (col, col + 1):
                            raise b20.Viol('the constant %d at %s:%d:%d is located at %s:%d:%d' % (v, f, l, col, os.path.basename(g[2]), g[0], g[1]))
                p += 1 if n in b20.NOARG else 5
            if rng.random() < .5:
                # the positions as the debugger sees them, in both directions
                rc, so, se = ctx.tool(['vh', '.'], cwd=wd, input=b'case x\ncompile 0 p.bzz\ndbginfo 0\n')
                b20.crash('vh', rc, se)
                q = [t[2] for t in parse(so.decode('latin-1').split('\n')) if t and t[0] == 'Q']
                at = {x[0]: x[1:4] for x in q[0]['info'][:-1]} if q else {}
                if {o: tuple(x) for o, x in at.items()} != {o: tuple(x) for o, x in dbg.items()}:
                    raise b20.Viol('the debug information in memory is not the one in the file')
                for x in q[0]['info'][:-1]:
                    if x[5] or x[4] not in at or at[x[4]] != x[1:4]:
                        raise b20.Viol('the position %r of offset %d is found at offset %d, whose position is %r' % (x[1:4], x[0], x[4], at.get(x[4])))
            if seen != set(where):
                raise b20.Viol('constants that no instruction uses: %r' % sorted(set(where) - seen)[:5])
        except b20.Viol as e:
            r['violations'].append(dict(msg=str(e), files=files, replay='$D/bzzparse p.bzz a.basm && $D/bzzasm a.basm a.bo a.bdb && cat a.basm'))
            break
    r['samples'] = [dict(files=files)]
    return r


def stage_similar(rng, ctx):
    """Many files whose names differ late, or only in a directory, with the same text in each: the same lines and columns."""
    r = dict(evaluations=0, keys=[], violations=[], notes={'similar files': 0, 'positions': 0}, samples=[])
    for _ in range(3):
        r['evaluations'] += 1
        wd = os.path.join(ctx.work, 's%d' % r['evaluations'])
        n = rng.randint(6, 14)
        stem = ''.join(rng.choice('abcdefgh_') for _ in range(rng.choice([3, 10, 20, 40, 80, 150])))
        how = rng.choice(['late', 'dir', 'early'])
        names = [dict(late='%s%d.bzz' % (stem, i), dir='%s/d%d/lib.bzz' % (stem, i), early='%d%s.bzz' % (i, stem))[how] for i in range(n)]
        body = ''.join('x%d = %d\n' % (i, i) for i in range(rng.randint(4, 20)))
        files = {m: body for m in names}
        files['p.bzz'] = ''.join('include "%s"\n' % m for m in names) + 'y = 1\n'
        for m, t in files.items():
            os.makedirs(os.path.dirname(os.path.join(wd, m)), exist_ok=True)
            open(os.path.join(wd, m), 'w').write(t)
        r['keys'].append('%s %d %s %d' % (stem, n, how, len(body)))
        r['notes']['similar files'] += n
        try:
            rc, so, se = ctx.tool(['vh', '.'], cwd=wd, input=b'case x\ncompile 0 p.bzz\ndbginfo 0\n')
            b20.crash('vh', rc, se)
            q = [t[2] for t in parse(so.decode('latin-1').split('\n')) if t and t[0] == 'Q']
            if not q:
                raise b20.Viol('no debug information')
            at = {x[0]: x[1:4] for x in q[0]['info'][:-1]}
            got = set()
            for x in q[0]['info'][:-1]:
                r['notes']['positions'] += 1
                got.add(tuple(x[1:4]))
                if x[5] or x[4] not in at or at[x[4]] != x[1:4]:
                    raise b20.Viol('the position %r of offset %d is found at offset %d, whose position is %r' % (x[1:4], x[0], x[4], at.get(x[4])))
            lines = {}
            for l, c, f in got:
                lines.setdefault(os.path.relpath(f, os.path.realpath(wd)), set()).add(l)
            for m in names:
                if not set(range(1, body.count('\n') + 1)) <= lines.get(m, set()):
                    raise b20.Viol('instructions of %s are located in lines %r only' % (m, sorted(lines.get(m, []))))
        except b20.Viol as e:
            r['violations'].append(dict(msg=str(e), files=files, replay="printf 'case x\\ncompile 0 p.bzz\\ndbginfo 0\\n' | $D/vh ."))
            break
    r['samples'] = [dict(files=sorted(files))]
    return r


def stage_far(rng, ctx):
    """Empty lines and spaces before a program move every position by their number, however far."""
    r = dict(evaluations=0, keys=[], violations=[], notes={'far positions': 0}, samples=[])
    for _ in range(3):
        r['evaluations'] += 1
        wd = os.path.join(ctx.work, 'f%d' % r['evaluations'])
        os.makedirs(wd, exist_ok=True)
        txt = make(rng, 0, 12)[1]
        P = rng.choice([0, 1, 200, 250, 300, 1000, 32760, 65530, 65536, 70000, 140000])
        Q = rng.choice([0, 1, 100, 126, 255, 300, 1000, 32760, 65530, 65600, 70000])
        files = {'p.bzz': txt, 'q.bzz': '\n' * P + ' ' * Q + txt}
        for m, t in files.items():
            open(os.path.join(wd, m), 'w').write(t)
        r['keys'].append('%d %d %s' % (P, Q, txt))
        try:
            inf = []
            for m in ('p.bzz', 'q.bzz'):
                rc, so, se = ctx.tool(['vh', '.'], cwd=wd, input=b'case x\ncompile 0 %s\ndbginfo 0\n' % m.encode())
                b20.crash('vh', rc, se)
                q = [t[2] for t in parse(so.decode('latin-1').split('\n')) if t and t[0] == 'Q']
                if not q:
                    raise b20.Viol('no debug information for %s' % m)
                inf.append({x[0]: (x[1], x[2], os.path.basename(x[3])) for x in q[0]['info'][:-1]})
            if sorted(inf[0]) != sorted(inf[1]):
                raise b20.Viol('a program with %d lines and %d spaces before it has positions for other instructions' % (P, Q))
            for o, (l, c, f) in sorted(inf[0].items()):
                r['notes']['far positions'] += 1
                want = (l + P, c + (Q if l == 1 else 0), 'q.bzz')
                if inf[1][o] != want:
                    raise b20.Viol('the position %d:%d, moved by %d lines and %d spaces, became %r' % (l, c, P, Q, inf[1][o]))
        except b20.Viol as e:
            r['violations'].append(dict(msg=str(e), files=files, replay="printf 'case x\\ncompile 0 q.bzz\\ndbginfo 0\\n' | $D/vh ."))
            break
    r['samples'] = [dict(lines=P, spaces=Q, files=txt)]
    return r


STAGES = [Stage('breakpoints', gen_run, 80, 3000, per=20), Stage('calls', gen_call, 30, 1000, per=20), Direct('positions', stage_pos, 40, 1500),
          Direct('similar files', stage_similar, 12, 400), Direct('far positions', stage_far, 12, 400)]
