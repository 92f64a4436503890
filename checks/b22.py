"""B22: the compiler accepts or refuses every text, and never anything else."""
import os, re
import grammar, lang
from gen import make
from run import Case, Direct, Stage, parse
from util import *
import b20, b21

RULE = ('Arbitrary texts (programs with tokens or characters removed, doubled, exchanged or inserted, random token sequences, binary bytes, deep nesting, very long tokens, odd includes) are compiled under ASan/UBSan with a time limit: each must be refused, or give bytecode '
        'that the assembler accepts and that runs without corrupting memory. Texts that are wrong by construction must be refused with a message that gives the file and line, leaving no assembly text behind; correct ones with comments and layout changes must compile to the same code. Non-trivial: all.')
ASSUMPTIONS = ['nesting is limited by the C stack (tested up to 1500 levels)']

TOKS = ('x y f g1 self nil if else while for var function return and or not in include ( ) { } [ ] . , ; = == != < <= > >= + - * / % ^ & | ! << >> 1 0 42 1.5 .5 5. 1..2 99999999999 "s" \'q\' "" . : @ # \n \n'
        ' swarm neighbors foreach 0x10 1e5 _a \\ "un \'un').split(' ') + ['\n', ' ', '\t']
RX = re.compile(r'\s+|#[^\n]*|"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|[A-Za-z_0-9.]+|==|!=|<=|>=|<<|>>|.', re.S)


# statements, right and wrong, to be put where statements may begin
SNIP = ['function nf(a) { return a }', 'function nf() "documentation" { }', 'x = function() "documentation" { }', 'var x = 1', 'var v1', 'var v0 = v0', 'var self', 'var p = 1\nvar p = 2', 'return', 'return 1', 'return (1 < 2)',
        'return not x', 'return function(a) { return a }', 'if(1) function nf2() { }', 'for(i = 0, i < 3, i = i + 1) { }', 'for(var i = 0, i < 3, i = i + 1) { }', 'for(f(), x, f()) f()', 'while(x < 1) x = x + 1',
        'while(not (x == 1)) { x = 1 }', 'x = {}', 'x = {.a = {.b = 1}, .2 = 3, .2.5 = 4}', 'x = {.a = 1,}', 'x = {a = 1}', 'x = {} + 1', 'f()()', 'f(1)(2).x[3] = 4', 'f().x', 'f() = 1', 'self.x = 1', 'x = self',
        'if(not not a and b or c) { } else if(c) { } else { }', 'if(a and not b) { }', 'if((not a) and (b or c)) { }', 'x = (a < b)', 'x = a < b', 'x = not a', 'x = (a < b) < c', 'if(a < b < c) { }', 'if(a == b == c) x = 1', 'f(a < b, not c)',
        'f(a, )', 'f(, a)', 'if(1) var q = 1', 'if(1) { var q = 1 } var q = 2', 'if(1) { var q = 1 if(1) { var q = 2 } }', 'function nf(a) { var a = 1 }', 'x = function(a) { var b = 1 var c = function(b) { var a = 1 } }',
        'x = function(a) { x = function(a) { return a } }', 'x = function(a, a) { }', 'x = -1', 'x = - -1', 'x = -y ^ 2', 'x = !-y', 'x = !!y', 'x = -(y)', 'x = +y', 'x = y -1', 'x = y - - 1', 'x = 2 ^ -1', 'x = a[1][2].c(3)[4](5)', 'x[1]',
        'x.y.z', 'x = y.5', 'x.1 = 2', 'x = "a" "b"', 'x = 5.', 'x = .5', '{ x = 1 }', '{ }', ';;', 'else { }', 'x = 1 y = 2', 'x = 1; y = 2;', 'x = f\n(1)', 'x\n=\n1', 'x = 1 +\n2', 'x = function(a) {\n}\n', 'x = nil', 'nil = 1', 'and = 1',
        'x = a & b | c << 1', 'x = a % b * c / d', 'x = a ! b', 'x = a != b', 'if(a != b) { }', 'if(a = b) { }', 'if() { }', 'f(x = 1)', 'var x, y', 'var x = 1, y = 2', 'x, y = 1', 'x += 1', 'x++', '_x = 1', 'x_1 = 1', 'X = 1', 'x = a.b_c', 'elsey = 1', 'iff = 1', 'nothing()', 'x = # c\n 1',
        'if(1) # c\n { x = 1 } # d\n else # e\n { }']


def mutate(rng, t):
    k = rng.choice([1, 1, 1, 2, 5])
    if rng.random() < .35:
        at = [i + 1 for i, c in enumerate(t) if c in '\n{;'] + [0]
        for _ in range(rng.choice([1, 1, 2])):
            i = rng.choice(at)
            t = t[:i] + ' ' + rng.choice(SNIP) + rng.choice(['\n', ' ', ' ; ']) + t[i:]
        if rng.random() < .8:
            return t
    for _ in range(k):
        m = rng.random()
        if m < .75:
            ts = RX.findall(t)
            if not ts:
                return t
            i = rng.randrange(len(ts))
            x = rng.random()
            if x < .3:
                del ts[i]
            elif x < .45:
                ts.insert(i, ts[i])
            elif x < .6:
                ts.insert(i, rng.choice(TOKS))
            elif x < .75:
                ts[i] = rng.choice(TOKS)
            elif x < .9:
                j = rng.randrange(len(ts))
                ts[i], ts[j] = ts[j], ts[i]
            else:
                j = min(len(ts), i + rng.randint(1, 10))
                q = rng.randrange(len(ts))
                ts[q:q] = ts[i:j]
            t = ''.join(ts)
        else:
            i = rng.randrange(len(t) + 1)
            x = rng.random()
            if x < .4:
                t = t[:i] + t[i + rng.randint(1, 3):]
            elif x < .8:
                t = t[:i] + chr(rng.choice([0, 1, 9, 10, 13, 32, 34, 35, 39, 92, 127, 128, 255, rng.randrange(256)])) + t[i:]
            else:
                t = t[:i]
    return t


def special(rng):
    n = rng.choice([10, 100, 1000, 1500])
    return rng.choice([
        lambda: 'x = ' + '(' * n + '1' + ')' * n,
        lambda: 'x = ' + '(' * n,
        lambda: '{' * n,
        lambda: 'if(1) { ' * n + 'x = 1' + ' }' * n,
        lambda: 'x = ' + '-' * n + '1',
        lambda: 'x = ' + '!' * n + '1',
        lambda: 'x = ' + 'function(a) { return ' * min(n, 300) + '1' + ' }' * min(n, 300),
        lambda: 'x = ' + '1 + ' * n + '1',
        lambda: 'x = ' + '2 ^ ' * n + '1',
        lambda: 'x' + '.a' * n + ' = 1',
        lambda: 'x' + '[1]' * n + ' = 1',
        lambda: 'f' + '(1)' * n,
        lambda: 'x = {' + ', '.join('.k%d = %d' % (i, i) for i in range(n)) + '}',
        lambda: 'x = {' + ', '.join('%d = 1' % i for i in range(n)) + '}',
        lambda: 'a' * n * 10 + ' = 1',
        lambda: 'x = "' + 'b' * n * 10 + '"',
        lambda: 'x = "' + '\\n\\"' * n + '"',
        lambda: 'x = ' + '9' * n,
        lambda: 'x = 0.' + '9' * n,
        lambda: '\n' * n + 'x = 1',
        lambda: '#' * n,
        lambda: ';' * n,
        lambda: 'function f(' + ', '.join('a%d' % i for i in range(n)) + ') { return a0 }',
        lambda: 'f(' + ', '.join('1' for i in range(n)) + ')',
        lambda: ''.join('function f%d() { }\n' % i for i in range(n)),
        lambda: ''.join('var v%d = %d\n' % (i, i) for i in range(n)),
        lambda: ''.join('v%d = "s%d"\n' % (i, i) for i in range(n)),
        lambda: '', lambda: ' ', lambda: '\n', lambda: '#', lambda: '\0', lambda: '"', lambda: "'", lambda: '\\', lambda: 'include', lambda: 'include "', lambda: 'include ""', lambda: 'include "/"',
        lambda: 'include "."', lambda: 'include "/dev/null"', lambda: 'x', lambda: 'x =', lambda: 'function', lambda: 'return', lambda: 'return 5', lambda: 'var', lambda: 'if', lambda: 'includes = 5',
        lambda: 'include "%s"' % ('z' * n * 10), lambda: 'x = 1\nfunction f() { include "nosuch" }', lambda: 'x = "a\nb"', lambda: 'x = "a\\', lambda: 'x = {', lambda: 'x = {.', lambda: 'x = {.a', lambda: 'x = {.a =', lambda: 'x = {.a = 1,',
        lambda: 'f(', lambda: 'f(1,', lambda: 'x[', lambda: 'x[1', lambda: 'x.', lambda: 'if(1) {', lambda: 'else { }', lambda: 'while(', lambda: '}', lambda: ')', lambda: 'function f(', lambda: 'function f(a,', lambda: 'function f() {', lambda: 'x = function', lambda: 'var x x = 1 var x',
    ])()


def gen_fuzz(rng, n):
    out = []
    while len(out) < n:
        p, txt, spans, want, e, it, g = make(rng, 0, rng.choice([5, 10, 25]))
        base = [txt] if rng.random() < .5 else [txt, EX]
        for _ in range(6):
            x = rng.random()
            if x < .7:
                t = mutate(rng, rng.choice(base))
            elif x < .85:
                t = rng.choice(['', ' ', '']).join(rng.choice(TOKS) + rng.choice([' ', ' ', '', '\n']) for _ in range(rng.choice([3, 10, 50, 300])))
            elif x < .9:
                t = ''.join(chr(rng.randrange(256)) for _ in range(rng.choice([1, 5, 50, 500])))
            else:
                t = special(rng)
                if rng.random() < .3:
                    t = mutate(rng, t)
            if 'io' in t and 'fopen' in t:
                continue
            c = Case(['compile 0 @p.bzz', 'new 0 0 0', 'run 0 3000', 'destroy 0'], {'p.bzz': t}, oracle_fuzz, key=t, timeout=20)
            c.rejects = True
            out.append(c)
    return out[:n]


EX = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'b22.bzz')).read()


def oracle_fuzz(ev, c):
    e = parse(ev)
    k = [t for t in e if t[0] == 'C']
    if not k or k[0][2] not in ('0', '1'):
        return 'the assembler refuses the output of the compiler' if k and k[0][2] == '-1' else 'no outcome: %r' % ev[:3]
    c.note('accepted' if k[0][2] == '1' else 'refused')
    want = grammar.accepts(c.key)[0] if isinstance(c.key, str) else None
    if want is not None:
        c.note('decided by the grammar')
        if want != (k[0][2] == '1'):
            return 'the text is %s by the grammar and %s by the compiler' % ('accepted' if want else 'refused', 'refused' if want else 'accepted')
    if k[0][2] == '1':
        r = [t for t in e if t[0] == 'R']
        if not r or r[0][2]['state'] not in ('done', 'error', 'ready'):
            return 'an accepted program could not be run: %r' % ev[:5]
    return None


# ------------------------------------------------------------ wrong by construction

LEX = ['$', '?', '`', '~', '@', ':']
# a statement that is wrong wherever a statement may begin
BAD = ['x = = 1', 'if 1 { }', 'if(1 { x = 1 }', 'while() { x = 1 }', 'x y z', '5 = x', 'f(1,,2)', 'f(1 2)', 'x[1 = 2', 'x = {.a 1}', 'x = {.a = 1 .b = 2}', 'var 5', 'var x y', 'f() = 3', 'x.5.y.[ = 1', 'x = )', '"str" = 1', 'x = 1 * * 2',
       'function', 'x = function(1) { }', 'x = function(a b) { }', 'x = if', 'return = 5', 'include 5', 'include "nosuchfile.bzz"', 'for x', 'x', 'x.y', 'x[1]', 'x = [1]', 'x = {1}', 'x = {.a = }', ']', '= 1', ', x = 1']


def stage_bad(rng, ctx):
    r = dict(evaluations=0, keys=[], violations=[], notes={'refused with a position': 0, 'equal code': 0}, samples=[])
    w = None
    for _ in range(10):
        r['evaluations'] += 1
        wd = os.path.join(ctx.work, 'd%d' % r['evaluations'])
        os.makedirs(wd)
        files, where = {}, None
        nf = rng.choice([1, 1, 2])
        mode = rng.choice(['stat', 'stat', 'lex', 'dup', 'open', 'same', 'mut', 'mut'])
        if mode == 'mut':
            nf = 1
        bad = rng.randrange(nf)
        for fi in reversed(range(nf)):
            s = b21.Src(rng, 1)
            name = 'p.bzz' if fi == 0 else 'inc.bzz'
            for _ in range(rng.randint(0, 4)):
                s.stat()
                s.raw(rng.choice(['\n', '\n\n', '  \n']))
            if fi == bad and mode in ('stat', 'lex', 'dup', 'open'):
                if mode == 'dup' or rng.random() < .3:
                    s.raw('x = function(a) {\n' if mode == 'dup' else 'if(1) {\n')
                if mode == 'dup':
                    s.raw('var dd = 1\n' + rng.choice(['', '\n', '# c\n']))
                where = (name, s.line)
                if mode == 'open':
                    s.raw(rng.choice(['if(1) { x = 1\n', 'x = function() { x = 1\n', 'f(1, 2\n', 'x = {.a = 1\n', 'x = (1 + 2\n', 'while(1) { if(1) { x = 1 }\n']))
                elif mode == 'dup':
                    s.raw('var dd = 2\n')
                elif mode == 'lex':
                    s.raw(rng.choice(['x = 1 %s 2\n', '%s\n', 'x = %s\n', '%sx = 1\n', 'f(%s)\n']) % rng.choice(LEX))
                else:
                    s.raw(rng.choice(BAD) + '\n')
            elif fi + 1 < nf:
                s.raw('include "inc.bzz"\n')
            if fi == 0 and bad == 1 and nf == 2 and 'include' not in s.t:
                s.raw('include "inc.bzz"\n')
            for _ in range(rng.randint(0, 3)):
                s.stat()
                s.raw(rng.choice(['\n', '\n\n', '  \n']))
            if mode == 'mut' and fi == 0:
                # one wrong token somewhere
                for _ in range(20):
                    ts = RX.findall(s.t)
                    i = rng.randrange(len(ts) + 1)
                    ts[i:i + rng.choice([0, 1])] = [' ' + rng.choice(TOKS) + ' ']
                    alt = ''.join(ts)
                    if grammar.accepts(alt)[0] is False and 'include' not in alt:
                        s.t = alt
                        where = (name, grammar.accepts(alt)[1])
                        break
                else:
                    mode = 'same'
            files[name] = s.t
            open(os.path.join(wd, name), 'w').write(s.t)
        r['keys'].append(str(hash(tuple(sorted(files.items())))))
        try:
            if mode == 'same':
                # comments, blank lines, spaces and separators do not change the code
                t = files['p.bzz']
                alt = ''
                for k in RX.findall(t):
                    if k.isspace():
                        alt += k.replace('\n', rng.choice(['\n', '\n\n', ' # note\n', '\r\n', '\t\n  ']))if '\n' in k else rng.choice([k, ' ', '\t', '   '])
                    else:
                        alt += k
                files['q.bzz'] = alt
                open(os.path.join(wd, 'q.bzz'), 'w', newline='').write(alt)
                code = []
                for f in ('p.bzz', 'q.bzz'):
                    rc, so, se = ctx.tool(['bzzparse', f, 'a.basm'], cwd=wd)
                    b20.crash('bzzparse', rc, se)
                    if rc:
                        raise b20.Viol('%s is refused: %r' % (f, se[-500:]))
                    code.append([l.split('|')[0].strip() for l in open(os.path.join(wd, 'a.basm'))])
                if code[0] != code[1]:
                    raise b20.Viol('the same program with another layout compiles to different code')
                r['notes']['equal code'] += 1
                continue
            for out in (None, 'a.basm'):
                if out is None:
                    continue
                if os.path.exists(os.path.join(wd, out)):
                    os.unlink(os.path.join(wd, out))
                rc, so, se = ctx.tool(['bzzparse', 'p.bzz', out], cwd=wd)
                b20.crash('bzzparse', rc, se)
                if rc == 0:
                    raise b20.Viol('a wrong program (%s at %r) is accepted' % (mode, where))
                if os.path.exists(os.path.join(wd, out)) and os.path.getsize(os.path.join(wd, out)) > 0:
                    raise b20.Viol('assembly text was written for a refused program')
                ms = re.findall(r'^(.*?):(\d+):(\d+): (.*)$', se, re.M)
                if not ms:
                    if re.search(r'p\.bzz: .*end of file', se):
                        continue
                    raise b20.Viol('no position in the message %r' % se[-500:])
                f, l, c, m = ms[0]
                f = os.path.basename(f)
                lines = files[f].split('\n') if f in files else []
                if f not in files or not 1 <= int(l) <= len(lines) + 1 or int(c) > max([len(x) for x in lines] + [0]) + 2:
                    raise b20.Viol('impossible position %s:%s:%s in %r' % (f, l, c, se[-500:]))
                if f == where[0] and int(l) < where[1] and where[1] < len(lines):
                    raise b20.Viol('the error at %s:%d is reported at line %s: %r' % (where[0], where[1], l, se[-500:]))
                if mode in ('lex', 'dup') and (f, int(l)) != where:
                    raise b20.Viol('the error at %s:%d is reported at %s:%s: %r' % (where[0], where[1], f, l, se[-500:]))
                if nf == 1:
                    # the first token that cannot continue a program
                    ok, first = grammar.accepts(files['p.bzz'])
                    if ok is False and first < len(lines):
                        r['notes']['exact line'] = r['notes'].get('exact line', 0) + 1
                        if int(l) != first:
                            raise b20.Viol('the first wrong token is in line %d, the error is reported at line %s: %r' % (first, l, se[-500:]))
                r['notes']['refused with a position'] += 1
        except b20.Viol as e:
            r['violations'].append(dict(msg=str(e), files=files, replay='for f in p q; do $D/bzzparse $f.bzz a.basm; cat a.basm; done'))
            break
    r['samples'] = [dict(files=files)]
    return r


STAGES = [Stage('arbitrary texts', gen_fuzz, 500, 12000, per=60), Direct('wrong programs', stage_bad, 250, 6000)]
