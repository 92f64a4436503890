"""B23: files."""
import calls, lang
from calls import Pred
from lang import BuzzError, F, Table
from run import Case, Stage, parse
from util import *

RULE = ('Random histories of opening (all modes, missing files, directories, wrong modes), writing every type of value, iterating over lines (long lines, many lines, no final newline, bytes of every kind, nested iterations, callbacks that close the file), asking for the size and closing files '
        'in a scratch directory; every result and the reported error number and text are compared with a reference model of files, and the files are read afterwards by the harness. Using a file that is not open must raise a type error. Non-trivial: all.')
ASSUMPTIONS = ['one open handle per file; after a failed operation a handle is only asked for its size and closed; reading and writing through the same handle are separated by asking for the size']

PROG = '''
H = {}
function r(v) { return {.v = v, .e = io.errno, .m = io.error_message} }
function o_open(i, p, m) {
  H[i] = io.fopen(p, m)
  if(isnil(H[i])) { return r(nil) }
  if(H[i].name == p) { return r(1) }
  return r("wrong name")
}
function w1(i, a) { io.fwrite(H[i], a) return r(nil) }
function w2(i, a, b) { io.fwrite(H[i], a, b) return r(nil) }
function w4(i, a, b, c, d) { io.fwrite(H[i], a, b, c, d) return r(nil) }
function w0(i) { io.fwrite(H[i]) return r(nil) }
function o_each(i) {
  var n = 0
  L = {.n = 0}
  io.fforeach(H[i], function(l) { L[L.n] = l L.n = L.n + 1 })
  return r(L)
}
function o_nest(i, j) {
  L = {.n = 0}
  io.fforeach(H[i], function(l) {
    io.fforeach(H[j], function(k) { L[L.n] = string.concat(l, "/", k) L.n = L.n + 1 })
    L[L.n] = l L.n = L.n + 1
  })
  return r(L)
}
function o_copy(i, j) { io.fforeach(H[i], function(l) { io.fwrite(H[j], l) }) return r(nil) }
function o_stop(i, k) {
  L = {.n = 0}
  io.fforeach(H[i], function(l) { L[L.n] = l L.n = L.n + 1 if(L.n == k) { io.fclose(H[i]) } })
  return L.n
}
function o_fail(i) { io.fforeach(H[i], function(l) { x = l + nil }) }
function o_arity(i) { io.fforeach(H[i], 5) }
function o_size(i) { return r(io.fsize(H[i])) }
function o_close(i) { io.fclose(H[i]) return r(nil) }
function o_errno() { return r(nil) }
function o_bad(a) { io.fsize(a) }
function o_badw(a) { io.fwrite(a, 1) }
function o_badc(a) { io.fclose(a) }
function o_bade(a) { io.fforeach(a, function(l) { }) }
T0 = {}
T3 = {.a = 1, .b = 2, .c = 3}
function fun() { }
'''
ENO = {0: 'No error', 2: 'No such file or directory', 9: 'Bad file descriptor', 21: 'Is a directory', 22: 'Invalid argument', 36: 'File name too long'}


def res(v, e):
    t = Table()
    if v is not None:
        t.put('v', v)
    t.put('e', e)
    t.put('m', ENO[e])
    return t


class Hd:
    def __init__(self, f, mode):
        self.f, self.mode, self.pos, self.last = f, mode, 0, None
        self.bad = False      # the stream is in an error state
        self.r = mode in ('r', 'w+', 'a+', 'r+')
        self.w = mode != 'r'


def lines(b):
    out = b.split(b'\n')
    if out[-1] == b'':
        out.pop()
    return out


def text(v):
    if v is None:
        return '[nil]'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, F):
        return '%f' % v.v if v.v == v.v else None
    if v == '@:T0':
        return '[table with 0 elems]'
    if v == '@:T3':
        return '[table with 3 elems]'
    return v


def ltab(ls):
    t = Table()
    t.put('n', len(ls))
    for i, l in enumerate(ls):
        t.put(i, l)
    return t


def cstr(b):
    return b.split(b'\0')[0].decode('latin-1')


def content(rng):
    k = rng.choice(['empty', 'text', 'nonl', 'long', 'many', 'bin', 'blank'])
    if k == 'empty':
        return b''
    if k == 'many':
        return b''.join(b'line %d\n' % i for i in range(rng.choice([100, 600])))
    if k == 'long':
        return b'x' * rng.choice([119, 120, 121, 4095, 4096, 20000]) + b'\nend' + rng.choice([b'', b'\n'])
    if k == 'bin':
        return bytes(rng.randrange(1, 256) for _ in range(rng.randint(1, 300)))
    if k == 'blank':
        return rng.choice([b'\n', b'\n\n\n', b'a\n\nb\n', b'\na'])
    return b''.join(rstr(rng, True).replace('\n', ' ').replace('\0', '').encode('latin-1') + b'\n' for _ in range(rng.randint(1, 8))) + (b'' if k == 'text' else b'tail')


def gen(rng, n):
    out = []
    for _ in range(n):
        FN = ['a.txt', 'b.txt', 'c.txt', 'new.txt']
        files = {f: content(rng) for f in FN[:3]}
        init = dict(files)
        H, seq, done = {}, [], False

        def free(f):
            return not any(h.f == f for h in H.values())
        for _ in range(rng.choice([5, 15, 40])):
            i = rng.randint(0, 3)
            x = rng.random()
            if i not in H:
                if x < .8:
                    f = rng.choice(FN)
                    if not free(f):
                        continue
                    m = rng.choice(['r', 'r', 'w', 'a', 'w+', 'a+', 'r+'])
                    if m[0] == 'r' and f not in files:
                        seq.append(('o_open', [i, calls.Path('@' + f), m], res(None, 2)))
                        continue
                    if m[0] == 'w':
                        files[f] = b''
                    files.setdefault(f, b'')
                    h = Hd(f, m)
                    H[i] = h
                    seq.append(('o_open', [i, calls.Path('@' + f), m], res(1, 0)))
                elif x < .85:
                    seq.append(('o_open', [i, rng.choice(['nosuchdir/x', '', 'nothere']), rng.choice(['r', 'r+'])], res(None, 2)))
                elif x < .88:
                    seq.append(('o_open', [i, '/', 'w'], res(None, 21)))
                elif x < .92:
                    seq.append(('o_open', [i, calls.Path('@nothere'), rng.choice(['z', '', 'q+', '+'])], res(None, 22)))
                elif x < .95:
                    seq.append(('o_open', [i, 'd' * 300, 'r'], res(None, 36)))
                elif x < .97:
                    seq.append((rng.choice(['o_bad', 'o_badw', 'o_badc', 'o_bade']), [rng.choice([None, 5, 'x', F(1.5), '@:T0', '@:T3', '@:fun'])], BuzzError('TYPE')))
                    done = True
                elif i in [s[1][0] for s in seq if s[0] == 'o_close']:
                    seq.append((rng.choice(['o_close', 'o_size', 'w1', 'o_each']), None, BuzzError('TYPE')))
                    seq[-1] = (seq[-1][0], [i, 5] if seq[-1][0] == 'w1' else [i], BuzzError('TYPE'))
                    done = True
                if done:
                    break
                continue
            h = H[i]
            if h.bad and x < .55:
                continue
            if x < .3:
                if h.last == 'r' and h.r:
                    continue
                k = rng.choice([1, 1, 2, 4])
                a = []
                while len(a) < k:
                    v = rng.choice([rscalar(rng), rscalar(rng), '@:T0', '@:T3'])
                    if v == '' or isinstance(v, str) and v.startswith('@') and v not in ('@:T0', '@:T3') or text(v) is None:
                        continue
                    a.append(v)
                b = (''.join(text(v) for v in a) + '\n').encode('latin-1')
                if not h.w:
                    seq.append(('w%d' % k, [i] + a, res(None, 9)))
                    h.last, h.bad = None, True
                    continue
                d = files[h.f]
                if h.mode[0] == 'a':
                    d += b
                    h.pos = len(d)
                else:
                    d = d[:h.pos] + b + d[h.pos + len(b):]
                    h.pos += len(b)
                files[h.f] = d
                h.last = 'w'
                seq.append(('w%d' % k, [i] + a, res(None, 0)))
            elif x < .55:
                if h.last == 'w' and h.r:
                    continue
                if not h.r:
                    seq.append(('o_each', [i], res(ltab([]), 9)))
                    h.bad = True
                    continue
                if h.mode[0] == 'a' and h.last is None:
                    pass      # reading begins at the start of the file
                ls = lines(files[h.f][h.pos:])
                h.pos = len(files[h.f])
                h.last = 'r'
                y = rng.random()
                if y < .12:
                    o = [j for j in H if j != i and not H[j].bad and H[j].r and H[j].last != 'w']
                    if not o:
                        seq.append(('o_each', [i], res(ltab([cstr(l) for l in ls]), 0)))
                        continue
                    j = rng.choice(o)
                    g = H[j]
                    l2 = lines(files[g.f][g.pos:]) if ls else []
                    L = []
                    for q, l in enumerate(ls):
                        if q == 0:
                            L += [cstr(l) + '/' + cstr(k) for k in l2]
                        L.append(cstr(l))
                    if ls:
                        g.pos = len(files[g.f])
                        g.last = 'r'
                    seq.append(('o_nest', [i, j], res(ltab(L), 0)))
                elif y < .25 and ls:
                    k = rng.randint(1, len(ls) + 1)
                    seq.append(('o_stop', [i, k], min(k, len(ls))))
                    if k <= len(ls):
                        del H[i]
                elif y < .28 and ls:
                    seq.append(('o_fail', [i], BuzzError('TYPE')))
                    done = True
                    break
                elif y < .4:
                    o = [j for j in H if j != i and not H[j].bad and H[j].w and not (H[j].last == 'r' and H[j].r)]
                    if not o or not ls:
                        seq.append(('o_each', [i], res(ltab([cstr(l) for l in ls]), 0)))
                        continue
                    g = H[rng.choice(o)]
                    j = next(k for k in H if H[k] is g)
                    b = b''.join(cstr(l).encode('latin-1') + b'\n' for l in ls)
                    d = files[g.f]
                    if g.mode[0] == 'a':
                        d += b
                        g.pos = len(d)
                    else:
                        d = d[:g.pos] + b + d[g.pos + len(b):]
                        g.pos += len(b)
                    files[g.f] = d
                    g.last = 'w'
                    seq.append(('o_copy', [i, j], res(None, 0)))
                else:
                    seq.append(('o_each', [i], res(ltab([cstr(l) for l in ls]), 0)))
            elif x < .75:
                h.last = None
                seq.append(('o_size', [i], res(len(files[h.f]), 0)))
            elif x < .77:
                seq.append(rng.choice([('o_arity', [i], BuzzError('TYPE')), ('w0', [i], BuzzError('LNUM'))]))
                done = True
                break
            elif x < .8:
                if seq and isinstance(seq[-1][2], Table) and seq[-1][0] in ('o_open', 'o_close', 'o_size', 'o_each', 'w1', 'w2', 'w4'):
                    p = seq[-1][2]
                    seq.append(('o_errno', [], res(None, p.get('e'))))
            else:
                del H[i]
                seq.append(('o_close', [i], res(None, 0)))
        if not done:
            for i in list(H):
                seq.append(('o_close', [i], res(None, 0)))
        c = calls.case(PROG, seq, rng.choice([0, 0, 1]), 3)
        # paths
        cmds = []
        if not done:
            c.cmds += ['fcat 0 @' + f for f in FN]
        else:
            # an error ends the history: the files stay open
            c.cmds = c.cmds[:-3]
        c.cmds += ['frm 0 @new.txt']
        c.files.update(init)
        c.oracle = oracle
        c.info = (seq, None if done else [files.get(f) for f in FN])
        c.key = (c.cmds, sorted(init.items()))
        out.append(c)
    return out


def oracle(ev, c):
    seq, want = c.info
    c.info = seq
    m = calls.oracle(ev, c)
    c.info = (seq, want)
    if m:
        return m
    if want is not None:
        got = [t[2]['file'] for t in parse(ev) if t[0] == 'Q']
        for f, (g, w) in enumerate(zip(got, want)):
            c.note('files compared')
            if g != (None if w is None else w.hex()):
                return 'file %d contains %r, expected %r' % (f, None if g is None else bytes.fromhex(g)[:300], w and w[:300])
        if len(got) != len(want):
            return 'files missing'
    return None


STAGES = [Stage('histories', gen, 60, 3000, per=25)]
