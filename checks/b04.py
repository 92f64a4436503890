"""B04: runtime errors are reported precisely and contained."""
import lang
from gen import make
from run import Case, Stage, Skip, parse
from util import *

RULE = ('Programs that fail at a random point (ill-typed operations, bad calls, division by zero, failing C functions, failing '
        'callbacks of the libraries and of message handlers) are executed; monitored: error code, non-empty message, script file and line of the '
        'failing statement (as given by the reference interpreter), effects up to the error and none after it, the error state is sticky under '
        'every host operation, and the VM can still be destroyed. Non-trivial: an error was raised.')


def after(vm=0):
    """Host operations on a VM in error: none may run code or leave the error state."""
    return ['echo after', 'run %d 50' % vm, 'call %d g_probe i:1' % vm, 'procin %d' % vm, 'procout %d' % vm, 'call %d g_probe' % vm,
            'exec %d' % vm, 'gcnow %d' % vm, 'strerror %d' % vm, 'state %d' % vm, 'destroy %d' % vm, 'echo end']


def sticky(ev, r, want_file=True):
    """Checks the events after '# after' given the first error state r."""
    k = next(i for i, l in enumerate(ev) if l.startswith('# after'))
    for l in ev[k:]:
        if l.startswith('T '):
            return 'the script went on after the error: %s' % l
        if l[:2] in ('R ', 'P '):
            s = parse([l])[0][2]
            if s['state'] != 'error' or s['err'] != r['err'] or s.get('msg') != r['msg']:
                return 'the error state %r became %r' % (r, s)
        if l.startswith('K '):
            s = parse([l])[0][2]
            if s['ret'] == 'ready' or s['state'] != 'error':
                return 'a call on a VM in error gave %r' % (s,)
        if l.startswith('E '):
            s = parse([l])[0][2]
            if not s or s == '<null>' or r['msg'] not in s:
                return 'the error description %r does not contain the message %r' % (s, r['msg'])
    if not ev[-1].startswith('# end'):
        return 'the VM could not be destroyed'
    return None


def nexttok(txt, last):
    """Line of the first token after line `last`."""
    ls = txt.split('\n')
    for n in range(last, len(ls)):
        t = ls[n].strip()
        if t and not t.startswith('#'):
            return n + 1
    return len(ls)


def oracle(ev, c):
    txt, want, err, span = c.info
    e = parse(ev)
    got = [[lang.norm(x) for x in t[2]] for t in e if t[0] == 'T']
    r = [t for t in e if t[0] == 'R'][0][2]
    if err is None:
        c.nontrivial = False
        if r['state'] != 'done':
            return 'unexpected outcome %r' % r
        return None
    c.note('errors')
    c.note('error code %d' % err)
    if r['state'] != 'error' or r['err'] != err:
        return 'outcome %r, expected error code %d' % (r, err)
    if got != want:
        return 'the effects before the error are %r, expected %r' % (got[-3:], want[-3:])
    if not r['msg']:
        return 'no error message: %r' % r
    if 'line' not in r:
        return 'the error has no position: %r' % r
    if not r['file'].endswith('p.bzz'):
        return 'the error is reported in file %r' % r['file']
    if span:
        lo, hi = span[0], nexttok(txt, span[1])
        if not lo <= r['line'] <= hi:
            return 'the error is reported at line %d, the statement that failed is at lines %d-%d: %r' % (r['line'], lo, span[1], r)
    return sticky(ev, r)


def gen_prog(rng, n):
    out = []
    while len(out) < n:
        p, txt, spans, want, e, it, g = make(rng, rng.choice([.02, .05]), rng.choice([8, 15, 25]))
        if e is None and rng.random() < .9:
            continue
        txt += '\nfunction g_probe(x) { trace("probe", x) }\n'
        cmds = ['compile 0 @p.bzz', 'new 0 0 0', 'run 0 300000'] + (after() if e else [])
        out.append(Case(cmds, {'p.bzz': txt}, oracle, key=txt, info=(txt, want, e.code if e else None, spans.get(id(it.cur)) if e else None)))
    return out


# ------------------------------------------------------------ library calls with arbitrary arguments

LIB = dict([('math.' + k, 1) for k in 'abs floor ceil round log log2 log10 exp sqrt sin cos tan asin acos'.split()])
LIB.update({'math.atan': 2, 'math.min': 2, 'math.max': 2, 'math.rng.setseed': 1, 'math.rng.exponential': 1, 'math.rng.uniform': None,
            'math.rng.gaussian': None, 'string.length': 1, 'string.sub': None, 'string.concat': None, 'string.tostring': 1,
            'string.toint': 1, 'string.tofloat': 1, 'swarm.create': 1, 'swarm.id': None, 'swarm.union': 3, 'swarm.intersection': 3,
            'swarm.difference': 3, 'neighbors.reduce': 2, 'neighbors.count': 0, 'neighbors.foreach': 1, 'neighbors.broadcast': 2,
            'neighbors.listen': 2, 'neighbors.ignore': 1, 'neighbors.map': 1, 'neighbors.get': 1, 'neighbors.filter': 1,
            'neighbors.kin': 0, 'neighbors.nonkin': 0, 'stigmergy.create': 1, 'sw.in': 0, 'sw.select': 1, 'sw.exec': 1, 'sw.others': 1,
            'sw.join': 0, 'sw.leave': 0, 'vs.foreach': 1, 'vs.put': 2, 'vs.onconflict': 1, 'vs.get': 1, 'vs.onconflictlost': 1,
            'vs.size': 0, 'type': 1, 'clone': 1, 'size': 1, 'foreach': 2, 'map': 2, 'reduce': 3, 'filter': 2, 'int': 1, 'float': 1,
            'isnil': 1, 'isint': 1, 'isfloat': 1, 'isstring': 1, 'istable': 1, 'isclosure': 1, 'isuserdata': 1, 'ud': None,
            'io.fclose': 1, 'io.fsize': 1, 'io.fforeach': 2, 'io.fwrite': None, 'mp.foreach': 1, 'mp.get': 1, 'mp.map': 1, 'mp.filter': 1,
            'mp.reduce': 2, 'mp.count': 0})
# argument types: i f s n t c u; functions whose type errors are certain: name -> list of accepted types per argument
TYPES = {'string.length': ['s'], 'string.toint': ['s'], 'string.tofloat': ['s'], 'swarm.create': ['i'], 'neighbors.reduce': ['c', 'ifsntcu'],
         'neighbors.foreach': ['c'], 'neighbors.map': ['c'], 'neighbors.filter': ['c'], 'neighbors.listen': ['s', 'cn'],
         'neighbors.ignore': ['s'], 'stigmergy.create': ['i'], 'sw.exec': ['c'], 'vs.foreach': ['c'], 'vs.put': ['ifsntu', 'ifsntcu'],
         'vs.get': ['ifsntu'], 'vs.onconflict': ['c'], 'vs.onconflictlost': ['c'], 'size': ['t'], 'foreach': ['t', 'c'], 'map': ['t', 'c'],
         'reduce': ['t', 'c', 'ifsntcu'], 'filter': ['t', 'c'], 'math.abs': ['if'], 'math.floor': ['if'], 'math.ceil': ['if'],
         'math.round': ['if'], 'math.log': ['if'], 'math.log2': ['if'], 'math.log10': ['if'], 'math.exp': ['if'], 'math.sqrt': ['if'],
         'math.sin': ['if'], 'math.cos': ['if'], 'math.tan': ['if'], 'math.asin': ['if'], 'math.acos': ['if'], 'math.atan': ['if', 'if'],
         'io.fclose': ['u'], 'io.fsize': ['u'], 'io.fforeach': ['u', 'c'], 'neighbors.broadcast': ['s', 'ifsntcu'],
         'math.rng.exponential': ['if'], 'math.rng.setseed': ['i'], 'sw.select': ['i'], 'sw.others': ['i'], 'int': ['f'], 'float': ['i'],
         'mp.foreach': ['c'], 'mp.map': ['c'], 'mp.filter': ['c'], 'mp.reduce': ['c', 'ifsntcu'],
         'swarm.union': ['i', 't', 't'], 'swarm.intersection': ['i', 't', 't'], 'swarm.difference': ['i', 't', 't']}


DESC = dict(n='nil', i='integer', f='float', s='string', t='table', c='closure', u='userdata')
OWN = {'swarm.union', 'swarm.intersection', 'swarm.difference', 'io.fclose', 'io.fsize', 'io.fforeach', 'vs.put', 'vs.get', 'sw.others'}


def largs(rng, name, n, ok):
    out, ty = [], []
    acc = TYPES.get(name)
    for i in range(n):
        t = rng.choice(acc[i] if ok and acc and i < len(acc) else 'ifsntcu')
        ty.append(t)
        out.append({'i': lambda: lit(rint(rng)), 'f': lambda: lit(rflt(rng)), 's': lambda: lit(rstr(rng)), 'n': lambda: 'nil',
                    't': lambda: rng.choice(['{}', 'sw', 'vs', 'neighbors', '{.a = 1, .b = "x"}', 'mp', 'string']),
                    'c': lambda: rng.choice(['fa', 'fb', 'fc', 'cfirst', 'type', 'trace', 'failc']), 'u': lambda: 'udata()'}[t]())
    return out, ty


def lib_oracle(ev, c):
    name, n, ty = c.info
    e = parse(ev)
    rs = [t for t in e if t[0] == 'R']
    if rs[0][2]['state'] != 'done':
        return 'set-up failed: %r' % rs[0][2]
    k = [t for t in e if t[0] == 'K'][0][2]
    ar = LIB[name]
    msg = '%s with %d arguments of types %s' % (name, n, ''.join(ty))
    if ar is not None and n != ar and (k['state'] != 'error' or rs[1][2]['err'] != 3):
        return '%s: expected an error about the number of arguments, observed %r' % (msg, k)
    acc = TYPES.get(name)
    if acc and n == ar and any(t not in a for t, a in zip(ty, acc)) and k['state'] != 'error':
        return '%s: ill-typed call accepted: %r' % (msg, k)
    if k['state'] == 'error':
        c.note('errors')
        r = rs[1][2]
        if not r['msg'] or not 1 <= r['err'] <= 9 or 'line' not in r:
            return '%s: poor error %r' % (msg, r)
        bad = [(t, a) for t, a in zip(ty, acc) if t not in a] if acc and n == ar else []
        if len(bad) == 1 and name not in OWN and r['err'] == 6:
            # the only wrong argument is what the message is about
            c.note('messages about one argument')
            t, a = bad[0]
            if 'got ' + DESC[t] not in r['msg'] or (len(a) == 1 and DESC[a] not in r['msg']):
                return '%s: the message does not name the type of the wrong argument and the one it should have: %r' % (msg, r)
        if 'FAILLINE' not in c.files['p.bzz'].split('\n')[r['line'] - 1] and not any(x in 'c' for x in ty):
            return '%s: the error is reported at line %d' % (msg, r['line'])
        return sticky(ev, r)
    c.nontrivial = False
    if k['state'] != 'ready' or k.get('top') != 77:
        return '%s: neither an error nor a clean return: %r' % (msg, k)
    s = [t for t in e if t[0] == 'S'][0][2]
    if s['stack'] != 0 or s['stacks'] != 1 or s['lsymts'] != 1:
        return '%s: unbalanced stacks after the call: %r' % (msg, s)
    c.note('accepted')
    return None


def gen_lib(rng, n):
    out = []
    names = sorted(LIB)
    for _ in range(n):
        name = rng.choice(names)
        if name == 'ud':
            continue
        ar = LIB[name]
        na = ar if ar is not None and rng.random() < .75 else rng.randint(0, 4)
        args, ty = largs(rng, name, na, rng.random() < .35)
        call = '%s(%s)' % (name, ', '.join(args))
        txt = '''vs = stigmergy.create(1) vs.put("a", 1) vs.put(2, {.x = 1})
sw = swarm.create(1) sw.join()
mp = nil
function fa(a) { return a }
function fb(a, b) { return b }
function fc(a, b, c) { return nil }
function g_probe(x) { trace("probe") }
function prep() { mp = neighbors.map(function(r, d) { return d }) }
function doit() {
 var r = %s # FAILLINE
 return 77 # FAILLINE
}
''' % call
        cmds = ['compile 0 @p.bzz', 'new 0 2 0', 'run 0', 'call 0 type i:1', 'neigh 0', 'neigh 0 1 10 20 30', 'neigh 0 5 1 2 3']
        out.append(Case(cmds + ['call 0 prep', 'echo go', 'call 0 doit', 'stat 0'] + after()[:1] + ['state 0', 'strerror 0', 'run 0 10', 'destroy 0', 'echo end'],
                        {'p.bzz': txt}, lib_wrap, key=call, info=(name, na, ty)))
    return out


def lib_wrap(ev, c):
    k = next(i for i, l in enumerate(ev) if l.startswith('# go'))
    pre = [l for l in ev[:k] if not l.startswith('K ')]
    if '"error"' in ''.join(ev[:k]):
        return 'set-up failed: %r' % ev[:k]
    post = ev[k:]
    st = [l for l in post if l.startswith('K ')]
    if '"state":"error"' in st[0]:
        # a callback that traced or failed may have run; only look after the call
        return lib_oracle(pre + post, c)
    j = next(i for i, l in enumerate(post) if l.startswith('# after'))
    return lib_oracle(pre + post[:j], c)


# ------------------------------------------------------------ operators on one wrong operand

OPS = [('V + 1', 'if'), ('2.5 - V', 'if'), ('V * 3', 'if'), ('7 / V', 'if'), ('V % 4', 'if'), ('2 ^ V', 'if'), ('-V', 'if'), ('V.a', 't'), ('V["k"]', 't'), ('V[3]', 't'),
       ('V()', 'c'), ('V(1, 2)', 'c')]
VAL = dict(n='nil', i='5', f='2.5', s='"text"', t='{}', c='F', u='udata()')


def op_oracle(ev, c):
    e = parse(ev)
    r = [t for t in e if t[0] == 'R'][-1][2]
    t, a, text = c.info
    if r['state'] != 'error' or r['err'] != 6 or not r['msg'] or r.get('line') not in (5, 6):
        return '%r with a %s: the outcome is %r' % (text, DESC[t], r)
    if 'got ' + DESC[t] not in r['msg'] or (len(a) == 1 and 'expected ' + DESC[a] not in r['msg']):
        return '%r with a %s: the message is %r' % (text, DESC[t], r['msg'])
    c.note('operators on a wrong operand')
    return None


def gen_op(rng, n):
    out = []
    for _ in range(n):
        text, a = rng.choice(OPS)
        t = rng.choice([x for x in 'nifstcu' if x not in a])
        if rng.random() < .2 and a == 't':
            st = text.replace('V', 'v') + ' = 1'
        else:
            st = 'x = ' + text.replace('V', 'v')
        where = rng.choice(['%s', 'if(1) { %s }', 'while(1) { %s }', 'foreach({ .a = 1 }, function(k, q) { %s })'])
        txt = 'function F(a) { return a }\nfunction go(z) {\n v = %s\n trace(1)\n%s\n return 2 }\ngo(1)\n' % (VAL[t], where % st)
        out.append(Case(['compile 0 @p.bzz', 'new 0 0 0', 'run 0'], {'p.bzz': txt}, op_oracle, key=txt, info=(t, a, st)))
    return out


# ------------------------------------------------------------ failing callbacks of message handlers

def handler_oracle(ev, c):
    kind = c.info
    k = next(i for i, l in enumerate(ev) if l.startswith('# go'))
    if '"error"' in ''.join(ev[:k]):
        return 'set-up failed: %r' % ev[:k]
    e = parse(ev[k:])
    p = [t for t in e if t[0] == 'P'][0][2]
    if p['state'] != 'error' or p['err'] != 6 or not p['msg'] or p.get('line') is None:
        return 'a failing %s callback left the VM in %r' % (kind, p)
    if 'FAILLINE' not in c.files['p.bzz'].split('\n')[p['line'] - 1]:
        return 'the error is reported at line %d' % p['line']
    j = next(i for i, l in enumerate(ev) if l.startswith('# after'))
    tr = [t[2] for t in parse(ev[k:j]) if t[0] == 'T']
    if tr != [['before']]:
        return 'callbacks ran after the error: %r' % tr
    c.note('failing ' + kind)
    return sticky(ev, p)


def gen_handler(rng, n):
    out = []
    for _ in range(n):
        kind = rng.choice(['listener', 'conflict', 'conflictlost'])
        # the failing line may also be reached by the look-ahead of the parser
        txt = '''vs = stigmergy.create(1) vs.put("a", 1)
function g_probe(x) { trace("probe") }
function bad(x) {
 trace("before")
 var q = x + nil # FAILLINE
 trace("later") # FAILLINE
}
neighbors.listen("t", function(t, v, r) { bad(v) trace("after") })
vs.onconflict(function(k, l, r) { %s })
vs.onconflictlost(function(k, l) { %s })
''' % ('bad(k) trace("after") return r' if kind == 'conflict' else 'return r', 'bad(k) trace("after")')
        msg = {'listener': w_bcast('t', rint(rng))}.get(kind, w_put(1, 'a', rscalar(rng, False), 1, rng.randint(3, 9)))
        cmds = ['compile 0 @p.bzz', 'new 0 2 0', 'run 0', 'call 0 type i:1', 'in 0 5 ' + msg]
        for _ in range(rng.randint(0, 4)):
            cmds.append('in 0 %d %s' % (rng.choice([5, 5, 6, 1]), rng.choice([w_bcast('u', 1), w_bcast('t', 4) if rng.random() < .5 else w_list([1]), w_put(1, 'z', 1, 2, 3)])))
        if any('in 0 1 ' + w_bcast('t', 4) == x or 'in 0 6 ' + w_bcast('t', 4) == x for x in cmds) and kind != 'listener':
            kindx = kind
        cmds += ['echo go', 'procin 0'] + after()
        out.append(Case(cmds, {'p.bzz': txt}, handler_oracle, info=kind))
    return out


STAGES = [Stage('failing programs', gen_prog, 50, 1500, per=30),
          Stage('library calls', gen_lib, 60, 2500, per=50),
          Stage('operators', gen_op, 6, 150, per=40),
          Stage('message handlers', gen_handler, 6, 150, per=30)]
