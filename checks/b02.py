"""B02: automatic memory management never changes what a program observes."""
import lang
from gen import make
from run import Case, Stage, Skip, parse
from swarmgen import Ctl, drive
from util import r_msg, Bad

RULE = ('The same program (random programs with reference results; random multi-robot controllers that hold values in globals, '
        'outer frames, captured variables, keys, methods, stigmergies, listeners) is executed with the collector as is, collecting '
        'at every instruction, at every k-th instruction, and never. Everything observable must be identical, and no execution may '
        'touch freed memory. Non-trivial: at least one forced collection happened during the execution.')
ASSUMPTIONS = ['iteration order of tables is unspecified and may differ between the executions']


def split(ev):
    """Events of each run of the case, separated by '# run'."""
    runs, cur = [], None
    for l in ev:
        if l.startswith('# run'):
            cur = []
            runs.append(cur)
        elif cur is not None:
            cur.append(l)
    return runs


def canon(e, order=True):
    if e[0] == 'T':
        return ('T', e[1], repr([lang.norm(x) for x in e[2]]))
    if e[0] in ('K', 'R', 'P'):
        d = dict(e[2])
        if 'top' in d:
            d['top'] = repr(lang.norm(d['top']))
        d.pop('msg', None)
        return (e[0], e[1], sorted(d.items()))
    if e[0] == 'G':
        return ('G', e[1], repr(lang.norm(e[2])))
    if e[0] == 'M':
        try:
            m = r_msg(e[2])
            return ('M', e[1], m[:1] + tuple(repr(lang.jv(x)) if not isinstance(x, (int, str, tuple, type(None))) else x for x in m[1:]))
        except Bad:
            return ('M', e[1], e[2])
    return None


def seq(lines):
    out = []
    for e in parse(lines):
        c = canon(e)
        if c:
            out.append(c)
    return out


def oracle(ev, c):
    runs = split(ev)
    if len(runs) < 2:
        raise Skip()
    forced = sum(int(l.split()[2]) for r in runs for l in r if l.startswith('GC '))
    c.note('forced collections', forced)
    ref = seq(runs[0])
    c.note('events compared', len(ref) * (len(runs) - 1))
    if len(ref) < 2:
        c.nontrivial = False
    for k, r in enumerate(runs[1:], 1):
        g = seq(r)
        for n, (a, b) in enumerate(zip(ref, g)):
            if a != b:
                return 'event %d differs between %s and %s: %r vs %r' % (n, c.info[0], c.info[k], a, b)
        if len(ref) != len(g):
            return '%s gave %d events, %s gave %d' % (c.info[0], len(ref), c.info[k], len(g))
    if len(c.info) > 8 and c.info[8] is not None:
        want = c.info[8]
        got = [x for x in ref if x[0] == 'T']
        if [x[2] for x in got] != [repr(w) for w in want]:
            return 'the trace is not what the program computes'
    return None


def runs(rng, modes, cmds, vms):
    out = []
    for m in modes:
        out += ['echo run', 'gcmode %d' % m] + cmds + ['gcstat'] + ['destroy %d' % v for v in vms]
    return out


def gen_prog(rng, n):
    out = []
    for _ in range(n):
        p, txt, spans, want, e, it, g = make(rng, .004, rng.choice([8, 15, 25]))
        modes = [2, 0, 1, rng.choice([3, 5, 7, 11, 23])]
        cmds = ['compile 0 @p.bzz'] + runs(rng, modes, ['new 0 0 0', 'run 0 300000'], [0])
        out.append(Case(cmds, {'p.bzz': txt}, oracle, key=txt, info=['gc mode %d' % m for m in modes]))
    return out


def gen_swarm(rng, n):
    out = []
    for _ in range(n):
        ctl = Ctl(rng)
        k = rng.randint(1, 3)
        hostile = rng.random() < .5
        extra = (lambda r, s, v: ['gcnow %d' % v] if r.random() < .3 else []) if rng.random() < .5 else None
        cmds = drive(rng, k, ctl.nact, rng.randint(3, 8), *((10, 10, 20, 1) if hostile else (0, 0, 0, 0)), extra=extra)
        modes = [2, 1, 0, rng.choice([3, 7, 13])]
        out.append(Case(['compile 0 @p.bzz'] + runs(rng, modes, cmds, range(k)), {'p.bzz': ctl.text()}, oracle,
                        info=['gc mode %d' % m for m in modes], timeout=40))
    return out



def gen_churn(rng, n):
    """Many short-lived objects and strings around few long-lived ones, so that the collector's own thresholds are crossed."""
    out = []
    for _ in range(n):
        k = rng.randint(200, 1500)
        live = rng.randint(1, 40)
        txt = '''
live = {}
fs = {}
function mk(i) { return {.id = i, .name = string.concat("n", string.tostring(i)), .sub = {.v = i * 2, .f = i + 0.5}} }
function step(a, b) {
 var i = a
 var tmp = {}
 while(i < b) {
  var o = mk(i)
  tmp[i %% 7] = o
  if(i %% %d == 0) { live[i %% %d] = o
   fs[i %% %d] = function(z) { return {.s = string.concat(o.name, z), .o = o} } }
  i = i + 1
 }
 return size(tmp)
}
function look(x) {
 trace(live)
 foreach(fs, function(k, f) { live[k].got = f("q").s })
 return live
}
''' % (rng.randint(3, 20), live, live)
        cmds = ['new 0 3 0', 'run 0']
        a = 0
        for _ in range(rng.randint(2, 5)):
            cmds += ['call 0 step i:%d i:%d' % (a, a + k), 'call 0 look i:0', 'getg 0 live']
            a += k
        modes = [2, 0, rng.choice([29, 61, 17])]
        out.append(Case(['compile 0 @p.bzz'] + runs(rng, modes, cmds, [0]), {'p.bzz': txt}, oracle,
                        info=['gc mode %d' % m for m in modes], timeout=40))
    return out


STAGES = [Stage('programs', gen_prog, 24, 1200, per=20),
          Stage('swarms', gen_swarm, 40, 2000, per=5),
          Stage('churn', gen_churn, 8, 300, per=4)]
