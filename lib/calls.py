"""Sequences of host calls of script functions, each with its expected outcome."""
import lang
from lang import BuzzError, F
from run import Case, parse
from util import arg


class Path(str):
    """'@name': the path of a file of the case."""


class Pred:
    """The result must satisfy fn(value as the harness prints it, normalized) -> None or a message."""
    def __init__(self, fn, what=''):
        self.fn, self.what = fn, what


def oracle(ev, c):
    e = [x for x in parse(ev) if x[0] in ('K', 'R', 'C')]
    if e[0][2] != '1':
        return 'program rejected'
    i = 2
    for name, args, want in c.info:
        if i >= len(e):
            return 'the execution stopped before %s%r' % (name, args)
        k = e[i][2]
        i += 1
        if isinstance(want, BuzzError):
            c.note('errors')
            if k['state'] != 'error' or e[i][2]['err'] != want.code:
                return '%s%r: expected error %s, observed %r %r' % (name, args, want.name, k, e[i:i + 1])
            i += 2  # R of the error, R of the next run
            continue
        c.note('values')
        if k['state'] != 'ready' or 'top' not in k:
            return '%s%r: expected %r, observed %r' % (name, args, want, e[i - 1:i + 1])
        got = lang.norm(k['top'])
        if isinstance(want, Pred):
            m = want.fn(got)
            if m:
                return '%s%r gave %r: %s' % (name, args, got, m)
        elif got != lang.jv(want):
            return '%s%r gave %r, expected %r' % (name, args, got, lang.jv(want))
    return None


def encode(a):
    if isinstance(a, str) and a.startswith('@:'):
        return 'g:' + a[2:]
    if isinstance(a, Path):
        return str(a)    # a file of the case
    return arg(a)


def case(prog, calls, gcmode=0, robot=0):
    """calls: list of (function, args, expected).  An argument '@:name' is the global of that name."""
    cmds = ['compile 0 @p.bzz', 'gcmode %d' % gcmode, 'new 0 %d 0' % robot, 'run 0']
    for name, args, want in calls:
        cmds.append(('call 0 %s %s' % (name, ' '.join(encode(a) for a in args))).strip())
        if isinstance(want, BuzzError):
            cmds += ['destroy 0', 'new 0 %d 0' % robot, 'run 0']
    return Case(cmds, {'p.bzz': prog}, oracle, key=cmds, info=calls)
