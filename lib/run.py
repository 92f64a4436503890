"""Runs monitored executions of the real code and collects verdicts.

A *case* is a list of harness commands (see harness/vh.c), the files it needs
and an oracle over the events the harness printed.  Cases run in batches, many
per process; a crash, sanitizer report or hang is attributed to the case that
was running, and the rest of the batch is run again without it.
"""
import glob, hashlib, json, os, random, shutil, subprocess, sys, tempfile, time, traceback
import concurrent.futures as cf
import multiprocessing as mp

from build import build, BuildError, VERIF, REPO

ENV = dict(os.environ)
ENV['ASAN_OPTIONS'] = ('detect_leaks=0:exitcode=99:quarantine_size_mb=48:allocator_may_return_null=1:'
                       'max_allocation_size_mb=2048:detect_stack_use_after_return=1:malloc_context_size=12')
ENV['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=99'
ENV['BUZZ_INCLUDE_PATH'] = os.path.join(REPO, 'src', 'include')
ENV['LC_ALL'] = 'C'
STACK_KB = 65536


class HarnessError(Exception):
    pass


class Skip(Exception):
    """The oracle has no verdict for this execution."""


class Case:
    def __init__(self, cmds, files=None, oracle=None, key=None, info=None, timeout=15, flavour='asan'):
        self.cmds = cmds          # list of command lines; '@NAME' is replaced by the path of file NAME
        self.files = files or {}  # name -> str or bytes
        self.oracle = oracle      # function(events, case) -> None | str | [str]; events = list of lines
        self.key = key            # what makes the case distinct (default: commands and files)
        self.info = info
        self.timeout = timeout
        self.flavour = flavour
        self.notes = {}           # counters set by the oracle
        self.nontrivial = True
        self.rejects = False      # the compiler may reject the program
        self.sample = None

    def note(self, k, n=1):
        self.notes[k] = self.notes.get(k, 0) + n


def parse(lines):
    """Event lines -> list of (tag, rest...) with JSON decoded where present."""
    out = []
    for l in lines:
        f = l.split(' ', 2)
        if f[0] in ('T', 'R', 'N', 'P', 'K', 'G', 'GS', 'S', 'E', 'D', 'V', 'Q') and len(f) == 3:
            out.append((f[0], int(f[1]), json.loads(f[2])))
        elif f[0] == 'M' or f[0] == 'MP':
            out.append((f[0], int(f[1]), f[2] if len(f) > 2 else '-'))
        else:
            out.append(tuple(l.split(' ')))
    return out


try:
    import ctypes
    _LIBC = ctypes.CDLL(None)
except Exception:
    _LIBC = None


def _limits():
    import resource
    if _LIBC is not None:
        _LIBC.prctl(1, 9)  # die with the parent
    resource.setrlimit(resource.RLIMIT_STACK, (STACK_KB * 1024, STACK_KB * 1024))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def _exec(bindir, work, text, timeout, prog='vh'):
    """Returns (stdout lines, stderr, rc or 'timeout')."""
    p = subprocess.Popen([os.path.join(bindir, prog), work], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, env=ENV, cwd=work, preexec_fn=_limits)
    try:
        o, e = p.communicate(text.encode(), timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        p.kill()
        o, e = p.communicate()
        rc = 'timeout'
    return o.decode('latin-1').split('\n'), e.decode('latin-1'), rc


def _script(name, c, work, prefix):
    out = ['case ' + name]
    for l in c.cmds:
        if '@' in l:
            l = ' '.join((prefix + w[1:]) if w.startswith('@') else w for w in l.split(' '))
        out.append(l)
    return '\n'.join(out) + '\n'


def _prepare(case, work, i):
    """Writes the files of a case, without what an interrupted execution left; returns the prefix of their paths."""
    pre = os.path.join(work, 'c%d_' % i)
    for f in glob.glob(glob.escape(pre) + '*'):
        if os.path.isfile(f):
            os.unlink(f)
    for n, data in case.files.items():
        with open(pre + n, 'wb') as f:
            f.write(data if isinstance(data, bytes) else data.encode('latin-1'))
    return pre


def run_cases(cases, bindirs, work):
    """Runs the cases; returns list of (case, events or None, fault or None)."""
    res = [None] * len(cases)
    todo = list(range(len(cases)))
    faults = 0
    while todo and faults < 3:
        fl = cases[todo[0]].flavour
        batch = [i for i in todo if cases[i].flavour == fl]
        text = ''
        for i in batch:
            text += _script(str(i), cases[i], work, _prepare(cases[i], work, i))
        lone = len(batch) == 1
        tmo = sum(0.25 for _ in batch) + max(cases[i].timeout for i in batch) * (3 if lone else 1)
        lines, err, rc = _exec(bindirs[fl], work, text, tmo)
        cur, ev = None, {}
        ended = False
        for l in lines:
            if l.startswith('== '):
                if l == '== END':
                    ended = True
                    cur = None
                else:
                    cur = int(l[3:])
                    ev[cur] = []
            elif cur is not None and l:
                ev[cur].append(l)
        done = list(ev)
        if ended and rc == 0:
            for i in batch:
                res[i] = (cases[i], ev.get(i), None)
            todo = [i for i in todo if i not in set(batch)]
            continue
        # The last case begun is the one at fault; the previous ones are complete
        if not done:
            raise RuntimeError('harness did not start: rc=%s\n%s' % (rc, err[-2000:]))
        bad = done[-1]
        for i in done[:-1]:
            res[i] = (cases[i], ev[i], None)
        if rc == 'timeout' and not lone:
            # Decide alone, with more time
            lines2, err2, rc2 = _exec(bindirs[fl], work, _script(str(bad), cases[bad], work, _prepare(cases[bad], work, bad)),
                                      cases[bad].timeout * 3)
            ok2 = rc2 == 0 and '== END' in lines2
            e2 = [l for l in lines2 if l and not l.startswith('== ')]
            res[bad] = (cases[bad], e2, None if ok2 else _fault(rc2, err2))
            faults += 0 if ok2 else 3
        elif rc == 2:
            raise RuntimeError('harness failure: rc=%s\n%s' % (rc, err[-2000:]))
        else:
            res[bad] = (cases[bad], ev[bad], _fault(rc, err))
            faults += 3 if rc == 'timeout' else 1
        fin = set(done)
        todo = [i for i in todo if i not in fin]
    return [r for r in res if r is not None]


def _fault(rc, err):
    if rc == 'timeout':
        return 'hang: the execution did not end\n' + err[-1500:]
    for mark in ('ERROR: AddressSanitizer', 'runtime error:', 'AddressSanitizer', 'Assertion'):
        k = err.find(mark)
        if k >= 0:
            ls = err.rfind('\n', 0, k) + 1
            return 'crash rc=%s: %s' % (rc, err[ls:ls + 2500])
    return 'crash rc=%s: %s' % (rc, err[-2500:])


# ---------------------------------------------------------------- stages

class Stage:
    """gen(rng, n) -> list of cases; chunks of `per` cases, `quick`/`thorough` chunks."""
    def __init__(self, name, gen, quick, thorough, per=40):
        self.name, self.gen, self.quick, self.thorough, self.per = name, gen, quick, thorough, per


class Direct:
    """A stage that is not made of harness cases: fn(rng, ctx) -> dict(evaluations, keys, violations, notes, samples)."""
    def __init__(self, name, fn, quick, thorough):
        self.name, self.fn, self.quick, self.thorough = name, fn, quick, thorough


class Ctx:
    def __init__(self, bindirs, work, tier):
        self.bindirs, self.work, self.tier = bindirs, work, tier
        self.env = ENV

    def tool(self, args, timeout=60, flavour='asan', input=None, cwd=None, env=None):
        """Runs one of the real tools; returns (rc, stdout, stderr)."""
        a = [os.path.join(self.bindirs[flavour], args[0])] + list(args[1:])
        e = dict(ENV)
        e.update(env or {})
        try:
            r = subprocess.run(a, capture_output=True, timeout=timeout, env=e, input=input, cwd=cwd or self.work, preexec_fn=_limits)
            return r.returncode, r.stdout, r.stderr.decode('latin-1')
        except subprocess.TimeoutExpired:
            return 'timeout', b'', ''


_STAGES = {}
_BIND = {}


def _h(x):
    return hashlib.sha1(x if isinstance(x, bytes) else repr(x).encode('latin-1', 'replace')).hexdigest()[:16]


def _chunk(args):
    prop, si, ci, seed, tier, base = args
    st = _STAGES[prop][si]
    rng = random.Random('%s/%s/%d/%d' % (prop, st.name, ci, seed))
    work = tempfile.mkdtemp(prefix='c', dir=base)
    out = dict(stage=st.name, evaluations=0, keys=set(), violations=[], notes={}, samples=[], skipped=0, error=None)
    try:
        if isinstance(st, Direct):
            r = st.fn(rng, Ctx(_BIND, work, tier))
            out.update(r)
            out['keys'] = set(out['keys'])
            for v in out['violations']:
                v.setdefault('files', {})
                v.setdefault('cmds', [])
            return out
        cases = st.gen(rng, st.per)
        for c, ev, fault in run_cases(cases, _BIND, work):
            out['evaluations'] += 1
            msgs = []
            if fault:
                msgs = [fault]
            else:
                try:
                    bad = [l for l in ev if l.startswith('! bad') or l.startswith('! unknown')]
                    if bad:
                        raise HarnessError('bad harness command: %r in %r' % (bad, c.cmds[:5]))
                    if not c.rejects and any(l.startswith('! no ') for l in ev):
                        r = 'the program could not be compiled or loaded: %r' % ([l for l in ev if l[:2] in ('C ', '! ')][:3],)
                    else:
                        r = c.oracle(ev, c) if c.oracle else None
                    msgs = [r] if isinstance(r, str) else (r or [])
                except Skip:
                    out['skipped'] += 1
                    continue
                except HarnessError:
                    raise
                except Exception:
                    msgs = ['events that the oracle can not interpret: %s\n%s' % (ev[:30], traceback.format_exc()[-800:])]
            if c.nontrivial:
                out['keys'].add(_h(c.key if c.key is not None else (c.cmds, sorted(c.files.items()))))
            for k, n in c.notes.items():
                out['notes'][k] = out['notes'].get(k, 0) + n
            if msgs:
                out['violations'].append(dict(msg='\n'.join(msgs)[:6000], cmds=c.cmds, files=c.files, flavour=c.flavour,
                                              info=repr(c.info)[:4000] if c.info is not None else None))
            elif len(out['samples']) < 1:
                out['samples'].append(c.sample if c.sample is not None else
                                      dict(files={k: (v if isinstance(v, str) else v.hex())[:1500] for k, v in list(c.files.items())[:2]},
                                           commands=c.cmds[:25], events=ev[:12]))
    except Exception:
        out['error'] = traceback.format_exc()
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return out


def known_findings(prop):
    """finding: property=<id> match=<text> -- <what fails>"""
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('finding: property=%s ' % prop):
                m = l.split('match=', 1)[1]
                k, _, d = m.partition(' -- ')
                out.append((k.strip(), d.strip()))
    return out


def save_replay(prop, v):
    d = os.path.join(VERIF, 'out', prop, _h((v['msg'], v['cmds'], sorted(v['files'].items())))[:10])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for n, data in v['files'].items():
        with open(os.path.join(d, n), 'wb') as f:
            f.write(data if isinstance(data, bytes) else data.encode('latin-1'))
    with open(os.path.join(d, 'commands.txt'), 'w') as f:
        f.write('case replay\n')
        for l in v['cmds']:
            f.write(' '.join((os.path.join(d, w[1:])) if w.startswith('@') else w for w in l.split(' ')) + '\n')
    with open(os.path.join(d, 'violation.txt'), 'w') as f:
        f.write(v['msg'] + '\n')
        if v.get('info'):
            f.write('\ninfo: ' + v['info'] + '\n')
    with open(os.path.join(d, 'replay.sh'), 'w') as f:
        if v.get('replay'):
            # the command is run in this directory, with the tools in $D
            f.write('#!/bin/sh\ncd %s && D=$(python3 %s/lib/build.py %s %s | tail -1)\nexport BUZZ_INCLUDE_PATH=%s/src/include ASAN_OPTIONS=detect_leaks=0\n%s\n'
                    % (d, VERIF, v.get('flavour', 'asan'), v.get('harness', ''), REPO, v['replay']))
            return d
        f.write('#!/bin/sh\n# replays the execution against the current /repo tree\n'
                'cd %s && D=$(python3 %s/lib/build.py %s | tail -1) && '
                'BUZZ_INCLUDE_PATH=%s/src/include ASAN_OPTIONS=detect_leaks=0 $D/vh %s < %s/commands.txt\n'
                % (d, VERIF, v.get('flavour', 'asan'), REPO, d, d))
    return d


def short(x, n=3000):
    """A sample for the evidence, with long texts cut."""
    if isinstance(x, str):
        return x if len(x) <= n else x[:n] + '... (%d characters)' % len(x)
    if isinstance(x, dict):
        return {k: short(v, n) for k, v in list(x.items())[:200]}
    if isinstance(x, (list, tuple)):
        return [short(v, n) for v in list(x)[:200]]
    return x


def check(prop, stages, level, rule, tier, seed, assumptions=(), flavours=('asan',), harness=('vh', 'vc'), maxwall=None):
    """Runs the check of one property.  Returns the exit code."""
    t0 = time.time()
    try:
        for f in flavours:
            _BIND[f] = build(f, harness)
    except BuildError as e:
        sys.stderr.write('build failed:\n%s\n' % e)
        return 2
    _STAGES[prop] = stages
    base = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    maxwall = maxwall or (600 if tier == 'quick' else 6 * 3600)
    jobs = []
    for si, st in enumerate(stages):
        n = st.quick if tier == 'quick' else st.thorough
        for ci in range(n):
            jobs.append((prop, si, ci, seed, tier, base))
    # spread the stages over the run
    jobs.sort(key=lambda j: (j[2] / max(1, (stages[j[1]].quick if tier == 'quick' else stages[j[1]].thorough)), j[1]))
    tot = dict(evaluations=0, skipped=0)
    keys, notes, samples, viol, errors, per = set(), {}, [], [], [], {}
    cut = 0
    try:
        ctx = mp.get_context('fork')
        nproc = int(os.environ.get('VERIF_JOBS', '8'))
        with ctx.Pool(nproc) as pool:
            for r in pool.imap_unordered(_chunk, jobs):
                tot['evaluations'] += r['evaluations']
                tot['skipped'] += r['skipped']
                keys |= {(r['stage'], k) for k in r['keys']}
                p = per.setdefault(r['stage'], dict(evaluations=0, skipped=0, events={}))
                p['evaluations'] += r['evaluations']
                p['skipped'] += r['skipped']
                for k, n in r['notes'].items():
                    p['events'][k] = p['events'].get(k, 0) + n
                if r['samples'] and sum(1 for s in samples if s['stage'] == r['stage']) < 2:
                    samples.append(dict(stage=r['stage'], case=short(r['samples'][0])))
                for v in r['violations']:
                    v['stage'] = r['stage']
                    viol.append(v)
                if r['error']:
                    errors.append(r['error'])
                if len(viol) >= 6 or time.time() - t0 > maxwall:
                    cut = 1
                    pool.terminate()
                    break
    finally:
        shutil.rmtree(base, ignore_errors=True)
    known = known_findings(prop)
    rep, seen = [], set()
    for v in viol:
        m = [k for k in known if k[0] in v['msg']]
        if m:
            seen.add(m[0])
        else:
            rep.append(v)
    for k, d in known:
        if (k, d) in seen:
            print('KNOWN-FINDING: property=%s %s' % (prop, d))
    nmax = 3
    for v in rep[:nmax]:
        d = save_replay(prop, v)
        print('VIOLATION property=%s replay=%s' % (prop, d))
        print('  stage %s: %s' % (v['stage'], v['msg'][:700].replace('\n', '\n    ')))
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=seed, level=level,
              coverage=dict(evaluations=tot['evaluations'], distinct_nontrivial=len(keys), rule=rule,
                            samples=samples[:8], skipped=tot['skipped'], stages=per, truncated=bool(cut)),
              assumptions=list(assumptions), wall_s=round(wall, 2), violations=len(rep))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=repr)
    print('%s %s seed=%d: %d executions, %d distinct, %d without verdict, %d violations, %.1f s' %
          (prop, tier, seed, tot['evaluations'], len(keys), tot['skipped'], len(rep), wall))
    for s, p in per.items():
        print('   %-22s %6d  %s' % (s, p['evaluations'], ' '.join('%s=%s' % x for x in sorted(p['events'].items()))[:300]))
    if rep:
        return 1
    if errors:
        sys.stderr.write('harness errors:\n' + '\n'.join(errors[:3]) + '\n')
        return 2
    if tot['evaluations'] == 0 or not keys:
        sys.stderr.write('nothing observed\n')
        return 2
    return 0
