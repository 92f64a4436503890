"""B27: the compiler command."""
import os, re, shutil, subprocess
from gen import make
from run import Direct, REPO, ENV
import b20

RULE = ('The compiler command runs in scratch directories with random combinations of its options (short and long, before and after the script, '
        'given once or several times), script names (dots, blanks, brackets, directories, no extension), include paths from the environment and the command line '
        'whose directories hold different files of the same name, tools found on PATH or named by BZZPARSE and BZZASM, and with wrong uses (missing arguments, two scripts, '
        'no script, missing, wrong or unwritable files), and with tools that fail. The set of files after it, their contents (compared with what the parser and assembler give '
        'when called one after the other, with the file that must have been included spelled out in a model of the search) and the exit status are checked. Non-trivial: all.')
ASSUMPTIONS = ['bash, mktemp and, where the command uses them, rev and cut are installed']
FLAVOURS = ('plain',)


def command(d):
    """The command as the build system would configure it."""
    s = open(os.path.join(REPO, 'src', 'utility', 'bzzc.in')).read()
    s = re.sub(r'@[A-Z_]+@', '7', s)
    p = os.path.join(d, 'bzzc')
    with open(p, 'w') as f:
        f.write(s)
    os.chmod(p, 0o755)
    return p


def tree(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            out[os.path.relpath(p, d)] = open(p, 'rb').read()
    return out


STEMS = ['p', 'my script', 'two  blanks', 'a.b', 'v1.2.3', 'x[1]', 'q*', 'with\ttab', 'UP', '0', 'long' * 20, "it's", 'a-b', 'bzz', 'p.bo', 'a$HOME', 'back\\slash']
DIRS = ['', '', '', './', 'sub/', 'v1.0/', 'deep/er/', 'a b/', '../', '../o.d/']
EXTS = ['.bzz'] * 5 + ['.buzz', '', '.txt', '.b z']
BAD = ['x = = 1\n', 'function f( { }\n', 'include "nowhere.bzz"\n', 'if(1) {\n']


def stem_of(path):
    d, b = os.path.split(path)
    if '.' in b:
        path = path[:len(path) - len(b)] + b[:b.rindex('.')]
    return path


def stage(rng, ctx):
    r = dict(evaluations=0, keys=[], violations=[], notes={}, samples=[])

    def note(k):
        r['notes'][k] = r['notes'].get(k, 0) + 1
    bind = ctx.bindirs['plain']
    for n in range(6):
        r['evaluations'] += 1
        top = os.path.join(ctx.work, 'k%d' % n)
        cwd = os.path.join(top, 'w', 'cwd')
        for x in ('sub', 'v1.0', 'deep/er', 'a b', '../o.d', 'out', 'i1', 'i2', 'i3'):
            os.makedirs(os.path.join(cwd, x), exist_ok=True)
        tools = os.path.join(top, 'tools')
        os.makedirs(tools)
        cmd = command(tools)
        script = rng.choice(DIRS) + rng.choice(STEMS) + rng.choice(EXTS)
        if script.endswith(('.bo', '.bdb')):
            continue
        # libraries of the same name in several directories
        lib = rng.random() < .6
        order, libs = [], {}
        env = {k: v for k, v in ENV.items() if k not in ('BUZZ_INCLUDE_PATH', 'BZZPARSE', 'BZZASM')}
        opts = []
        if lib:
            where = ['.', 'i1', 'i2', 'i3', 'a b']
            for k, w in enumerate(where):
                if rng.random() < (.15 if w == '.' else .6):
                    libs[w] = 'which = %d\nfunction lib(x) { return x + %d }\n' % (1000 + k, k)
                    open(os.path.join(cwd, w, 'lib.bzz'), 'w').write(libs[w])
            spell = lambda w: rng.choice([w, w + '/', os.path.join(cwd, w)])
            if rng.random() < .6:
                e = rng.sample(where[1:], rng.randint(1, 3))
                env['BUZZ_INCLUDE_PATH'] = ':'.join(spell(w) for w in e)
                order += e
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                e = rng.sample(where[1:], rng.randint(1, 3))
                opts.append([rng.choice(['-I', '--include']), ':'.join(spell(w) for w in e)])
                order += e
        body = make(rng, 0, 8)[1]
        text = ('include "lib.bzz"\n' if lib else '') + body
        wrong = rng.choice([None] * 6 + ['syntax', 'missing', 'noarg', 'two', 'noscript', 'unwritable', 'version', 'help', 'notool', 'parser fails', 'assembler fails', 'parser fails'])
        if wrong == 'syntax':
            text += rng.choice(BAD)
        if wrong != 'missing':
            open(os.path.join(cwd, script), 'w').write(text)
        path = bind + ':' + os.environ['PATH']
        via = rng.choice(['path', 'env', 'mixed'])
        if wrong == 'notool' and shutil.which('bzzparse', path=os.environ['PATH']):
            wrong = None
        if wrong == 'notool':
            via = 'none'
        if via == 'env':
            env['BZZPARSE'], env['BZZASM'] = os.path.join(bind, 'bzzparse'), os.path.join(bind, 'bzzasm')
        elif via == 'mixed':
            env['BZZPARSE'] = os.path.join(bind, 'bzzparse')
        env['PATH'] = path if via in ('path', 'mixed') else os.environ['PATH']
        if wrong in ('parser fails', 'assembler fails'):
            # stand-ins that fail after some work
            var = 'BZZPARSE' if wrong == 'parser fails' else 'BZZASM'
            env['PATH'] = path
            env[var] = os.path.join(tools, 'standin')
            with open(env[var], 'w') as f:
                f.write('#!/bin/sh\necho "stand-in fails" >&2\n%s\nexit %d\n' % (rng.choice(['', 'echo x > "$2"']) if var == 'BZZPARSE' else '', rng.choice([1, 2, 3, 77, 127, 255])))
            os.chmod(env[var], 0o755)
        bo, bdb, basm = stem_of(script) + '.bo', stem_of(script) + '.bdb', None
        for o, l, ext in (('-b', '--bytecode', '.bo'), ('-d', '--debug', '.bdb'), ('-a', '--asm', '.basm')):
            for _ in range(rng.choice([0, 0, 1, 1, 2]) if rng.random() < .6 else 0):
                f = rng.choice(['out/', '', 'a b/', os.path.join(cwd, 'out') + '/']) + rng.choice(['res', 'my out', 'r.1']) + rng.choice([ext, '', '.x'])
                # outputs must be different files
                if os.path.realpath(os.path.join(cwd, f)) in [os.path.realpath(os.path.join(cwd, y)) for y in (bo, bdb, basm, script) if y]:
                    continue
                opts.append([rng.choice([o, l]), f])
                if o == '-b':
                    bo = f
                elif o == '-d':
                    bdb = f
                else:
                    basm = f
        if wrong == 'unwritable':
            if rng.random() < .5:
                opts.append(['-b', 'no/such/dir/x.bo'])
            else:
                opts.append(['-d', 'no/such/dir/x.bdb'])
        # options of the same kind keep their order
        slots = [rng.random() for _ in opts]
        slots.sort()
        at = rng.random()
        argv = []
        placed = wrong == 'noscript'
        for s, o in zip(slots, opts):
            if s > at and not placed:
                argv.append(script)
                placed = True
            argv += o
        if not placed:
            argv.append(script)
        if wrong == 'noarg':
            argv.append(rng.choice(['-b', '-d', '-a', '-I', '--bytecode', '--debug', '--asm', '--include']))
        if wrong == 'two':
            argv.append(rng.choice(['other.bzz', script, '-x', '--nothing']))
        if wrong in ('version', 'help'):
            argv.insert(0, rng.choice(['-v', '--version'] if wrong == 'version' else ['-h', '--help']))
        first = None
        if lib:
            for w in ['.'] + order:
                if w in libs:
                    first = w
                    break
        # files that have nothing to do with the compilation, and old outputs
        decoys = ['.basm', 'a.basm', 'bzz.tmp', 'bzz.basm', 'out.bo', stem_of(script) + '.basm', stem_of(script) + '.tmp', script + '.bo', script + '~', 'a.bo', 'a.out']
        outs = [os.path.realpath(os.path.join(cwd, y)) for y in (bo, bdb, basm, script) if y]
        for y in decoys:
            y = os.path.join(cwd, y)
            if rng.random() < .4 and os.path.realpath(y) not in outs and not os.path.exists(y):
                open(y, 'w').write('keep me\n')
        stale = set()
        if not wrong:
            for y in (bo, bdb, basm):
                if y and rng.random() < .3:
                    open(os.path.join(cwd, y), 'w').write('old ' * rng.choice([1, 5000]))
                    stale.add(y)
        files = {os.path.join('cwd', k): v.decode('latin-1') for k, v in tree(cwd).items()}
        before = tree(os.path.join(top, 'w'))
        r['keys'].append(repr((argv, sorted(env.get(k, '') for k in ('BUZZ_INCLUDE_PATH', 'BZZPARSE')), text)))
        p = subprocess.run([cmd] + argv, cwd=cwd, env=env, capture_output=True, timeout=120, stdin=subprocess.DEVNULL)
        after = tree(os.path.join(top, 'w'))
        say = (p.stdout + p.stderr).decode('latin-1')
        rel = lambda f: os.path.relpath(os.path.realpath(os.path.join(cwd, f)), os.path.realpath(os.path.join(top, 'w')))
        new = set(after) - set(before)
        msg = None
        what = 'bzzc %r (BUZZ_INCLUDE_PATH=%r)' % (argv, env.get('BUZZ_INCLUDE_PATH'))
        old = {rel(y) for y in stale}
        changed = [f for f in before if after.get(f) != before[f] and f not in old]
        new |= old & set(after)
        fails = wrong not in (None, 'version', 'help') or (lib and first is None and wrong is None)
        if changed:
            msg = '%s changed or removed %r' % (what, changed)
        elif wrong in ('version', 'help'):
            note('information asked')
            if p.returncode or new or not say.strip():
                msg = '%s: exit status %d, files %r, output %r' % (what, p.returncode, sorted(new), say[:200])
        elif fails:
            note('refused')
            allowed = {rel(f) for f in (basm,) if f} | old
            if wrong == 'unwritable':
                allowed |= {rel(bo), rel(bdb)}
            if p.returncode == 0:
                msg = '%s succeeds, although %s' % (what, dict(syntax='the script is wrong', missing='there is no script', noarg='an argument is missing', two='there are two scripts',
                                                            noscript='no script is named', unwritable='an output cannot be written',
                                                            notool='the parser is not installed', **{'parser fails': 'the parser fails', 'assembler fails': 'the assembler fails'}).get(wrong, 'an included file does not exist'))
            elif not say.strip():
                msg = '%s fails (%s) without a message' % (what, wrong)
            elif new - allowed:
                msg = '%s fails (%s) and leaves %r behind' % (what, wrong, sorted(new - allowed))
        else:
            note('compiled')
            want = {rel(bo), rel(bdb)} | ({rel(basm)} if basm else set())
            if p.returncode:
                msg = '%s fails with exit status %d: %s' % (what, p.returncode, say[:300])
            elif new != want:
                msg = '%s wrote the files %r, expected %r' % (what, sorted(new), sorted(want))
            else:
                # what the parser and the assembler give
                e2 = dict(env, BUZZ_INCLUDE_PATH=os.path.join(cwd, first) if first else '')
                ref = os.path.join(top, 'ref')
                a = subprocess.run([os.path.join(bind, 'bzzparse'), script, ref + '.basm'], cwd=cwd, env=e2, capture_output=True, timeout=60)
                b = subprocess.run([os.path.join(bind, 'bzzasm'), ref + '.basm', ref + '.bo', ref + '.bdb'], cwd=cwd, env=e2, capture_output=True, timeout=60)
                if a.returncode or b.returncode:
                    msg = 'the parser and the assembler refuse what %s accepts' % what
                else:
                    note('outputs compared')
                    if lib:
                        note('include paths searched')
                    read = lambda x: open(ref + x, 'rb').read()
                    clean = lambda t: re.sub(rb'[^\t\n,|]*/', b'', t)
                    for f, x in ((bo, '.bo'), (bdb, '.bdb'), (basm, '.basm')):
                        if f is None:
                            continue
                        g, w = after[rel(f)], read(x)
                        if x == '.basm':
                            g, w = clean(g), clean(w)
                        if x == '.bdb':
                            # paths may be spelled in different ways
                            try:
                                g, w = [[(o, l[0], l[1], os.path.realpath(os.path.join(cwd, l[2]))) for o, l in sorted(b20.debugfile(y).items())] for y in (g, w)]
                            except Exception:
                                pass
                        if g != w:
                            msg = '%s: %s is not what the parser and the assembler give%s' % (what, f, ' with the %s of directory %s' % ('lib.bzz', first) if lib else '')
        if msg:
            sh = ' '.join("'" + x.replace("'", "'\\''") + "'" for x in argv)
            r['violations'].append(dict(msg=msg, files={k.replace('/', '__'): v for k, v in files.items()}, replay='echo %s' % ("'" + msg.replace("'", "'\\''")[:1500] + "'")))
            break
        shutil.rmtree(top, ignore_errors=True)
    r['samples'] = [dict(argv=argv, script=script, include_path=env.get('BUZZ_INCLUDE_PATH'), wrong=wrong)]
    return r


STAGES = [Direct('command lines', stage, 120, 4000)]
