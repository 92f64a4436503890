"""Builds the code under test from /repo's working tree, with the harness.

Flavours:
  asan   clang, AddressSanitizer + UndefinedBehaviorSanitizer, -O1
  plain  gcc -O2, assertions as in the repository's build
"""
import glob, hashlib, os, re, shutil, subprocess, sys, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src', 'buzz')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))

FLAV = {
    'asan': ('clang', ['-O1', '-g', '-fno-omit-frame-pointer',
                       '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
                       '-fno-sanitize=function']),
    'plain': ('gcc', ['-O2', '-g', '-D_FORTIFY_SOURCE=0']),
}


class BuildError(Exception):
    pass


def _hash(flavour, harness):
    h = hashlib.sha256()
    h.update(repr(FLAV[flavour]).encode())
    h.update(repr(harness).encode())
    fs = sorted(glob.glob(os.path.join(SRC, '*.[ch]')) + glob.glob(os.path.join(SRC, '*.in')))
    fs += sorted(glob.glob(os.path.join(VERIF, 'harness', '*.[ch]')))
    for f in fs:
        h.update(f.encode())
        h.update(open(f, 'rb').read())
    return h.hexdigest()[:20]


def _cc(args):
    r = subprocess.run(args, capture_output=True, text=True)
    if r.returncode:
        raise BuildError(' '.join(args) + '\n' + r.stderr[-4000:])


TOOLS = ('bzzparse', 'bzzasm', 'bzzdeasm', 'bzzrun')


def build(flavour='asan', harness=('vh', 'vc')):
    """Returns the directory with the harness programs and the tools."""
    d = os.path.join(BUILD, flavour + '-' + _hash(flavour, harness))
    if os.path.exists(os.path.join(d, 'ok')):
        return d
    t = d + '.tmp%d' % os.getpid()
    shutil.rmtree(t, ignore_errors=True)
    os.makedirs(os.path.join(t, 'inc', 'buzz'))
    cfg = ''
    cin = os.path.join(SRC, 'config.h.in')
    if os.path.exists(cin):
        for l in open(cin):
            m = re.match(r'\s*#define\s+(\w+)\s+"?@', l)
            m2 = re.match(r'\s*#cmakedefine\s+(\w+)', l)
            if m:
                cfg += '#define %s "verif"\n' % m.group(1)
            elif m2:
                cfg += '#define %s\n' % m2.group(1)
            else:
                cfg += l
    open(os.path.join(t, 'inc', 'buzz', 'config.h'), 'w').write(cfg)
    cc, fl = FLAV[flavour]
    base = [cc, '-std=gnu99', '-D_GNU_SOURCE', '-w'] + fl + \
        ['-I', os.path.join(t, 'inc'), '-I', os.path.join(REPO, 'src'), '-I', os.path.join(VERIF, 'harness')]
    lib, mains, jobs = [], [], []
    for f in sorted(glob.glob(os.path.join(SRC, '*.c'))):
        o = os.path.join(t, os.path.basename(f)[:-2] + '.o')
        jobs.append(base + ['-c', f, '-o', o])
        (mains if re.search(r'^\s*int\s+main\s*\(', open(f, errors='replace').read(), re.M) else lib).append(o)
    hos = []
    for h in harness:
        o = os.path.join(t, 'h_' + h + '.o')
        jobs.append(base + ['-c', os.path.join(VERIF, 'harness', h + '.c'), '-o', o])
        hos.append((h, o))
    with cf.ThreadPoolExecutor(16) as ex:
        list(ex.map(_cc, jobs))
    links = []
    for h, o in hos:
        links.append([cc] + fl + ['-o', os.path.join(t, h), o] + lib +
                     ['-lm'] + (['-Wl,--wrap=buzzheap_gc'] if h == 'vh' else []))
    names = {'buzzparse': 'bzzparse', 'buzzasm_main': 'bzzasm', 'buzzdeasm_main': 'bzzdeasm', 'buzzrun': 'bzzrun'}
    for o in mains:
        n = os.path.basename(o)[:-2]
        links.append([cc] + fl + ['-o', os.path.join(t, names.get(n, n)), o] + lib + ['-lm'])
    with cf.ThreadPoolExecutor(16) as ex:
        list(ex.map(_cc, links))
    open(os.path.join(t, 'ok'), 'w').write('ok')
    # keep only a few old builds
    old = sorted(glob.glob(os.path.join(BUILD, flavour + '-*', 'ok')), key=os.path.getmtime)
    for o in old[:-3]:
        shutil.rmtree(os.path.dirname(o), ignore_errors=True)
    try:
        os.rename(t, d)
    except OSError:
        shutil.rmtree(t, ignore_errors=True)
    return d


if __name__ == '__main__':
    fl = [a for a in sys.argv[1:] if a in FLAV] or list(FLAV)
    hs = tuple(a for a in sys.argv[1:] if a not in FLAV) or ('vh', 'vc')
    for f in fl:
        print(build(f, hs))
