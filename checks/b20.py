"""B20: the command-line tools hand the program on unchanged."""
import os, re, struct, subprocess
import lang
from gen import make
from run import Direct
from util import *

RULE = ('Generated programs and random assembly texts (all instructions, labels, comments, strings with special characters, debug positions, odd file names) go through the real bzzparse, bzzasm, bzzdeasm and bzzrun; '
        'bytecode and debug file are compared byte by byte with a reference assembler, the listing with the bytecode, a reassembled listing with the original, and the output and exit status of bzzrun with the reference interpreter. '
        'Ill-formed assembly must be refused with a message; cut or changed bytecode is listed as it is or refused. The trace of bzzrun shows the instructions executed. Files that are missing, directories, or cannot be written (also because the device is full after a random number of bytes) must be reported. Non-trivial: all.')
ASSUMPTIONS = ['instruction codes are whatever the assembler uses, as long as they differ']

NOARG = 'nop done pushnil dup pop ret0 ret1 add sub mul div mod pow unm land lor lnot band bor bnot lshift rshift eq neq gt gte lt lte gload gstore pusht tput tget callc calls'.split()
IARG = 'pushi pushs pushcn pushcc pushl lload lstore lremove'.split()
LARG = 'jump jumpz jumpnz'.split()
CODES = {}


def codes(ctx):
    """Learns the code of each instruction."""
    if CODES:
        return CODES
    for k in NOARG + IARG + LARG + ['pushf']:
        a, o, d = (os.path.join(ctx.work, 'cal' + x) for x in ('.basm', '.bo', '.bdb'))
        open(a, 'w').write('!0\n@l\n%s%s\n' % (k, ' 1' if k in IARG else ' @l' if k in LARG else ' 1.5' if k == 'pushf' else ''))
        rc, so, se = ctx.tool(['bzzasm', a, o, d])
        b = open(o, 'rb').read()
        if rc != 0 or len(b) != (7 if k not in NOARG else 3):
            raise Viol('%s assembles to %r' % (k, b))
        CODES[k] = b[2]
    if len(set(CODES.values())) != len(CODES):
        raise Viol('instructions with the same code: %r' % CODES)
    return CODES


class Viol(Exception):
    pass


def assemble(text, cd):
    """The reference assembler: (bytes, {offset: (line, col, file)}) or None if the text is wrong."""
    out, dbg, labs, subs = bytearray(), {}, {}, []
    for l in text.split('\n'):
        l = l.lstrip(' \t\r\f\v')
        if not l or l[0] == '#':
            continue
        if l[0] == "'":
            s = re.sub(r'\\([n\\])', lambda m: '\n' if m.group(1) == 'n' else '\\', l[1:])
            out += s.encode('latin-1') + b'\0'
            continue
        l = l.rstrip()
        if l[0] == '!':
            out += struct.pack('<H', int(l[1:]) & 65535)
            continue
        code, _, d = l.partition('|')
        if d:
            ln, c, f = d.split(',', 2)
            dbg[len(out)] = (int(ln), int(c), f)
        code = code.rstrip()
        if code[0] == '@':
            labs[code] = len(out)
            continue
        w = re.split('[ \t]', code)
        if w[0] not in cd:
            return None
        out.append(cd[w[0]])
        if w[0] in NOARG:
            continue
        if len(w) < 2 or not w[1]:
            return None
        if w[0] == 'pushf':
            out += struct.pack('<f', lang.f32(float(w[1])))
        elif w[0] in LARG or not re.match(r'[-+]?[0-9]', w[1]):
            subs.append((len(out), w[1]))
            out += b'\0\0\0\0'
        else:
            out += struct.pack('<i', lang.i32(int(w[1])))
    for p, l in subs:
        if l not in labs or labs[l] >= len(out):
            return None
        out[p:p + 4] = struct.pack('<i', labs[l])
    return bytes(out), dbg


def debugfile(b):
    d, p = {}, 0
    while p < len(b):
        off, ln, c, n = struct.unpack_from('<IQQH', b, p)
        p += 22
        d[off] = (ln, c, b[p:p + n].decode('latin-1'))
        p += n
    return d


def listing(text, bc, dbg, cd):
    """Compares a disassembly with the bytecode; returns the text to assemble again (floats taken from the bytecode)."""
    ls = text.split('\n')
    if ls[-1] != '':
        raise Viol('the listing does not end in a newline')
    ls.pop()
    n = struct.unpack_from('<H', bc)[0]
    if ls[0] != '!%d' % n:
        raise Viol('the listing begins with %r instead of the %d strings' % (ls[0], n))
    p = 2
    out = [ls[0]]
    for i in range(n):
        e = bc.index(b'\0', p)
        s = bc[p:e].decode('latin-1')
        l = "'" + s.replace('\\', '\\\\').replace('\n', '\\n')
        if ls[1 + i] != l:
            raise Viol('string %d is listed as %r instead of %r' % (i, ls[1 + i], l))
        out.append(l)
        p = e + 1
    ins, targets = [], set()
    names = {v: k for k, v in cd.items()}
    for l in ls[1 + n:]:
        name = names.get(bc[p]) if p < len(bc) else None
        m = re.match(r'(\d+):\t(\w+)(?: (\S+))?(?:\t\|(\d+),(\d+),(.*))?$', l)
        if not m or int(m.group(1)) != p or m.group(2) != name:
            raise Viol('listing line %r for offset %d (%s)' % (l, p, name))
        a = None
        if name not in NOARG:
            if name == 'pushf':
                v = struct.unpack_from('<f', bc, p + 1)[0]
                if m.group(3).lstrip('-') != ('%f' % v).lstrip('-') if v != v else float(m.group(3)) != float('%f' % v):
                    raise Viol('listing line %r for the float %r' % (l, v))
                a = repr(v)
            else:
                v = struct.unpack_from('<i', bc, p + 1)[0]
                if m.group(3) != str(v):
                    raise Viol('listing line %r for the argument %d' % (l, v))
                a = str(v)
                if name in LARG:
                    targets.add(v)
                    a = '@L%d' % v
        elif m.group(3):
            raise Viol('listing line %r for an instruction without argument' % l)
        d = (int(m.group(4)), int(m.group(5)), m.group(6)) if m.group(4) else None
        if d != dbg.get(p):
            raise Viol('listing line %r, the debug information is %r' % (l, dbg.get(p)))
        ins.append((p, name + (' ' + a if a else '') + ('\t|%d,%d,%s' % d if d else '')))
        p += 1 if name in NOARG else 5
    if p != len(bc):
        raise Viol('the listing ends at offset %d of %d' % (p, len(bc)))
    for q, l in ins:
        if q in targets:
            out.append('@L%d' % q)
        out.append(l)
    return '\n'.join(out) + '\n', targets <= {q for q, _ in ins}


def crash(name, rc, se):
    if rc == 'timeout' or rc not in (0, 1, 2):
        raise Viol('%s ended with %r: %s' % (name, rc, se[-1500:]))


def rasm(rng):
    """A random assembly text."""
    f = rng.choice(['a.bzz', '/x/y z/s.bzz', 'a,b.bzz', 'p|q.bzz', 'x' * rng.choice([500, 511, 512, 513, 2000]), 'r\xe9.bzz'])
    L = []
    k = rng.choice([0, 1, 3, 20, 300])
    L.append('!%d' % k)
    for _ in range(k):
        s = rstr(rng, True).replace('\0', '').replace('\r', '')
        L.append(rng.choice(['', '', ' ', '\t']) + "'" + s.replace('\\', '\\\\').replace('\n', '\\n'))
    n = rng.choice([1, 5, 40, 200, 1000])
    labels = ['@l%d' % i if rng.random() < .5 else '@lab_%d_%s' % (i, rng.choice('abc')) for i in range(rng.randint(1, 8))]
    pos = sorted(rng.randint(0, n - 1) for _ in labels)
    at = {}
    for l, p in zip(rng.sample(labels, len(labels)), pos):
        at.setdefault(p, []).append(l)
    for i in range(n):
        while rng.random() < .05:
            L.append(rng.choice(['', '# comment', '   ', '\t# x', '#|1,2,f']))
        for l in at.get(i, []):
            L.append(l + ('\t|%d,%d,%s' % (rng.randint(0, 99999), rng.randint(0, 300), f) if rng.random() < .5 else ''))
        x = rng.random()
        if x < .45:
            t = rng.choice(NOARG)
        elif x < .6:
            t = rng.choice(LARG) + ' ' + rng.choice(labels)
        elif x < .75:
            v = lang.f32(rng.choice([0.0, -0.0, 1e-3, 3.4e38, rng.uniform(-1e6, 1e6), rng.gauss(0, 1), 1e-30, 12345.678]))
            t = 'pushf ' + rng.choice(['%f', '%.9g', '%e']) % v
        else:
            t = rng.choice(IARG) + rng.choice([' ', ' ', '\t']) + (rng.choice(labels) if rng.random() < .2 else str(rng.choice([0, 1, -1, 5, 2**31 - 1, -2**31, rng.randint(-2**31, 2**31 - 1)])))
        d = ''
        if rng.random() < .4:
            d = '\t|%d,%d,%s' % (rng.choice([0, 1, 77, 2**31, 2**32 + 5, rng.randint(1, 5000)]), rng.randint(0, 500), f)
        L.append(rng.choice(['', '', '\t', '  ']) + t + (d or rng.choice(['', '', ' ', '\t'])))
    if rng.random() < .15:
        # an error
        L.insert(rng.randint(1 + k, len(L)), rng.choice(['foo', 'pushi', 'jump', 'jump @nowhere', 'pushf', 'ADD', 'pushi @nolab', 'jumpz', 'lload', 'pushs @', 'pus 1', 'pushii 3']))
    if rng.random() < .05:
        # a label at the end
        L += ['@theend']
        L.insert(1 + k, 'jump @theend')
    return '\n'.join(L) + rng.choice(['\n', ''])


def stage_asm(rng, ctx):
    r = dict(evaluations=0, keys=[], violations=[], notes={'instructions': 0, 'refused': 0, 'listings': 0}, samples=[])
    w = lambda n: os.path.join(ctx.work, n)
    try:
        cd = codes(ctx)
    except Viol as e:
        r['violations'].append(dict(msg=str(e), replay='$D/bzzasm'))
        r['evaluations'], r['keys'] = 1, ['codes']
        return r
    for _ in range(12):
        t = rasm(rng)
        r['evaluations'] += 1
        r['keys'].append(str(hash(t)))
        try:
            open(w('a.basm'), 'wb').write(t.encode('latin-1'))
            for n in ('a.bo', 'a.bdb'):
                if os.path.exists(w(n)):
                    os.unlink(w(n))
            rc, so, se = ctx.tool(['bzzasm', 'a.basm', 'a.bo', 'a.bdb'])
            crash('bzzasm', rc, se)
            ref = assemble(t, cd)
            if ref is None:
                r['notes']['refused'] += 1
                if rc == 0 or not se.strip():
                    raise Viol('a wrong assembly text is accepted: %d %r' % (rc, se[-300:]))
                continue
            if rc != 0:
                raise Viol('a correct assembly text is refused: %r' % se[-500:])
            bc, dbg = ref
            got = open(w('a.bo'), 'rb').read()
            if got != bc:
                i = next((i for i, (x, y) in enumerate(zip(got, bc)) if x != y), min(len(got), len(bc)))
                raise Viol('bytecode of %d bytes instead of %d, first difference at %d: %r instead of %r' % (len(got), len(bc), i, got[i:i + 10], bc[i:i + 10]))
            d = debugfile(open(w('a.bdb'), 'rb').read())
            if d != dbg:
                k = sorted(k for k in set(d) | set(dbg) if d.get(k) != dbg.get(k))[0]
                raise Viol('debug information of offset %d is %r instead of %r' % (k, d.get(k), dbg.get(k)))
            r['notes']['instructions'] += len(t.split('\n'))
            rc, so, se = ctx.tool(['bzzdeasm', 'a.bo', 'a.bdb', 'a.lst'])
            crash('bzzdeasm', rc, se)
            if rc != 0:
                raise Viol('bzzdeasm refuses what bzzasm made: %r' % se[-500:])
            listing(open(w('a.lst'), 'rb').read().decode('latin-1'), bc, dbg, cd)
            r['notes']['listings'] += 1
        except Viol as e:
            r['violations'].append(dict(msg=str(e), files={'a.basm': t}, replay='$D/bzzasm a.basm a.bo a.bdb && $D/bzzdeasm a.bo a.bdb a.lst'))
            break
    r['samples'] = [dict(text=t[:600])]
    return r


NAMES = ['p.bzz', 'my script.bzz', 'a,b.bzz', 'x|y.bzz', 'deep/er/q.bzz', 'n' * 200 + '.bzz', "it's.bzz", 'no_extension', 'p.q.bzz']
PRE = 'trace = log function cfirst(a) { return a } function ccall(f, a) { return f(a) } function gc() { } cyc = {.a = {}} cyc.a.b = cyc '


def fmt(v):
    if v is None:
        return r'\[nil\]'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return re.escape(v)
    if v[0] == 'f':
        return r'-?nan' if v[1] == 'nan' else re.escape('%f' % v[1]) if v[1] else r'-?0\.000000'
    if v[0] == 't':
        return r'\[table with %d elems\]' % len(v[1])
    if v[0] == 'c':
        return r'\[[nc]-closure @\d+\]'
    return r'.*'


def same(a, b):
    return re.sub('0x[0-9a-f]+', '', a) == re.sub('0x[0-9a-f]+', '', b)


def instr(bc, off, cd):
    """The text of one instruction"""
    n = {v: k for k, v in cd.items()}.get(bc[off])
    if n is None or n in NOARG:
        return n
    if off + 5 > len(bc):
        return None
    v = struct.unpack_from('<f' if n == 'pushf' else '<i', bc, off + 1)[0]
    return None if v != v else '%s %f' % (n, v) if n == 'pushf' else '%s %d' % (n, v)


def decodes(bc, cd):
    """Can these bytes be disassembled? True, False or None (open)."""
    if len(bc) < 2:
        return False
    n = struct.unpack_from('<H', bc)[0]
    p = 2
    for i in range(n):
        if p >= len(bc):
            return False
        e = bc.find(b'\0', p)
        if e < 0:
            return None if i + 1 == n else False
        p = e + 1
    names = {v: k for k, v in cd.items()}
    while p < len(bc):
        if bc[p] not in names:
            return False
        p += 1 if names[bc[p]] in NOARG else 5
    return p == len(bc)


def stage_damaged(rng, ctx):
    """Bytecode files that were cut or changed: listed as they are, or refused."""
    r = dict(evaluations=0, keys=[], violations=[], notes={'listed': 0, 'refused': 0}, samples=[])
    w = lambda n: os.path.join(ctx.work, n)
    cd = codes(ctx)
    while r['evaluations'] < 40:
        t = rasm(rng)
        ref = assemble(t, cd)
        if ref is None:
            continue
        bc0, dbg = ref
        open(w('a.basm'), 'wb').write(t.encode('latin-1'))
        rc, so, se = ctx.tool(['bzzasm', 'a.basm', 'a.bo', 'a.bdb'])
        if rc != 0:
            continue        # the assembler stage reports it
        for _ in range(8):
            r['evaluations'] += 1
            bc = bytearray(bc0)
            k = rng.random()
            if k < .45:
                del bc[rng.choice([rng.randrange(len(bc) + 1), max(0, len(bc) - rng.randint(1, 6))]):]
            elif k < .75:
                for _ in range(rng.choice([1, 1, 3])):
                    if bc:
                        bc[rng.randrange(len(bc))] = rng.choice([0, 1, 255, 128, max(cd.values()), max(cd.values()) + 1, rng.randrange(256)])
            elif k < .85:
                bc[:2] = struct.pack('<H', rng.choice([0, 1, 65535, struct.unpack_from('<H', bc0)[0] + rng.choice([-1, 1]) & 65535]))
            else:
                bc += bytes(rng.choice(list(cd.values()) + [255]) for _ in range(rng.randint(1, 6)))
            bc = bytes(bc)
            r['keys'].append(str(hash(bc)))
            open(w('d.bo'), 'wb').write(bc)
            if os.path.exists(w('d.lst')):
                os.unlink(w('d.lst'))
            try:
                rc, so, se = ctx.tool(['bzzdeasm', 'd.bo', 'a.bdb', 'd.lst'])
                crash('bzzdeasm', rc, se)
                ok = decodes(bc, cd)
                if rc != 0:
                    r['notes']['refused'] += 1
                    if ok:
                        raise Viol('bzzdeasm refuses a bytecode that can be listed: %r' % se[-500:])
                    if not se.strip():
                        raise Viol('bzzdeasm fails without a message')
                else:
                    if ok is False:
                        raise Viol('bzzdeasm lists a bytecode that cannot be read to its end')
                    if ok:
                        r['notes']['listed'] += 1
                        listing(open(w('d.lst'), 'rb').read().decode('latin-1'), bc, dbg, cd)
            except Viol as e:
                r['violations'].append(dict(msg=str(e), files={'a.basm': t, 'd.hex': bc.hex()},
                                            replay="$D/bzzasm a.basm a.bo a.bdb; python3 -c \"open('d.bo','wb').write(bytes.fromhex(open('d.hex').read()))\"; $D/bzzdeasm d.bo a.bdb d.lst; echo rc=$?; cat d.lst"))
                return r
    r['samples'] = [dict(text=t[:300], damaged=bc.hex()[:200])]
    return r


def stage_tools(rng, ctx):
    r = dict(evaluations=0, keys=[], violations=[], notes={'programs': 0, 'values logged': 0, 'errors located': 0, 'instructions': 0}, samples=[])
    cd = codes(ctx)
    for _ in range(5):
        p, txt, spans, want, e, it, g = make(rng, rng.choice([0, 0, .03]), rng.choice([10, 25, 40]))
        txt = PRE + txt
        name = rng.choice(NAMES)
        r['evaluations'] += 1
        r['keys'].append(str(hash(txt)))
        wd = os.path.join(ctx.work, 'd%d' % r['evaluations'])
        os.makedirs(os.path.join(wd, os.path.dirname(name)), exist_ok=True)
        w = lambda n: os.path.join(wd, n)
        open(w(name), 'wb').write(txt.encode('latin-1'))
        try:
            texts = []
            for o in ('a.basm', 'b.basm'):
                rc, so, se = ctx.tool(['bzzparse', name, o], cwd=wd)
                crash('bzzparse', rc, se)
                if rc != 0:
                    raise Viol('bzzparse refuses the program: %r' % se[-500:])
                texts.append(open(w(o), 'rb').read().decode('latin-1'))
            if texts[0] != texts[1]:
                raise Viol('compiling twice gives different assembly texts')
            rc, so, se = ctx.tool(['bzzasm', 'a.basm', 'a.bo', 'a.bdb'], cwd=wd)
            crash('bzzasm', rc, se)
            if rc != 0:
                raise Viol('bzzasm refuses the output of bzzparse: %r' % se[-500:])
            ref = assemble(texts[0], cd)
            if ref is None:
                raise Viol('bzzparse wrote an assembly text that is wrong')
            bc, dbg = ref
            got = open(w('a.bo'), 'rb').read()
            if got != bc:
                raise Viol('bzzasm: bytecode differs from the assembly text (%d bytes, expected %d)' % (len(got), len(bc)))
            d = debugfile(open(w('a.bdb'), 'rb').read())
            if d != dbg:
                raise Viol('bzzasm: debug file differs from the assembly text')
            nl = txt.count('\n') + 2
            cols = [len(x) + 2 for x in txt.split('\n')] + [10**6]
            for off, (ln, c, f) in dbg.items():
                if f != name and not f.endswith('/' + name) or not 1 <= ln <= nl or c > cols[ln - 1]:
                    raise Viol('offset %d has position %r in %r' % (off, (ln, c, f), name))
            rc, so, se = ctx.tool(['bzzdeasm', 'a.bo', 'a.bdb', 'a.lst'], cwd=wd)
            crash('bzzdeasm', rc, se)
            if rc != 0:
                raise Viol('bzzdeasm refuses the output of bzzasm: %r' % se[-500:])
            again, ok = listing(open(w('a.lst'), 'rb').read().decode('latin-1'), bc, dbg, cd)
            r['notes']['instructions'] += again.count('\n')
            if ok and 'inf' not in again and 'nan' not in again:
                open(w('c.basm'), 'wb').write(again.encode('latin-1'))
                rc, so, se = ctx.tool(['bzzasm', 'c.basm', 'c.bo', 'c.bdb'], cwd=wd)
                crash('bzzasm', rc, se)
                if rc != 0 or open(w('c.bo'), 'rb').read() != bc:
                    raise Viol('assembling the listing again gives another bytecode: %s' % se[-300:])
                if debugfile(open(w('c.bdb'), 'rb').read()) != dbg:
                    raise Viol('assembling the listing again gives other debug information')
            rc, so, se = ctx.tool(['bzzrun', 'a.bo', 'a.bdb'], cwd=wd)
            crash('bzzrun', rc, se)
            so = so.decode('latin-1')
            r['notes']['programs'] += 1
            rx = ''.join(''.join(fmt(v) for v in ev) + '\n' for ev in want)
            r['notes']['values logged'] += sum(len(ev) for ev in want)
            if e is None:
                if rc != 0 or not re.fullmatch(rx + r'a\.bo: execution terminated correctly\n\n', so, re.S):
                    raise Viol('bzzrun: exit %r, output %r..., expected pattern %r... stderr %r' % (rc, so[:1500], rx[:1500], se[-300:]))
            else:
                if rc != 1 or not re.fullmatch(rx, so, re.S):
                    raise Viol('bzzrun: exit %r, output %r..., expected an error after %r... stderr %r' % (rc, so[:1500], rx[:1500], se[-300:]))
                m = re.search(r'a\.bo: execution terminated abnormally at (.*):(\d+):(\d+) : (.+)', se, re.S)
                if not m or m.group(1) != name and not m.group(1).endswith('/' + name):
                    raise Viol('bzzrun does not locate the error: %r' % se[-500:])
                r['notes']['errors located'] += 1
            if rng.random() < .2:
                # tracing shows every instruction and changes nothing else
                rc2, so2, se2 = ctx.tool(['bzzrun', '--trace', 'a.bo', 'a.bdb'], cwd=wd, flavour='plain')
                crash('bzzrun --trace', rc2, se2)
                so2 = so2.decode('latin-1')
                blocks = re.findall(r'code size: (\d+)\toldpc: (\d+)\tpc: (\d+)\n.*?\ncur instr: (.*?)\nnext instr: (.*?)\n', so2)
                for size, opc, pc, cur, nxt in blocks:
                    if int(size) != len(bc):
                        raise Viol('bzzrun --trace shows a code of %s bytes' % size)
                    for off, txt2 in ((opc, cur), (pc, nxt)):
                        w2 = instr(bc, int(off), cd)
                        if w2 != txt2 and w2 is not None:
                            raise Viol('bzzrun --trace shows %r at %s, the bytecode has %r' % (txt2, off, w2))
                for (_, o1, p1, c1, n1), (_, o2, p2, c2, n2) in zip(blocks, blocks[1:]):
                    # one instruction per line of the trace; calls may run further instructions within the native function called
                    if o2 != p1 and not n1.startswith('call'):
                        raise Viol('bzzrun --trace: after the dump with next instruction %r at %s comes one whose last instruction is at %s' % (n1, p1, o2))
                parts = re.split(r'={60}\nstate: .*?\n={60}\n\n', so2, flags=re.S)
                r['notes']['instructions traced'] = r['notes'].get('instructions traced', 0) + len(parts) - 1
                if rc2 != rc or se2 != se or len(parts) < 5 or not same(''.join(parts), so):
                    raise Viol('bzzrun --trace: exit %r instead of %r, output %r, without --trace %r' % (rc2, rc, ''.join(parts)[:500], so[:500]))
        except Viol as ex:
            r['violations'].append(dict(msg=str(ex), files={'p.bzz': txt}, replay="mkdir -p deep/er; cp p.bzz '%s'; $D/bzzparse '%s' a.basm && $D/bzzasm a.basm a.bo a.bdb && $D/bzzdeasm a.bo a.bdb a.lst; $D/bzzrun a.bo a.bdb" % (name.replace("'", "'\\''"), name.replace("'", "'\\''"))))
            break
    r['samples'] = [dict(text=txt[:600])]
    return r


def stage_io(rng, ctx):
    """Files that cannot be read or written, also because the device is full after some bytes."""
    r = dict(evaluations=0, keys=[], violations=[], notes={}, samples=[])

    def note(k):
        r['notes'][k] = r['notes'].get(k, 0) + 1
    for n in range(4):
        wd = os.path.join(ctx.work, 'io%d' % n)
        os.makedirs(os.path.join(wd, 'dir'))
        txt = make(rng, 0, rng.choice([2, 10, 30]))[1]
        w = lambda x: os.path.join(wd, x)
        open(w('p.bzz'), 'w').write(txt)
        good = {}
        T = {'bzzparse': (['p.bzz'], ['a.basm']), 'bzzasm': (['a.basm'], ['a.bo', 'a.bdb']), 'bzzdeasm': (['a.bo', 'a.bdb'], ['a.lst'])}
        try:
            for t, (ins, outs) in T.items():
                rc, so, se = ctx.tool([t] + ins + outs, cwd=wd, flavour='plain')
                if rc != 0:
                    raise Viol('%s fails with %r: %s' % (t, rc, se[-300:]))
                for o in outs:
                    good[o] = open(w(o), 'rb').read()
            for _ in range(10):
                r['evaluations'] += 1
                t = rng.choice(sorted(T) + ['bzzrun'])
                ins, outs = T.get(t, (['a.bo', 'a.bdb'], []))
                ins, outs = list(ins), ['o' + x for x in outs]
                env = {}
                if t == 'bzzparse' and rng.random() < .5:
                    env = {'BUZZ_INCLUDE_PATH': rng.choice(['', 'dir', ':', '/nowhere'])}
                how = rng.choice(['missing input', 'directory as input', 'unwritable output', 'full device', 'output ends early', 'output ends early', 'output just fits'])
                if t == 'bzzrun':
                    how = rng.choice(['missing input', 'directory as input', 'no debug information'])
                if t == 'bzzdeasm' and rng.random() < .2:
                    how = 'no debug information'
                if t == 'bzzparse' and rng.random() < .2:
                    how = 'no symbol file'
                k = rng.randrange(len(outs) or 1)
                lim = None
                # missing debug information is only reported
                if how == 'missing input':
                    ins[0] = rng.choice(['nope', 'dir/nope', 'nowhere/x', ''])
                elif how == 'directory as input':
                    ins[0] = rng.choice(['dir', '.'])
                elif how == 'no debug information':
                    ins[1] = rng.choice(['nope', 'dir', 'nowhere/x', ''])
                elif how == 'no symbol file':
                    outs.append(rng.choice(['nope', 'dir', 'nowhere/x', '']))
                elif how == 'unwritable output':
                    outs[k] = rng.choice(['nowhere/x', 'dir', ''])
                elif how == 'full device':
                    outs[k] = '/dev/full'
                    if not good[T[t][1][k]]:
                        continue
                elif how == 'output ends early':
                    m = max(len(good[o]) for o in T[t][1])
                    lim = rng.choice([0, 1, m - 1, rng.randrange(m), max(0, m - m % 4096 - 1), m - m % 4096])
                    if lim >= m:
                        continue
                else:
                    lim = max(len(good[o]) for o in T[t][1]) + rng.choice([0, 0, 1, 50])
                for o in outs:
                    if o and not o.startswith('/') and os.path.isfile(w(o)):
                        os.remove(w(o))

                def pre(lim=lim):
                    import resource, signal
                    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
                    if lim is not None:
                        resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim))
                e = dict(ctx.env)
                e.pop('BUZZ_INCLUDE_PATH', None)
                e.update(env)
                argv = [t] + ins + outs
                r['keys'].append(repr((argv, lim, how, len(txt))))
                try:
                    q = subprocess.run([os.path.join(ctx.bindirs['plain'], t)] + argv[1:], cwd=wd, env=e, capture_output=True, timeout=60, preexec_fn=pre)
                except subprocess.TimeoutExpired:
                    raise Viol('%r does not end (%s)' % (argv, how))
                say = (q.stdout + q.stderr).decode('latin-1')
                note(how)
                if how == 'output just fits':
                    if q.returncode or any(open(w(o), 'rb').read() != good[o[1:]] for o in outs):
                        raise Viol('%r fails or gives other results, although the outputs fit in %d bytes: %d %s' % (argv, lim, q.returncode, say[-300:]))
                    continue
                if q.returncode < 0 or q.returncode > 100:
                    raise Viol('%r crashes with %d (%s%s): %s' % (argv, q.returncode, how, '' if lim is None else ', after %d bytes' % lim, say[-300:]))
                if how == 'no debug information':
                    if q.returncode and t == 'bzzdeasm' or not q.stderr.strip():
                        raise Viol('%r: exit status %d, message %r' % (argv, q.returncode, q.stderr[:200]))
                    continue
                if q.returncode == 0:
                    raise Viol('%r succeeds (%s%s)' % (argv, how, '' if lim is None else ', after %d bytes' % lim))
                if not say.strip():
                    raise Viol('%r fails without a message (%s)' % (argv, how))
        except Viol as ex:
            r['violations'].append(dict(msg=str(ex), files={'p.bzz': txt}, flavour='plain',
                                        replay='$D/bzzparse p.bzz a.basm && $D/bzzasm a.basm a.bo a.bdb && $D/bzzdeasm a.bo a.bdb a.lst; $D/bzzasm a.basm /dev/full o.bdb; echo rc=$?'))
            break
    r['samples'] = [dict(program=txt)]
    return r


STAGES = [Direct('assembler', stage_asm, 40, 1500), Direct('tools', stage_tools, 60, 2500), Direct('damaged bytecode', stage_damaged, 16, 600),
          Direct('unreadable and unwritable files', stage_io, 30, 1000)]
FLAVOURS = ('asan', 'plain')
