"""B16: the string library."""
import math, re
from fractions import Fraction
import lang
from calls import case
from lang import BuzzError, F
from run import Stage
from util import *

RULE = ('Random calls of all string functions with strings of any length and content, any positions and any types of arguments, with garbage collection at chosen rates; '
        'strings live in 12 slots of a table and are made out of each other by concatenation, substring and conversion. Every result and every slot is compared with a reference model. '
        'Non-trivial: all histories.')
ASSUMPTIONS = ['strings contain no NUL byte', 'conversions follow strtol, strtof and printf in the C locale; hexadecimal floats are not generated']

PROG = '''
K = {}
function length(a) { return string.length(a) }
function sub2(a, b) { return string.sub(a, b) }
function sub3(a, b, c) { return string.sub(a, b, c) }
function concat2(a, b) { return string.concat(a, b) }
function concat3(a, b, c) { return string.concat(a, b, c) }
function concat5(a, b, c, d, e) { return string.concat(a, b, c, d, e) }
function concat18(a, b, c, d, e, f, g, h, i, j, k, l, m, n, o, p, q, r) { return string.concat(a, b, c, d, e, f, g, h, i, j, k, l, m, n, o, p, q, r) }
function concat1(a) { return string.concat(a) }
function tostring(a) { return string.tostring(a) }
function toint(a) { return string.toint(a) }
function tofloat(a) { return string.tofloat(a) }
function length0() { return string.length() }
function sub1(a) { return string.sub(a) }
function sub4(a) { return string.sub(a, 0, 1, 2) }
T = {}
function clo(x) { return x }

function put(i, s) { K[i] = s return size(K) }
function get(i) { return K[i] }
function kcat(d, a, b) { K[d] = string.concat(K[a], K[b]) return K[d] }
function kcat4(d, a, b) { K[d] = string.concat(K[a], K[b], "-", K[a]) return string.length(K[d]) }
function ksub(d, a, n, m) { K[d] = string.sub(K[a], n, m) return K[d] }
function ksub2(d, a, n) { K[d] = string.sub(K[a], n) return K[d] }
function klen(a) { return string.length(K[a]) }
function keq(a, b) { return K[a] == K[b] }
function klt(a, b) { return K[a] < K[b] }
function kkey(a, b) { var t = {} t[K[a]] = 1 t[K[b]] = 2 return {.n = size(t), .a = t[K[a]], .b = t[K[b]]} }
function knum(d, x) { K[d] = string.tostring(x) return K[d] }
function kint(a) { return string.toint(K[a]) }
'''


def f32exact(fr):
    """The float nearest to an exact value (ties to even)."""
    if fr == 0:
        return 0.0
    s = -1 if fr < 0 else 1
    fr = abs(fr)
    e = fr.numerator.bit_length() - fr.denominator.bit_length()
    while Fraction(2) ** e > fr:
        e -= 1
    while Fraction(2) ** (e + 1) <= fr:
        e += 1
    q = Fraction(2) ** (max(e, -126) - 23)
    n = fr / q
    k = n.numerator // n.denominator
    d = n - k
    if d > Fraction(1, 2) or (d == Fraction(1, 2) and k & 1):
        k += 1
    v = k * q
    return s * math.inf if v >= Fraction(2) ** 128 else s * float(v)


def length(a):
    if not isinstance(a, str):
        raise BuzzError('TYPE')
    return len(a)


def sub(a, n, m=False):
    if not isinstance(a, str):
        raise BuzzError('TYPE')
    if not isinstance(n, int):
        raise BuzzError('TYPE')
    if n < 0 or n >= len(a):
        return None
    if m is not False and not isinstance(m, int):
        raise BuzzError('TYPE')
    if m is False:
        m = len(a)
    if m < n:
        return None
    return a[n:min(m, len(a))]


def concat(*a):
    for x in a:
        if not isinstance(x, str):
            raise BuzzError('TYPE')
    return ''.join(a)


def tostring(a):
    if isinstance(a, int):
        return '%d' % a
    if isinstance(a, F):
        if a.v != a.v:
            raise lang.Unknown()
        return '%f' % a.v
    return None


WS = ' \t\n\v\f\r'


def toint(a):
    if not isinstance(a, str):
        raise BuzzError('TYPE')
    m = re.match(r'[ \t\n\v\f\r]*([+-]?[0-9]+)', a)
    if not m:
        return None
    v = int(m.group(1))
    return v if -2**31 <= v < 2**31 else None


def tofloat(a):
    if not isinstance(a, str):
        raise BuzzError('TYPE')
    m = re.match(r'[ \t\n\v\f\r]*([+-]?)(infinity|inf|nan)', a, re.I)
    if m:
        v = math.nan if m.group(2).lower() == 'nan' else math.inf
        return F(-v if m.group(1) == '-' else v)
    if re.match(r'[ \t\n\v\f\r]*[+-]?0[xX]', a):
        raise lang.Unknown()
    m = re.match(r'[ \t\n\v\f\r]*([+-]?(?:[0-9]+\.?[0-9]*|\.[0-9]+)(?:[eE][+-]?[0-9]+)?)', a)
    if not m:
        return None
    t = m.group(1)
    e = re.search(r'[eE]([+-]?[0-9]+)', t)
    if e and abs(int(e.group(1))) > 2000:
        raise lang.Unknown()
    fr = Fraction(t)
    v = f32exact(fr)
    if v == 0 and fr != 0:
        return None
    return F(v)


def numtext(rng):
    r = rng.random()
    s = rng.choice(['', '', '', '-', '+', ' ', '\t-', '--', '+-', ' + '])
    if r < .4:
        s += rng.choice(['0', '00', '7', '2147483647', '2147483648', '-2147483648', '2147483649', '4294967296', '99999999999999999999999', '1234', '007', str(rng.randint(0, 2**32))])
    elif r < .75:
        s += '%s.%s' % (rng.choice(['', '0', '1', '12', str(rng.getrandbits(rng.randint(1, 60)))]), rng.choice(['', '0', '5', '25', str(rng.getrandbits(rng.randint(1, 60)))]))
    elif r < .85:
        s += rng.choice(['inf', 'nan', 'INF', 'infinity', 'in', '.', 'e5', '1e', '16777217', '16777219', '3.4028235677973366e38', '3.4028234e38', '1e-45', '1e-46', '7.1e-46', '1.17549435e-38'])
    else:
        s += '%d.%de%d' % (rng.randint(0, 99), rng.randint(0, 99999), rng.randint(-50, 45))
    return s + rng.choice(['', '', '', 'a', ' ', '.', ' 5', 'e', 'e+', '-'])


def pos(rng, n):
    return rng.choice([0, 1, n - 1, n, n + 1, -1, rng.randint(0, n + 2), rng.randint(0, n + 2), rint(rng)])


def anyv(rng, s):
    r = rng.random()
    if r < .75:
        return s
    return rng.choice([rint(rng), rflt(rng), None, '@:T', '@:clo', rstr(rng)])


def bad(x):
    return x if not (isinstance(x, str) and x.startswith('@:')) else lang.Table()


def gen_calls(rng, n):
    out = []
    for _ in range(n):
        calls = []
        while len(calls) < 60:
            f = rng.choice(['length', 'sub2', 'sub3', 'sub3', 'concat2', 'concat3', 'concat5', 'concat18', 'concat1', 'tostring', 'toint', 'tofloat', 'tofloat', 'length0', 'sub1', 'sub4'])
            S = rstr(rng, big=True) if rng.random() < .95 else 'q' * rng.choice([1000, 65535, 65536, 100000])
            s = anyv(rng, S)
            fn = None
            if f == 'length':
                a, fn = [s], length
            elif f == 'sub2':
                a, fn = [s, anyv(rng, 0) if rng.random() < .1 else pos(rng, len(S))], sub
            elif f == 'sub3':
                a, fn = [s, pos(rng, len(S)), anyv(rng, 0) if rng.random() < .1 else pos(rng, len(S))], sub
            elif f.startswith('concat') and f != 'concat1':
                a, fn = [s] + [rstr(rng, big=True) if rng.random() < .95 else anyv(rng, '') for _ in range(int(f[6:]) - 1)], concat
            elif f == 'tostring':
                a, fn = [rng.choice([rint(rng), rflt(rng), rflt(rng), s, None])], tostring
            elif f in ('toint', 'tofloat'):
                a, fn = [anyv(rng, numtext(rng)) if rng.random() < .9 else s], toint if f == 'toint' else tofloat
            else:
                a = [] if f == 'length0' else ['abc']
            # the strings passed to the host never look like a reference
            try:
                w = fn(*[bad(x) for x in a]) if fn else BuzzError('LNUM')
            except lang.Unknown:
                continue
            except BuzzError as e:
                w = e
            calls.append((f, a, w))
        out.append(case(PROG, calls, rng.choice([0, 0, 1, 7])))
    return out


def gen_slots(rng, n):
    out = []
    for _ in range(n):
        K, calls = {}, []
        for i in range(12):
            K[i] = rstr(rng, True)
            calls.append(('put', [i, K[i]], i + 1))
        for _ in range(rng.choice([30, 120])):
            d, a, b = (rng.randint(0, 11) for _ in range(3))
            f = rng.choice(['put', 'get', 'get', 'kcat', 'kcat', 'kcat4', 'ksub', 'ksub', 'ksub2', 'klen', 'keq', 'klt', 'kkey', 'knum', 'kint'])
            if f in ('kcat', 'kcat4', 'put') and len(K[a]) * 2 + len(K[b]) > 5000:
                f = 'ksub'
            if f == 'put':
                K[d] = rstr(rng, True)
                calls.append((f, [d, K[d]], 12))
            elif f == 'get':
                calls.append((f, [a], K[a]))
            elif f == 'kcat':
                K[d] = K[a] + K[b]
                calls.append((f, [d, a, b], K[d]))
            elif f == 'kcat4':
                K[d] = K[a] + K[b] + '-' + K[a]
                calls.append((f, [d, a, b], len(K[d])))
            elif f in ('ksub', 'ksub2'):
                if not K[a]:
                    continue
                p = rng.randint(0, len(K[a]) - 1)
                m = rng.randint(p, len(K[a]) + 3) if f == 'ksub' else None
                K[d] = K[a][p:m]
                calls.append((f, [d, a, p] + ([m] if f == 'ksub' else []), K[d]))
            elif f == 'klen':
                calls.append((f, [a], len(K[a])))
            elif f == 'keq':
                if rng.random() < .5:
                    K[d] = K[a][:3] + K[a][3:]
                    calls.append(('put', [d, K[d]], 12))
                    b = d
                calls.append((f, [a, b], int(K[a] == K[b])))
            elif f == 'klt':
                calls.append((f, [a, b], int(K[a].encode('latin-1') < K[b].encode('latin-1'))))
            elif f == 'kkey':
                t = Table()
                same = K[a] == K[b]
                t.put('n', 1 if same else 2)
                t.put('a', 2 if same else 1)
                t.put('b', 2)
                calls.append((f, [a, b], t))
            elif f == 'knum':
                x = rint(rng) if rng.random() < .5 else rflt(rng, True)
                K[d] = tostring(x)
                calls.append((f, [d, x], K[d]))
            else:
                calls.append((f, [a], toint(K[a])))
        for i in range(12):
            calls.append(('get', [i], K[i]))
        out.append(case(PROG, calls, rng.choice([0, 1, 3, 20])))
    return out


STAGES = [Stage('calls', gen_calls, 40, 1500, per=25), Stage('histories', gen_slots, 40, 2000, per=25)]
