"""Helpers shared by the checks: host values, the wire format, robot networks."""
import math, random, struct
import lang
from lang import F, Table


def hx(s):
    return s.encode('latin-1').hex() if s else '-'


def arg(v):
    """A value as an argument of the harness commands call, push and setg."""
    if v is None:
        return 'n'
    if isinstance(v, int):
        return 'i:%d' % v
    if isinstance(v, F):
        x = v.v
        if x != x:
            return 'f:nan'
        if math.isinf(x):
            return 'f:inf' if x > 0 else 'f:-inf'
        return 'f:' + x.hex()
    if isinstance(v, str):
        return 's:' + (v.encode('latin-1').hex() if v else '-')
    raise AssertionError(v)


def lit(v):
    """A value as Buzz source text."""
    if v is None:
        return 'nil'
    if isinstance(v, int):
        if v == -2147483648:
            return '(-2147483647 - 1)'
        return str(v)
    if isinstance(v, F):
        x = v.v
        if x != x:
            return '(0.0/0.0)'
        if math.isinf(x):
            return '(1.0/0.0)' if x > 0 else '((-1.0)/0.0)'
        return '%.60f' % x
    if isinstance(v, str):
        return lang.esc(v, '"')
    raise AssertionError(v)


# ------------------------------------------------------------ wire format
# The byte layout that robots of one swarm exchange.

def w_u16(x):
    return struct.pack('>H', x & 0xFFFF)


def w_obj(v):
    if v is None:
        return b'\0'
    if isinstance(v, int):
        return b'\1' + struct.pack('>i', v)
    if isinstance(v, F):
        return b'\2' + w_float(v.v)
    if isinstance(v, str):
        b = v.encode('latin-1')
        return b'\3' + w_u16(len(b)) + b
    if isinstance(v, Table):
        return b'\4' + w_u16(len(v.d)) + b''.join(w_obj(k) + w_obj(x) for k, x in v.d.values())
    raise AssertionError(v)


def w_float(x):
    if x != x:
        return struct.pack('>i', -2147483648) + bytes(4)
    if math.isinf(x):
        return struct.pack('>i', 2147483647 if x > 0 else -2147483647) + bytes(4)
    m, e = math.frexp(abs(x))
    if x == 0:
        return bytes(8)
    k = int((m - .5) * 2 * 2147483648.0) + 1
    return struct.pack('>ii', -k if x < 0 else k, e)


class Bad(Exception):
    pass


def r_obj(b, p):
    """(value, position) of the value serialized at p.  Closures come out as ('closure', native, ref)."""
    try:
        t = b[p]
        p += 1
        if t == 0:
            return None, p
        if t == 1:
            return struct.unpack_from('>i', b, p)[0], p + 4
        if t == 2:
            m, e = struct.unpack_from('>ii', b, p)
            p += 8
            if m == 0:
                return F(0.0), p
            if m == -2147483648:
                return F(math.nan), p
            if abs(m) == 2147483647:
                return F(math.inf if m > 0 else -math.inf), p
            x = math.ldexp((abs(m) - 1) / 4294967296.0 + .5, e)
            return F(-x if m < 0 else x), p
        if t == 3:
            n = struct.unpack_from('>H', b, p)[0]
            if p + 2 + n > len(b):
                raise Bad('string')
            return b[p + 2:p + 2 + n].decode('latin-1'), p + 2 + n
        if t == 4:
            n = struct.unpack_from('>H', b, p)[0]
            p += 2
            r = Table()
            for _ in range(n):
                k, p = r_obj(b, p)
                v, p = r_obj(b, p)
                r.put(k, v)
            return r, p
        if t == 5:
            n, r = struct.unpack_from('>BI', b, p)
            return ('closure', n, r), p + 5
        raise Bad('type %d' % t)
    except (struct.error, IndexError):
        raise Bad('truncated')


BROADCAST, SWARM_LIST, VSTIG_PUT, VSTIG_QUERY, SWARM_JOIN, SWARM_LEAVE = range(6)


def r_msg(h):
    """A message as a tuple whose first element is its type."""
    try:
        return _r_msg(h)
    except (struct.error, IndexError, AttributeError, RecursionError, OverflowError, ValueError) as e:
        raise Bad(str(e))


def _r_msg(h):
    b = bytes.fromhex(h) if h != '-' else b''
    if not b:
        raise Bad('empty')
    t = b[0]
    if t == BROADCAST:
        k, p = r_obj(b, 1)
        v, p = r_obj(b, p)
        m = (t, k, v)
    elif t in (VSTIG_PUT, VSTIG_QUERY):
        i = struct.unpack_from('>H', b, 1)[0]
        k, p = r_obj(b, 3)
        v, p = r_obj(b, p)
        ts, rb = struct.unpack_from('>HH', b, p)
        p += 4
        m = (t, i, k, v, ts, rb)
    elif t == SWARM_LIST:
        n = struct.unpack_from('>H', b, 1)[0]
        m = (t,) + struct.unpack_from('>%dH' % n, b, 3)
        p = 3 + 2 * n
    elif t in (SWARM_JOIN, SWARM_LEAVE):
        m = (t, struct.unpack_from('>H', b, 1)[0])
        p = 3
    else:
        raise Bad('type %d' % t)
    if p != len(b):
        raise Bad('trailing bytes')
    return m


def w_bcast(topic, v):
    return (bytes([BROADCAST]) + w_obj(topic) + w_obj(v)).hex()


def w_put(i, k, v, ts, rb, t=VSTIG_PUT):
    return (bytes([t]) + w_u16(i) + w_obj(k) + w_obj(v) + w_u16(ts) + w_u16(rb)).hex()


def w_query(i, k, v, ts, rb):
    return w_put(i, k, v, ts, rb, VSTIG_QUERY)


def w_list(ids):
    return (bytes([SWARM_LIST]) + w_u16(len(ids)) + b''.join(w_u16(x) for x in ids)).hex()


def w_join(i):
    return (bytes([SWARM_JOIN]) + w_u16(i)).hex()


def w_leave(i):
    return (bytes([SWARM_LEAVE]) + w_u16(i)).hex()


# ------------------------------------------------------------ random values

INTS = [0, 1, -1, 2, 3, 7, -8, 31, 32, 33, 100, 255, 256, 65535, 65536, 0x7fffffff, -0x80000000, -0x7fffffff, 12345678, 16777217]
FLTS = [0.0, -0.0, 1.0, -1.0, 0.5, -2.5, 3.25, 1e-3, 1e10, 3.0e38, -3.0e38, 1e-38, 1e-44, 16777216.0, 2147483648.0, -2147483648.0,
        math.inf, -math.inf, math.nan]
STRS = ['', 'a', 'b', 'ab', 'abc', '1', '5', '-3', '5.0', '5.000000', 'x y', 'A', 'z' * 40, 'nil', '%s', '%d%n', "'", '"', '\\', 'a\nb', '\t', '\xe9\xff']


def rint(rng):
    r = rng.random()
    if r < .4:
        return rng.choice(INTS)
    if r < .7:
        return rng.randint(-20, 20)
    return rng.randint(-2**31, 2**31 - 1)


def rflt(rng, finite=False):
    while True:
        r = rng.random()
        if r < .3:
            x = F(rng.choice(FLTS))
        elif r < .6:
            x = F(rng.uniform(-50, 50))
        else:
            x = F(struct.unpack('f', struct.pack('I', rng.getrandbits(32)))[0])
        if not finite or math.isfinite(x.v):
            return x


def rstr(rng, big=False):
    r = rng.random()
    if r < .5:
        return rng.choice(STRS)
    if r < .9 or not big:
        return ''.join(rng.choice('abcdefgh 0123456789_-+.{}%') for _ in range(rng.randint(0, 12)))
    return ''.join(chr(rng.randint(1, 255)) for _ in range(rng.choice([30, 255, 256, 300, 2000])))


def rscalar(rng, nil=True):
    r = rng.random()
    if r < .08 and nil:
        return None
    if r < .45:
        return rint(rng)
    if r < .7:
        return rflt(rng)
    return rstr(rng)


def rkey(rng):
    r = rng.random()
    if r < .4:
        return rng.randint(-3, 12)
    if r < .55:
        return rflt(rng, finite=True)
    if r < .62:
        return rint(rng)
    return rstr(rng)


def rtable(rng, depth, width=5, nil=False):
    t = Table()
    for _ in range(rng.randint(0, width)):
        v = rvalue(rng, depth - 1, width)
        if v is not None:
            t.put(rkey(rng), v)
    return t


def rvalue(rng, depth=2, width=5):
    if depth > 0 and rng.random() < .4:
        return rtable(rng, depth, width)
    return rscalar(rng)


class Builder:
    """Functions that build given tables, for inclusion in a program."""
    def __init__(self):
        self.n = 0
        self.out = []

    def __call__(self, v):
        if not isinstance(v, Table):
            return lit(v)
        body = ['var t = {}']
        for k, x in v.d.values():
            body.append('t[%s] = %s' % (lit(k), self(x)))
        self.n += 1
        n = 'mk_%d' % self.n
        self.out.append('function %s() {\n %s\n return t\n}\n' % (n, '\n '.join(body)))
        return n + '()'

    def text(self):
        return ''.join(self.out)
