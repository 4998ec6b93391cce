"""Reference model of a one-process MPI, written from properties.jsonl.

A program is a list of ops; an op is a list of tokens (strings and ints), exactly the
line that the driver executes.  Model.apply(op) checks that the op is valid here
(Invalid otherwise; Misuse if the library must refuse it), updates the state and
returns the expected result tokens:

  int / str      exactly this
  None           anything
  ('N', k, uid)  handle of a new object of kind k: not null, unlike any live one
  ('H', uid)     the handle that object already had
  ('X', uid)     null; the object's handle is released
  ('0',)         null handle
  ('G1',)        a group handle other than null and empty
"""
import numpy as np
import zlib
import re

class Invalid(Exception):
    pass

class Misuse(Exception):
    pass

ANY = -1            # MPI_ANY_TAG, MPI_ANY_SOURCE
PROC_NULL = -2
ROOT = -3
UNDEFINED = -1
WORLD = 1

# ---------------------------------------------------------------- types

class Kinds:
    """Basic element kinds and their sizes."""
    def __init__(self, fort_real=4, fort_double=8):
        self.names = []
        self.size = []
        self.id = {}
        R, D = fort_real, fort_double
        for n, s in [('char', 1), ('short', 2), ('int', 4), ('long', 8), ('uchar', 1), ('ushort', 2),
                     ('uint', 4), ('ulong', 8), ('float', 4), ('double', 8), ('ldouble', 16), ('byte', 1),
                     ('INTEGER', 4), ('REAL', R), ('DOUBLE', D), ('COMPLEX', 2*R), ('DCOMPLEX', 2*D),
                     ('LOGICAL', 4), ('CHARACTER', 1), ('INTEGER1', 1), ('INTEGER2', 2), ('INTEGER4', 4),
                     ('INTEGER8', 8), ('INTEGER16', 16), ('REAL4', 4), ('REAL8', 8), ('REAL16', 16),
                     ('COMPLEX8', 8), ('COMPLEX16', 16), ('COMPLEX32', 32), ('longlong', 8),
                     ('ulonglong', 8), ('offset', 8), ('schar', 1), ('wchar', 4)]:
            self.id[n] = len(self.names)
            self.names.append(n)
            self.size.append(s)
        self.sizes = np.array(self.size, dtype=np.int64)

# handle -> list of (kind, displacement), extent
def predefined(K):
    P = {}
    def one(h, k):
        P[h] = ([(k, 0)], K.size[K.id[k]])
    for h, k in [(-1, 'char'), (-2, 'short'), (-3, 'int'), (-4, 'long'), (-5, 'uchar'), (-6, 'ushort'),
                 (-7, 'uint'), (-8, 'ulong'), (-9, 'float'), (-10, 'double'), (-11, 'ldouble'),
                 (-12, 'byte'), (-13, 'byte'), (-16, 'INTEGER'), (-17, 'REAL'), (-18, 'DOUBLE'),
                 (-19, 'COMPLEX'), (-20, 'DCOMPLEX'), (-21, 'LOGICAL'), (-22, 'CHARACTER'),
                 (-32, 'INTEGER1'), (-33, 'INTEGER2'), (-34, 'INTEGER4'), (-35, 'INTEGER8'),
                 (-36, 'INTEGER16'), (-37, 'REAL4'), (-38, 'REAL8'), (-39, 'REAL16'),
                 (-40, 'COMPLEX8'), (-41, 'COMPLEX16'), (-42, 'COMPLEX32'), (-43, 'longlong'),
                 (-44, 'ulonglong'), (-45, 'offset'), (-46, 'schar'), (-47, 'wchar')]:
        one(h, k)
    def pair(h, a, b, off, ext):
        P[h] = ([(a, 0), (b, off)], ext)
    R, D = K.size[K.id['REAL']], K.size[K.id['DOUBLE']]
    pair(-23, 'REAL', 'REAL', R, 2*R)
    pair(-24, 'DOUBLE', 'DOUBLE', D, 2*D)
    pair(-25, 'INTEGER', 'INTEGER', 4, 8)
    pair(-26, 'float', 'int', 4, 8)
    pair(-27, 'double', 'int', 8, 16)
    pair(-28, 'long', 'int', 8, 16)
    pair(-29, 'int', 'int', 4, 8)
    pair(-30, 'short', 'int', 4, 8)
    pair(-31, 'ldouble', 'int', 16, 32)
    return P

def meet(a, d):
    """do two address arrays share an element?"""
    if not len(a) or not len(d) or a.min() > d.max() or d.min() > a.max():
        return False
    a = np.sort(a)
    p = np.searchsorted(a, d)
    p[p == len(a)] = 0
    return bool((a[p] == d).any())

class Type:
    __slots__ = ('d', 'k', 'n', 'size', 'lb', 'ub', 'extent', 'olb', 'oub', 'committed', 'pre',
                 'marker', 'uid', 'absolute', 'lens', 'key', 'noub', 'unit')

def mktype(K, d, k, lb=None, ub=None):
    """lb/ub: explicit bounds or None."""
    t = Type()
    t.d, t.k = d, k
    t.n = len(d)
    t.lens = K.sizes[k]
    t.size = int(t.lens.sum())
    t.olb, t.oub = lb is not None, ub is not None
    if t.n == 0:
        if t.olb or t.oub:
            raise Invalid('explicit bounds without elements')
        t.lb = t.ub = t.extent = 0
    else:
        nlb, nub = int(d.min()), int((d + t.lens).max())
        t.lb = lb if t.olb else nlb
        t.ub = ub if t.oub else nub
        t.extent = t.ub - t.lb
        if not (t.olb or t.oub):
            e = int(t.lens.max())
            t.extent = -(-t.extent // e) * e
    if max(abs(t.lb), abs(t.ub), abs(t.extent)) > LIM:
        raise Invalid('too far')
    t.committed = False
    t.pre = t.noub = False
    t.marker = None
    t.uid = None
    t.absolute = False
    return t

LIM = 2**61      # offsets and extents stay well inside 64 bits

def struct(K, parts, absolute=False):
    """parts: list of (blocklen, displacement, Type)."""
    ds, ks = [], []
    lbs, ubs = [], []
    tot = 0
    for bl, disp, t in parts:
        if bl < 0:
            raise Invalid('blocklen')
        if t.marker:
            if bl > 0:
                (lbs if t.marker == 'lb' else ubs).append(disp)
            continue
        if bl == 0:
            continue
        e = t.extent
        last = disp + (bl - 1) * e
        if abs(last) > LIM or abs(disp) > LIM:
            raise Invalid('too far')
        if t.olb:
            lbs += [disp + t.lb, last + t.lb]
        if t.oub:
            ubs += [disp + t.ub, last + t.ub]
        tot += bl * t.n
        if tot > 2**31 - 1:
            raise Misuse('more elements than a datatype can count')
        if tot > 3000000 or t.d is None:
            raise Invalid('too large')
        if bl == 1:
            ds.append(t.d + disp)
            ks.append(t.k)
        else:
            off = disp + np.arange(bl, dtype=np.int64) * e
            ds.append((off[:, None] + t.d[None, :]).ravel())
            ks.append(np.tile(t.k, bl))
    d = np.concatenate(ds) if ds else np.zeros(0, np.int64)
    k = np.concatenate(ks) if ks else np.zeros(0, np.int16)
    nt = mktype(K, d, k, min(lbs) if lbs else None, max(ubs) if ubs else None)
    nt.absolute = absolute or any(p[2].absolute for p in parts)
    return nt

# ---------------------------------------------------------------- memory

def pattern(n, seed):
    with np.errstate(over='ignore'):
        x = np.arange(n, dtype=np.uint32) * np.uint32(2654435761) + np.uint32((seed * 0x9E3779B1) & 0xffffffff)
        x ^= x >> np.uint32(15)
        x *= np.uint32(0x85ebca6b)
        x ^= x >> np.uint32(13)
    return (x & np.uint32(0xff)).astype(np.uint8)

SHIFT = 44          # model address of buffer b, offset o: ((b+1) << SHIFT) + HALF + o
HALF = 1 << 43

def base(b):
    return ((b + 1) << SHIFT) + HALF

class Buf:
    def __init__(self, n, seed):
        self.n = n
        self.a = pattern(n, seed)
        self.big = False
    def get(self, i):
        return self.a[i]
    def put(self, i, v):
        self.a[i] = v
    def dump(self):
        b = self.a.tobytes()
        return b.hex() if len(b) <= 512 else 'crc:%d' % zlib.crc32(b)

class Big:
    def __init__(self, n):
        self.n = n
        self.m = {}
        self.big = True
    def get(self, i):
        m = self.m
        return np.array([m.get(x, 0) for x in i.tolist()], dtype=np.uint8)
    def put(self, i, v):
        m = self.m
        for x, y in zip(i.tolist(), v.tolist()):
            m[x] = y

# ---------------------------------------------------------------- objects

class Req:
    __slots__ = ('kind', 'done', 'source', 'tag', 'nel', 'origin', 'cnt', 'type', 'comm', 'freed',
                 'uid', 'seq')

class Comm:
    __slots__ = ('sq', 'rq', 'uid', 'dead', 'periods')
    def __init__(self, uid):
        self.periods = ()
        self.sq, self.rq, self.uid = [], [], uid
        self.dead = False

class Status:
    __slots__ = ('source', 'tag', 'nel', 'known')
    def __init__(self, source=None, tag=None, nel=None, known=True):
        self.source, self.tag, self.nel, self.known = source, tag, nel, known

def strcheck(n, hexed, mx, need):
    b = bytes.fromhex(hexed)
    n = int(n)
    if len(b) != mx or not 0 < n < mx:
        return 'length %d' % n
    if b[n] != 0 or 0 in b[:n]:
        return 'not a string of length %d: %r' % (n, b)
    if not b[:n].isascii():
        return 'strange characters: %r' % b[:n]
    if need and not re.search(r'(?<![0-9-])' + re.escape(need) + r'(?![0-9])', b[:n].decode()):
        return 'does not name %s: %r' % (need, b[:n])
    return None

class Model:
    def __init__(self, fort_real=4, fort_double=8, tc=False, wrongsize=False):
        self.tc = tc
        self.wrongsize = wrongsize   # Fortran's sizes are not the configured ones
        self.K = Kinds(fort_real, fort_double)
        self.pre = {}
        for h, (el, ext) in predefined(self.K).items():
            t = mktype(self.K, np.array([o for _, o in el], np.int64),
                       np.array([self.K.id[k] for k, _ in el], np.int16))
            t.extent = ext
            t.committed = True
            t.pre = True
            t.noub = t.n > 1
            t.uid = h
            self.pre[h] = t
        for h, m in ((-14, 'lb'), (-15, 'ub')):
            t = mktype(self.K, np.zeros(0, np.int64), np.zeros(0, np.int16))
            t.marker = m
            t.pre = True
            t.noub = t.n > 1
            t.uid = h
            self.pre[h] = t
        self.t, self.r, self.c, self.g, self.o, self.s, self.b = {}, {}, {}, {}, {}, {}, {}
        self.world = Comm(0)
        self.nuid = 1
        self.inited = False
        self.finalized = False
        self.opcalls = 0
        self.matched = 0            # statistics for the non-triviality rules
        self.matched_bytes = 0
        self.stats = {}
        self.seq = 0
        self.allow_warn = False
        self.inrep = None

    def uid(self):
        self.nuid += 1
        return self.nuid

    def count(self, what, n=1):
        self.stats[what] = self.stats.get(what, 0) + n

    # ---- token decoding
    def T(self, x):
        if isinstance(x, str):
            t = self.t.get(x)
        else:
            t = self.pre.get(x)
        if t is None:
            raise Invalid('no type %s' % x)
        return t

    def C(self, x):
        if x == WORLD:
            if not self.inited:
                raise Invalid('not initialised')
            return self.world
        c = self.c.get(x)
        if c is None:
            raise Invalid('no comm %s' % x)
        return c

    def Cn(self, x):            # may be null
        if x == 0:
            return None
        if x in self.c and self.c[x] is None:
            return None
        return self.C(x)

    def G(self, x):
        if x == 0:
            return None
        if x == -1:
            return frozenset()
        if x not in self.g:
            raise Invalid('no group')
        return self.g[x]

    def addr(self, x):
        if x == '@null':
            return 0
        if x == '@inplace':
            return 'inplace'
        b, _, o = x[1:].partition(':')
        if int(b) not in self.b:
            raise Invalid('no buffer')
        return base(int(b)) + int(o or 0)

    # ---- memory access by model addresses
    def expand(self, origin, cnt, t, n=None):
        """byte addresses of the first n elements of cnt items of t at origin"""
        if cnt < 0 or t.d is None:
            raise Invalid('count')
        tot = cnt * t.n
        if n is None:
            n = tot
        if n == 0:
            return np.zeros(0, np.int64)
        reps = -(-n // t.n)
        if n > 4000000:
            raise Invalid('too large')
        if abs(t.extent) * reps > LIM:
            raise Invalid('too far')
        if reps == 1:
            d = t.d[:n] + origin
            ln = t.lens[:n]
        else:
            d = (np.arange(reps, dtype=np.int64)[:, None] * t.extent + t.d[None, :]).ravel()[:n] + origin
            ln = np.tile(t.lens, reps)[:n]
        m = int(ln.max())
        if int(ln.min()) == m:
            return (d[:, None] + np.arange(m, dtype=np.int64)[None, :]).ravel()
        st = np.repeat(d, ln)
        ends = np.cumsum(ln)
        intra = np.arange(int(ends[-1]), dtype=np.int64) - np.repeat(ends - ln, ln)
        return st + intra

    def kinds(self, cnt, t, n):
        if n == 0:
            return t.k[:0]
        return np.tile(t.k, -(-n // t.n))[:n]

    def _check(self, a):
        """yield (buffer, selector, offsets)"""
        if len(a) == 0:
            return []
        bn = a >> SHIFT
        res = []
        for b in ([int(bn[0])] if bn[0] == bn[-1] and (bn == bn[0]).all() else sorted(set(bn.tolist()))):
            sel = slice(None) if (bn == b).all() else np.nonzero(bn == b)[0]
            buf = self.b.get(b - 1)
            if buf is None:
                raise Invalid('wild address')
            off = a[sel] - base(b - 1)
            if off.min() < 0 or off.max() >= buf.n:
                raise Invalid('outside the buffer')
            res.append((buf, sel, off))
        return res

    def read(self, a):
        v = np.empty(len(a), np.uint8)
        for buf, sel, off in self._check(a):
            v[sel] = buf.get(off)
        return v

    def write(self, a, v):
        for buf, sel, off in self._check(a):
            buf.put(off, v[sel])

    def touch(self, origin, cnt, t, writing):
        """validity of a buffer argument"""
        if t.d is None:
            raise Invalid('huge type')
        if cnt * t.n > 4000000:             # by bounds only
            e, lo, hi = t.extent, int(t.d.min()), int((t.d + t.lens).max())
            if abs(e) * cnt > LIM:
                raise Invalid('too far')
            far = (cnt - 1) * e
            r = self._check(np.array([origin + lo + min(0, far), origin + hi + max(0, far) - 1]))
            if len(r) != 1 or not r[0][0].big or (writing and abs(e) < hi - lo):
                raise Invalid('huge')
            cnt = 1
        a = self.expand(origin, cnt, t)
        self._check(a)
        if writing and len(a) > 1:
            s = np.sort(a)
            if (s[1:] == s[:-1]).any():
                raise Invalid('overlapping receive')

    def bulk(self, so, st, do, dt, n):
        """very many elements of one predefined type, without gaps, between sparse buffers"""
        k = int(st.lens[0])
        for t in (st, dt):
            if t.extent != t.n * k or not (t.lens == k).all() or not (t.k == st.k[0]).all() or not (
                    t.d == np.arange(t.n, dtype=np.int64) * k).all():
                raise Invalid('too large')
        sb, db = self.b[(so >> SHIFT) - 1], self.b[(do >> SHIFT) - 1]
        so -= base((so >> SHIFT) - 1)
        do -= base((do >> SHIFT) - 1)
        if sb is db or not (sb.big and db.big) or min(so, do) < 0 or so + n * k > sb.n or do + n * k > db.n:
            raise Invalid('bulk')
        for x in [x for x in db.m if do <= x < do + n * k]:
            del db.m[x]
        for x, v in sb.m.items():
            if so <= x < so + n * k:
                db.m[x - so + do] = v

    def copy(self, so, sc, st, do, dc, dt, p2p=True):
        if not (st.committed and dt.committed):
            raise Misuse('uncommitted')
        ns, nd = sc * st.n, dc * dt.n
        n = min(ns, nd)
        if not p2p and ns != nd:
            raise Invalid('collective counts')
        if n > 4000000:
            self.bulk(so, st, do, dt, n)
        elif n:
            if not np.array_equal(self.kinds(sc, st, n), self.kinds(dc, dt, n)):
                if self.tc:
                    raise Misuse('type mismatch')
                raise Invalid('signature')
            a, d = self.expand(so, sc, st, n), self.expand(do, dc, dt, n)
            if meet(a, d):
                raise Invalid('send and receive overlap')
            self.write(d, self.read(a))
        self.matched += 1
        self.matched_bytes += n
        return n

    # ---- dispatch
    def apply(self, op):
        f = getattr(self, 'm_' + op[0], None)
        if f is None:
            raise Invalid('unknown op ' + op[0])
        try:
            return f(*op[1:])
        except TypeError as e:
            if 'm_' + op[0] in str(e) or 'positional' in str(e):
                raise Invalid(str(e))
            raise

    # ---- memory ops
    def m_buf(self, b, n, seed):
        self.b[int(b[1:])] = Buf(n, seed)
        return []
    def m_unbuf(self, b):
        if int(b[1:]) not in self.b:
            raise Invalid('no buffer')
        del self.b[int(b[1:])]
        return []
    def m_big(self, b, n):
        self.b[int(b[1:])] = Big(n)
        return []
    def m_fill(self, b, o, n, seed):
        x = self.b.get(int(b[1:]))
        if x is None or o < 0 or o + n > x.n:
            raise Invalid('fill')
        x.put(np.arange(o, o + n, dtype=np.int64), pattern(n, seed))
        return []
    def m_dump(self, b):
        x = self.b.get(int(b[1:]))
        if x is None or x.big:
            raise Invalid('dump')
        return [x.dump()] if x.n else []
    def m_dumpw(self, b, o, n):
        x = self.b.get(int(b[1:]))
        if x is None or o < 0 or o + n > x.n:
            raise Invalid('dumpw')
        return [bytes(x.get(np.arange(o, o + n, dtype=np.int64))).hex()] if n else []
    def m_stray(self, b, n, *w):
        x = self.b.get(int(b[1:]))
        if x is None or not x.big:
            raise Invalid('stray')
        for a, v in x.m.items():
            if v and not any(w[2*i] <= a < w[2*i] + w[2*i+1] for i in range(n)):
                raise Invalid('windows')
        return [-1]
    def m_oom(self, k, on):
        if k < 0:
            raise Invalid('oom')
        return []
    def m_cpu(self, k):
        return []
    def m_mem(self):
        return [None]
    def m_rep(self, *n):
        if self.inrep is not None:
            raise Invalid('nested rep')
        self.inrep = len(n)
        return []
    def m_endrep(self):
        if self.inrep is None:
            raise Invalid('endrep')
        n, self.inrep = self.inrep, None
        return [None] * n
    def m_scale(self, seed, target, churn, phases, *a):
        if target < 20 or churn < 1 or phases < 1:
            raise Invalid('scale')
        return ['ok', None, None]
    def m_queue(self, seed, n, tags, kind, *a):
        if n < 1 or tags < 1:
            raise Invalid('queue')
        return ['ok', None]
    def m_capacity(self, k):
        return [1]
    def m_marathon(self, seed, n, *a):
        if n < 1:
            raise Invalid('marathon')
        return ['ok']

    # ---- environment
    def _init(self, l):
        if self.inited:
            raise Invalid('twice')
        if self.wrongsize and l == 'f':
            raise Misuse('sizes')
        self.inited = True
    def m_init(self, l):
        self._init(l)
        return [0]
    def m_initargs(self, l):
        self._init(l)
        return [0, 1]
    def m_initthread(self, l, lv):
        self._init(l)
        return [0, lv]
    def m_initialized(self, l):
        if self.finalized:
            raise Invalid('after finalize')
        return [0, 1 if self.inited else 0]
    def m_version(self, l):
        return [0, 1, 0]      # what mpif.h says MPI_VERSION and MPI_SUBVERSION are

    def m_finalize(self, l):
        if not self.inited or self.finalized:
            raise Invalid('finalize')
        self.finalized = True
        return [0]
    def m_abort(self, l, c, e):
        self.C(c)
        raise Misuse('abort')
    def m_errstr(self, l, code):
        def chk(g):
            if g[:1] != ['0']:
                return 'returned %s' % g[:1]
            return strcheck(g[1], g[2], 128, str(code))
        return chk
    def m_verstr(self, l):
        def chk(g):
            if g[:1] != ['0']:
                return 'returned %s' % g[:1]
            b = bytes.fromhex(g[2])
            if l == 'f':
                n = int(g[1])
                if len(b) != 80 or not 0 < n <= 80:
                    return 'length %d' % n
                if b[:n].rstrip(b' ') != b[:n] or b[n:].strip(b' ') or not b[:n].isascii() or 0 in b:
                    return 'not a blank-padded string of length %d: %r' % (n, b)
                return None
            return strcheck(g[1], g[2], 80, '')
        return chk
    def m_maxima(self, l):
        return [128, 80, 128]
    def m_pname(self, l, mode, n, seed):
        def chk(g):
            if g[:1] != ['0']:
                return 'returned %s' % g[:1]
            i = g.index('|')
            host = bytes.fromhex(g[3]) if i == 4 else b''
            bad = strcheck(g[1], g[i+1], 128, '')
            if bad:
                return bad
            if g[2] != '1':             # the name came from elsewhere
                return None
            name = bytes.fromhex(g[i+1])[:int(g[1])]
            if mode == 1 or (mode == 2 and n >= 128):
                return None if name else 'empty name'
            if name != host[:127]:
                return 'the host is %r, the name %r' % (host, name)
        return chk
    def m_wtime(self, l, s1, u1, s2, u2, f2):
        def chk(g):
            if len(g) != 3 or int(g[2]) < 2:
                return None             # some other clock
            e = (s2 - s1) + (u2 - u1) / 1e6
            if not abs(float(g[0]) - e) < 3e-6:
                return 'clock advanced by %.6f s, MPI_Wtime by %s' % (e, g[0])
        return chk
    def m_wtimereal(self, l, us):
        def chk(g):
            d, lo, hi = map(float, g)
            if not lo - 1e-3 <= d <= hi + 1e-3:
                return 'between %.6f and %.6f s elapsed, MPI_Wtime says %.6f' % (lo, hi, d)
        return chk

    def m_csizes(self, l):
        return [1, 2, 4, 8, 4, 8, 16, 8, 4, 8, 8, 16, 16, 8, 32]
    def m_errh(self, l, c, e):
        self.C(c)
        return [0]
    def m_info(self, l, k, v):
        return [0, None]

    # ---- point to point
    def _newreq(self, kind):
        r = Req()
        r.kind = kind
        r.done = False
        r.freed = False
        r.uid = self.uid()
        r.source = r.tag = r.nel = None
        self.seq += 1
        r.seq = self.seq
        return r

    def _setreq(self, slot, r):
        old = self.r.get(slot)
        if old is not None:
            raise Invalid('request slot in use')
        self.r[slot] = r

    def _isend(self, a, n, t, dest, tag, c):
        if self.finalized:
            raise Invalid('finalized')
        if dest not in (0, PROC_NULL):
            raise Misuse('bad dest')
        r = self._newreq('s')
        if dest == PROC_NULL:
            r.done = True
            self.count('proc_null')
            return r
        if tag < 0 or n < 0:
            raise Invalid('tag')
        if t.marker:
            raise Invalid('marker')
        if a == 'inplace':
            raise Invalid('buffer')
        self.touch(a, n, t, False)
        r.tag, r.origin, r.cnt, r.type, r.comm = tag, a, n, t, c
        for q in c.rq:
            if q.tag in (ANY, tag):
                q.nel = self.copy(a, n, t, q.origin, q.cnt, q.type)
                c.rq.remove(q)
                if q.tag == ANY:
                    self.count('wild')
                q.done, q.source, q.tag = True, 0, tag
                r.done = True
                self.count('recv_first')
                if q.cnt * q.type.n != n * t.n:
                    self.count('unequal')
                return r
        c.sq.append(r)
        return r

    def _irecv(self, a, n, t, src, tag, c):
        if self.finalized:
            raise Invalid('finalized')
        if src not in (0, ANY, PROC_NULL):
            raise Misuse('bad source')
        r = self._newreq('r')
        if src == PROC_NULL:
            r.done, r.source, r.tag, r.nel = True, PROC_NULL, ANY, 0
            self.count('proc_null')
            return r
        if tag < -1 or n < 0:
            raise Invalid('tag')
        if t.marker:
            raise Invalid('marker')
        if a == 'inplace':
            raise Invalid('buffer')
        self.touch(a, n, t, True)
        r.tag, r.origin, r.cnt, r.type, r.comm = tag, a, n, t, c
        for q in c.sq:
            if tag in (ANY, q.tag):
                r.nel = self.copy(q.origin, q.cnt, q.type, a, n, t)
                if tag == ANY:
                    self.count('wild')
                if q is not c.sq[0]:
                    self.count('middle')
                c.sq.remove(q)
                q.done = True
                r.done, r.source, r.tag = True, 0, q.tag
                self.count('send_first')
                if q.cnt * q.type.n != n * t.n:
                    self.count('unequal')
                return r
        c.rq.append(r)
        return r

    def _status(self, r):
        if r is None:
            return Status(ANY, ANY, 0)
        if r.kind == 's':
            return Status(None, None, None, False)
        return Status(r.source, r.tag, r.nel)

    def _store(self, st, status):
        """tokens for a status argument"""
        if st == '-':
            return []
        self.s[int(st[1:])] = status
        return [status.source, status.tag]

    def _send(self, l, b, n, t, d, tag, c):
        r = self._isend(self.addr(b), n, self.T(t), d, tag, self.C(c))
        if not r.done:
            raise Misuse('send deadlock')
        return [0]
    m_send = m_ssend = m_rsend = _send

    def m_isend(self, l, b, n, t, d, tag, c, r):
        x = self._isend(self.addr(b), n, self.T(t), d, tag, self.C(c))
        self._setreq(r, x)
        return [0, ('N', 'r', x.uid)]

    def m_irsend(self, l, b, n, t, d, tag, c, r):
        x = self._isend(self.addr(b), n, self.T(t), d, tag, self.C(c))
        if not x.done:
            raise Misuse('ready send')
        self._setreq(r, x)
        return [0, ('N', 'r', x.uid)]

    def m_irecv(self, l, b, n, t, s, tag, c, r):
        x = self._irecv(self.addr(b), n, self.T(t), s, tag, self.C(c))
        self._setreq(r, x)
        return [0, ('N', 'r', x.uid)]

    def m_recv(self, l, b, n, t, s, tag, c, st):
        x = self._irecv(self.addr(b), n, self.T(t), s, tag, self.C(c))
        if not x.done:
            raise Misuse('recv deadlock')
        return [0] + self._store(st, self._status(x))

    def m_sendrecv(self, l, b, n, t, d, tag, rb, rn, rt, s, rtag, c, st):
        c = self.C(c)
        x = self._irecv(self.addr(rb), rn, self.T(rt), s, rtag, c)
        y = self._isend(self.addr(b), n, self.T(t), d, tag, c)
        if not y.done:
            raise Misuse('sendrecv: send deadlock')
        if not x.done:
            raise Misuse('sendrecv: recv deadlock')
        self.count('sendrecv')
        return [0] + self._store(st, self._status(x))

    def _probe(self, s, tag, c):
        if s not in (0, ANY, PROC_NULL):
            raise Misuse('bad source')
        if tag < -1:
            raise Invalid('tag')
        if s == PROC_NULL:
            return Status(PROC_NULL, ANY, 0)
        for q in c.sq:
            if tag in (ANY, q.tag):
                self.count('probe_hit')
                return Status(0, q.tag, q.cnt * q.type.n)
        self.count('probe_miss')
        return None

    def m_iprobe(self, l, s, tag, c, st):
        x = self._probe(s, tag, self.C(c))
        if x is None:
            return [0, 0] + ([] if st == '-' else [None, None])
        return [0, 1] + self._store(st, x)

    def m_probe(self, l, s, tag, c, st):
        x = self._probe(s, tag, self.C(c))
        if x is None:
            raise Misuse('probe deadlock')
        return [0] + self._store(st, x)

    # ---- completion
    def _req(self, slot):
        """request in the slot, or None for null"""
        if slot == 0:
            return None
        if slot not in self.r:
            raise Invalid('no request %s' % slot)
        return self.r[slot]

    def _htok(self, slot):
        r = self._req(slot)
        return ('0',) if r is None else ('H', r.uid)

    def _finish(self, slot):
        r = self._req(slot)
        if r is None:
            return ('0',)
        self.r[slot] = None
        return ('X', r.uid)

    def m_wait(self, l, slot, st):
        r = self._req(slot)
        if r is not None and not r.done:
            raise Misuse('wait deadlock')
        h = self._finish(slot)
        return [0, h] + self._store(st, self._status(r))

    def m_test(self, l, slot, st):
        r = self._req(slot)
        if r is not None and not r.done:
            self.count('test_pending')
            return [0, 0, self._htok(slot)] + ([] if st == '-' else [None, None])
        h = self._finish(slot)
        return [0, 1, h] + self._store(st, self._status(r))

    def m_rfree(self, l, slot):
        r = self._req(slot)
        if r is None:
            raise Invalid('null request')
        r.freed = True
        if not r.done:
            self.count('freed_pending')
        return [0, self._finish(slot)]

    def _arr(self, n, a):
        st = a[-1]
        slots = list(a[:-1])
        if len(slots) != n:
            raise Invalid('count')
        act = [x for x in slots if x != 0]
        if len(set(act)) != len(act):
            raise Invalid('twice')
        return slots, [self._req(x) for x in slots], st

    def _one(self, l, slots, rs, st):
        """any: (flag, index, statustoks)"""
        for i, r in enumerate(rs):
            if r is not None and r.done:
                if any(x is None for x in rs[:i]):
                    self.count('skip_null')
                if any(x is not None for x in rs[:i]):
                    self.count('skip_pending')
                stt = self._store(st, self._status(r))
                toks = [self._htok(s) for s in slots]
                toks[i] = self._finish(slots[i])
                return 1, i + (1 if l == 'f' else 0), toks, stt
        if all(r is None for r in rs):
            self.count('no_active')
            return 1, UNDEFINED, [('0',)] * len(rs), self._store(st, Status(ANY, ANY, 0))
        return 0, UNDEFINED, [self._htok(s) for s in slots], ([] if st == '-' else [None, None])

    def m_testany(self, l, n, *a):
        slots, rs, st = self._arr(n, a)
        f, i, toks, stt = self._one(l, slots, rs, st)
        return [0, f, i] + toks + stt

    def m_waitany(self, l, n, *a):
        slots, rs, st = self._arr(n, a)
        f, i, toks, stt = self._one(l, slots, rs, st)
        if not f:
            raise Misuse('waitany deadlock')
        return [0, i] + toks + stt

    def _all(self, slots, rs, st):
        stt = []
        toks = []
        for i, (s, r) in enumerate(zip(slots, rs)):
            if st != '-':
                stt += self._store('s%d' % (int(st[1:]) + i), self._status(r))
            toks.append(self._finish(s))
        return toks, stt

    def m_waitall(self, l, n, *a):
        slots, rs, st = self._arr(n, a)
        if any(r is not None and not r.done for r in rs):
            raise Misuse('waitall deadlock')
        toks, stt = self._all(slots, rs, st)
        return [0] + toks + stt

    def m_testall(self, l, n, *a):
        slots, rs, st = self._arr(n, a)
        if any(r is not None and not r.done for r in rs):
            if any(r is not None and r.done for r in rs):
                self.count('testall_mixed')
            return [0, 0] + [self._htok(s) for s in slots] + ([] if st == '-' else [None] * (2 * n))
        toks, stt = self._all(slots, rs, st)
        return [0, 1] + toks + stt

    def _some(self, l, slots, rs, st):
        n = len(slots)
        if all(r is None for r in rs):
            self.count('no_active')
            return [UNDEFINED] + [None] * n, [('0',)] * n, ([] if st == '-' else [None] * (2 * n))
        idx = [i for i, r in enumerate(rs) if r is not None and r.done]
        if idx and any(r is not None and not r.done for r in rs):
            self.count('some_mixed')
        stt = []
        toks = [self._htok(s) for s in slots]
        for j, i in enumerate(idx):
            if st != '-':
                stt += self._store('s%d' % (int(st[1:]) + j), self._status(rs[i]))
            toks[i] = self._finish(slots[i])
        if st != '-':
            stt += [None] * (2 * (n - len(idx)))
        o = 1 if l == 'f' else 0
        return [len(idx)] + [i + o for i in idx] + [None] * (n - len(idx)), toks, stt

    def m_testsome(self, l, n, *a):
        slots, rs, st = self._arr(n, a)
        x, toks, stt = self._some(l, slots, rs, st)
        return [0] + x + toks + stt

    def m_waitsome(self, l, n, *a):
        slots, rs, st = self._arr(n, a)
        x, toks, stt = self._some(l, slots, rs, st)
        if x[0] == 0:
            raise Misuse('waitsome deadlock')
        return [0] + x + toks + stt

    def m_getcount(self, l, st, t):
        s, t = self.s.get(int(st[1:])), self.T(t)
        if s is None:
            raise Invalid('no status')
        if t.marker:
            raise Invalid('marker')
        if not s.known or s.nel is None:
            return [0, None]
        if s.nel > 2**31 - 1:
            self.count('countless')
            return [0, UNDEFINED]
        if t.n == 0:
            return [0, 0 if s.nel == 0 else UNDEFINED]
        self.count('getcount')
        if s.nel % t.n:
            self.count('getcount_undef')
        return [0, UNDEFINED if s.nel % t.n else s.nel // t.n]

    def m_getelem(self, l, st, t):
        s, t = self.s.get(int(st[1:])), self.T(t)
        if s is None:
            raise Invalid('no status')
        if t.marker:
            raise Invalid('marker')
        if not s.known or s.nel is None:
            return [0, None]
        self.count('getelem')
        return [0, s.nel if s.nel < 2**31 else UNDEFINED]

    # ---- datatypes
    def _settype(self, slot, t):
        if self.t.get(slot) is not None:
            raise Invalid('type slot in use')
        t.uid = self.uid()
        self.t[slot] = t
        return [0, ('N', 't', t.uid)]

    def _old(self, x):
        t = self.T(x)
        return t

    def _arr_ints(self, toks, n):
        """consume n values or R start step from a list"""
        if toks and toks[0] == 'R':
            s, d = toks[1], toks[2]
            del toks[:3]
            return [s + i * d for i in range(n)]
        v = toks[:n]
        if len(v) != n:
            raise Invalid('array')
        del toks[:n]
        return v

    def m_contig(self, l, n, o, new):
        o = self._old(o)
        if n < 0 or o.marker:
            raise Invalid('count')
        if 3000000 < n * o.n < 2**31:
            return self._settype(new, self._huge(n, o))
        return self._settype(new, struct(self.K, [(n, 0, o)]))

    def _huge(self, n, o):
        """n items in a row, too many to be listed: only the geometry is known"""
        if o.olb or o.oub or o.absolute or o.noub or abs(o.extent) * n > LIM:
            raise Invalid('too large')
        t = Type()
        t.d = t.k = t.lens = None
        t.unit = int(o.lens.max()) if o.d is not None else o.unit
        t.n, t.size = n * o.n, n * o.size
        t.lb = o.lb + min(0, (n - 1) * o.extent)
        t.ub = o.ub + max(0, (n - 1) * o.extent)
        t.extent = -(-(t.ub - t.lb) // t.unit) * t.unit
        t.olb = t.oub = t.committed = t.pre = t.noub = t.absolute = False
        t.marker = t.uid = None
        self.count('huge type')
        return t

    def _blocks(self, new, bls, disps, o):
        if o.marker:
            raise Invalid('marker')
        ab = False
        dd = []
        for d in disps:
            if isinstance(d, str):
                dd.append(self.addr(d[1:]))
                ab = True
            else:
                dd.append(d)
        if min(bls, default=0) < 0:
            raise Invalid('blocklen')
        if sum(bls) * o.n > 2**31 - 1:
            raise Misuse('more elements than a datatype can count')
        if sum(bls) * o.n > 3000000:
            raise Invalid('too large')
        if len(bls) > 64 and min(bls) == max(bls) >= 0 and not (o.olb or o.oub):
            # the same, vectorised
            bl = bls[0]
            if max(map(abs, dd)) + abs(bl * o.extent) > LIM:
                raise Invalid('too far')
            off = (np.array(dd, np.int64)[:, None] + (np.arange(bl, dtype=np.int64) * o.extent)[None, :]).ravel()
            d = (off[:, None] + o.d[None, :]).ravel()
            t = mktype(self.K, d, np.tile(o.k, len(off)))
            t.absolute = ab or o.absolute
        else:
            t = struct(self.K, [(b, d, o) for b, d in zip(bls, dd)], ab)
        return self._settype(new, t)

    def m_vector(self, l, n, bl, st, o, new):
        o = self._old(o)
        if n < 0 or bl < 0:
            raise Invalid('count')
        return self._blocks(new, [bl] * n, [i * st * o.extent for i in range(n)], o)

    def m_hvector(self, l, n, bl, st, o, new):
        o = self._old(o)
        if n < 0 or bl < 0:
            raise Invalid('count')
        if isinstance(st, str):
            raise Invalid('stride')
        return self._blocks(new, [bl] * n, [i * st for i in range(n)], o)
    m_chvector = m_hvector

    def m_indexed(self, l, n, *a):
        a = list(a)
        if n < 0:
            raise Invalid('count')
        bl, d = self._arr_ints(a, n), self._arr_ints(a, n)
        o = self._old(a[0])
        return self._blocks(a[1], bl, [x * o.extent for x in d], o)

    def m_iblock(self, l, n, bl, *a):
        a = list(a)
        if n < 0 or bl < 0:
            raise Invalid('count')
        d = self._arr_ints(a, n)
        o = self._old(a[0])
        return self._blocks(a[1], [bl] * n, [x * o.extent for x in d], o)

    def m_hindexed(self, l, n, *a):
        a = list(a)
        if n < 0:
            raise Invalid('count')
        bl, d = self._arr_ints(a, n), self._arr_ints(a, n)
        return self._blocks(a[1], bl, d, self._old(a[0]))

    def m_struct(self, l, n, *a):
        a = list(a)
        if n < 0:
            raise Invalid('count')
        bl, d = self._arr_ints(a, n), self._arr_ints(a, n)
        if a and a[0] == 'R':
            ts = [a[1]] * n
            del a[:2]
        else:
            ts = a[:n]
            del a[:n]
        if len(a) != 1 or len(ts) != n:
            raise Invalid('struct')
        ab = any(isinstance(x, str) for x in d)
        d = [self.addr(x[1:]) if isinstance(x, str) else x for x in d]
        return self._settype(a[0], struct(self.K, [(b, x, self._old(t)) for b, x, t in zip(bl, d, ts)], ab))

    def m_tdup(self, l, o, new):
        o = self.T(o)
        if o.marker:
            raise Invalid('marker')
        if o.d is None:
            return self._settype(new, self._huge(1, o))
        t = mktype(self.K, o.d, o.k, o.lb if o.olb else None, o.ub if o.oub else None)
        t.extent, t.absolute, t.noub = o.extent, o.absolute, o.noub
        t.committed = o.committed
        return self._settype(new, t)

    def m_commit(self, l, t):
        x = self.T(t)
        if x.marker:
            raise Invalid('marker')
        x.committed = True
        return [0, 0]

    def m_tfree(self, l, t):
        x = self.T(t)
        if x.pre or not isinstance(t, str):
            raise Invalid('predefined')
        self.t[t] = None
        return [0, ('X', x.uid)]

    def m_geom(self, l, t):
        x = self.T(t)
        if x.marker:
            raise Invalid('marker')
        return [0, x.size if x.size < 2**31 else UNDEFINED, x.extent, x.lb, None if x.noub else x.ub]

    def m_getaddr(self, l, b):
        self.addr(b)
        return [0, 0]
    m_address = m_getaddr

    # ---- pack
    def m_pack(self, l, b, n, t, p, size, pos, c):
        t = self.T(t)
        if c != 0:
            self.C(c)
        if t.marker or n < 0 or pos < 0 or size < 0 or pos > size:
            raise Invalid('pack')
        a = self.expand(self.addr(b), n, t)
        self._check(a)
        po = self.addr(p)
        self._check(np.array([po, po + size - 1]) if size else np.zeros(0, np.int64))
        if pos + n * t.size > size:
            raise Misuse('pack overflow')
        if len(a):
            d = np.arange(po + pos, po + pos + len(a), dtype=np.int64)
            if meet(a, d):
                raise Invalid('overlap')
            self.write(d, self.read(a))
            self.count('packed', len(a))
        return [0, pos + len(a)]

    def m_unpack(self, l, p, size, pos, b, n, t, c):
        t = self.T(t)
        if c != 0:
            self.C(c)
        if t.marker or n < 0 or pos < 0 or size < 0 or pos > size:
            raise Invalid('unpack')
        o = self.addr(b)
        self.touch(o, n, t, True)
        po = self.addr(p)
        self._check(np.array([po, po + size - 1]) if size else np.zeros(0, np.int64))
        if pos + n * t.size > size:
            raise Misuse('unpack overflow')
        d = self.expand(o, n, t)
        if len(d):
            a = np.arange(po + pos, po + pos + len(d), dtype=np.int64)
            if meet(a, d):
                raise Invalid('overlap')
            self.write(d, self.read(a))
            self.count('unpacked', len(d))
        return [0, pos + len(d)]

    def m_packsize(self, l, n, t, c):
        t = self.T(t)
        if c != 0:
            self.C(c)
        if t.marker or n < 0:
            raise Invalid('packsize')
        v = n * t.size
        return [0, UNDEFINED if v >= 2**31 and l == 'f' else v]

    # ---- collectives
    def _root(self, r):
        if r not in (0, ROOT):
            raise Misuse('bad root')
        return r == ROOT

    def _coll(self, sa, sn, st, sd, ra, rn, rt, rd, inplace):
        """inplace: 's' or 'r', which side may be MPI_IN_PLACE"""
        if (sa if inplace == 's' else ra) == 'inplace':
            if (ra if inplace == 's' else sa) == 'inplace':
                raise Invalid('both in place')
            self.count('inplace')
            return [0]
        if sa == 'inplace' or ra == 'inplace':
            raise Invalid('in place')
        if st is None or rt is None:
            raise Invalid('type')
        if st.marker or rt.marker or sn < 0 or rn < 0:
            raise Invalid('marker')
        so, ro = sa + sd, ra + rd
        self.touch(so, sn, st, False)
        self.touch(ro, rn, rt, True)
        self.copy(so, sn, st, ro, rn, rt, p2p=False)
        return [0]

    def _tn(self, x):           # type that may be the null handle (ignored arguments)
        return None if x in (0, '~') else self.T(x)

    def m_barrier(self, l, c):
        self.C(c)
        return [0]

    def m_bcast(self, l, b, n, t, root, c):
        self.C(c)
        if not self._root(root):
            self.touch(self.addr(b), n, self.T(t), False)
        return [0]

    def m_gather(self, l, s, sn, st, r, rn, rt, root, c):
        self.C(c)
        if self._root(root):
            self.count('root')
            return [0]
        return self._coll(self.addr(s), sn, self._tn(st), 0, self.addr(r), rn, self._tn(rt), 0, 's')

    def m_scatter(self, l, s, sn, st, r, rn, rt, root, c):
        self.C(c)
        if self._root(root):
            self.count('root')
            return [0]
        return self._coll(self.addr(s), sn, self._tn(st), 0, self.addr(r), rn, self._tn(rt), 0, 'r')

    def m_allgather(self, l, s, sn, st, r, rn, rt, c):
        self.C(c)
        return self._coll(self.addr(s), sn, self._tn(st), 0, self.addr(r), rn, self._tn(rt), 0, 's')
    m_alltoall = m_allgather

    def _ext(self, t):
        return 0 if t is None else t.extent

    def m_gatherv(self, l, s, sn, st, r, rn, d, rt, root, c):
        self.C(c)
        if self._root(root):
            self.count('root')
            return [0]
        rt = self._tn(rt)
        return self._coll(self.addr(s), sn, self._tn(st), 0, self.addr(r), rn, rt, d * self._ext(rt), 's')

    def m_allgatherv(self, l, s, sn, st, r, rn, d, rt, c):
        self.C(c)
        rt = self._tn(rt)
        return self._coll(self.addr(s), sn, self._tn(st), 0, self.addr(r), rn, rt, d * self._ext(rt), 's')

    def m_scatterv(self, l, s, sn, d, st, r, rn, rt, root, c):
        self.C(c)
        if self._root(root):
            self.count('root')
            return [0]
        st = self._tn(st)
        return self._coll(self.addr(s), sn, st, d * self._ext(st), self.addr(r), rn, self._tn(rt), 0, 'r')

    def m_alltoallv(self, l, s, sn, sd, st, r, rn, rd, rt, c):
        self.C(c)
        st, rt = self._tn(st), self._tn(rt)
        if self.addr(s) == 'inplace':
            sd, sn = 0, 0
        return self._coll(self.addr(s), sn, st, sd * self._ext(st), self.addr(r), rn, rt, rd * self._ext(rt), 's')

    def m_alltoallw(self, l, s, sn, sd, st, r, rn, rd, rt, c):
        self.C(c)
        if self.addr(s) == 'inplace':
            sd, sn = 0, 0
        return self._coll(self.addr(s), sn, self._tn(st), sd, self.addr(r), rn, self._tn(rt), rd, 's')

    def _op(self, o):
        if isinstance(o, str):
            if not self.o.get(o):
                raise Invalid('op')
        return 0

    def _red(self, s, r, n, t):
        t = self.T(t)
        return self._coll(self.addr(s), n, t, 0, self.addr(r), n, t, 0, 's')

    def m_reduce(self, l, s, r, n, t, o, root, c):
        self.C(c)
        self._op(o)
        if root != 0:
            raise Misuse('bad root') if root != ROOT else Invalid('root')
        return self._red(s, r, n, t)

    def m_allreduce(self, l, s, r, n, t, o, c):
        self.C(c)
        self._op(o)
        return self._red(s, r, n, t)
    m_scan = m_redscat = m_allreduce

    def m_opcreate(self, l, cm, o):
        self.o[o] = True
        return [0]

    def m_opfree(self, l, o):
        if not self.o.get(o):
            raise Invalid('op')
        self.o[o] = False
        return [0]

    def m_opcalls(self, l):
        return [0]

    # ---- communicators
    def _setcomm(self, slot, c):
        if self.c.get(slot) is not None:
            raise Invalid('comm slot in use')
        self.c[slot] = c
        return [0, ('0',) if c is None else ('N', 'c', c.uid)]

    def _newc(self):
        if self.finalized:
            raise Invalid('finalized')
        return Comm(self.uid())

    def m_cdup(self, l, c, new):
        old = self.C(c)
        x = self._newc()
        x.periods = old.periods
        return self._setcomm(new, x)

    def m_imerge(self, l, c, high, new):
        self.C(c)
        return self._setcomm(new, self._newc())

    def m_ccreate(self, l, c, g, new):
        self.C(c)
        g = self.G(g)
        return self._setcomm(new, self._newc() if g else None)

    def m_csplit(self, l, c, color, key, new):
        self.C(c)
        if color < -1:
            raise Invalid('color')
        return self._setcomm(new, None if color == UNDEFINED else self._newc())

    def m_icreate(self, l, a, la, b, lb, tag, new):
        a, b = self.Cn(a), self.Cn(b)
        return self._setcomm(new, None if a is None and b is None else self._newc())

    def m_cfree(self, l, c):
        x = self.C(c)
        if x is self.world:
            raise Invalid('world')
        if (x.sq or x.rq) and not self.allow_warn:
            raise Invalid('pending')
        x.dead = True
        self.c[c] = None
        return [0, ('X', x.uid)]

    def m_cinfo(self, l, c):
        self.C(c)
        return [0, 1, 0]

    def m_cgroup(self, l, c, g):
        self.C(c)
        self.g[g] = frozenset([0])
        return [0, ('G1',)]

    def m_cconv(self, l, c):
        self.Cn(c)
        return [1, 1]

    def m_rconv(self, l, r):
        if r not in self.r:
            raise Invalid('req')
        return [1, 1]

    def m_gconv(self, l, g):
        self.G(g)
        return [1, 1]

    def m_oconv(self, l, o):
        return [1, 1]

    # ---- groups
    def _setgroup(self, slot, v):
        self.g[slot] = v
        return [0, ('G1',) if v else -1]

    def m_gincl(self, l, g, n, *a):
        g = self.G(g)
        r, new = list(a[:-1]), a[-1]
        if len(r) != n:
            raise Invalid('n')
        if g is None:
            raise Misuse('null group')
        if n == 0:
            return self._setgroup(new, frozenset())
        if not g:
            raise Invalid('rank not in group')
        if n > 1 or r[0] != 0:
            raise Misuse('oversized group')
        return self._setgroup(new, frozenset([0]))

    def m_grange(self, l, g, n, *a):
        g = self.G(g)
        r, new = list(a[:-1]), a[-1]
        if len(r) != 3 * n:
            raise Invalid('n')
        if g is None:
            raise Misuse('null group')
        if n == 0:
            return self._setgroup(new, frozenset())
        if not g or r[2] == 0:
            raise Invalid('rank not in group')
        if n > 1 or r[0] != 0 or r[1] != 0:
            raise Misuse('oversized group')
        return self._setgroup(new, frozenset([0]))

    def _gg(self, a, b):
        a, b = self.G(a), self.G(b)
        if a is None or b is None:
            raise Misuse('null group')
        return a, b

    def m_gunion(self, l, a, b, new):
        a, b = self._gg(a, b)
        return self._setgroup(new, a | b)

    def m_ginter(self, l, a, b, new):
        a, b = self._gg(a, b)
        return self._setgroup(new, a & b)

    def m_gdiff(self, l, a, b, new):
        a, b = self._gg(a, b)
        return self._setgroup(new, a - b)

    def m_gfree(self, l, g):
        if self.g.get(g) is None:
            raise Invalid('group')
        self.g[g] = None
        return [0, 0]

    def m_gtrans(self, l, a, n, *x):
        r, b = list(x[:n]), x[n]
        a, b = self._gg(a, b)
        if n and not a:
            raise Misuse('empty group')
        if any(v != 0 for v in r):
            raise Misuse('bad rank')
        return [0] + [0 if 0 in b else UNDEFINED] * n

    # ---- topologies
    def m_cartcreate(self, l, c, nd, *a):
        a = list(a)
        d, p = a[:nd], a[nd:2*nd]
        if len(a) != 2*nd + 2:
            raise Invalid('args')
        self.C(c)
        if any(x > 1 for x in d):
            raise Misuse('dimension')
        n = self._newc()
        n.periods = tuple(p)
        x = self._setcomm(a[-1], n)
        return x + [v for i in range(nd) for v in (d[i], p[i])]

    def m_cartget(self, l, c, nd, al):
        if nd > al:
            raise Invalid('shrunk')
        p = self.C(c).periods
        return [0] + [v for i in range(al) for v in
                      ((1, int(bool(p[i])) if i < len(p) and (l == 'c' or p[i] in (0, 1)) else None, 0) if i < nd else (-12345,) * 3)]

    def m_cartcoords(self, l, c, rank, nd, al):
        if nd > al:
            raise Invalid('shrunk')
        self.C(c)
        if rank != 0:
            raise Misuse('rank')
        return [0] + [0 if i < nd else -12345 for i in range(al)]

    def m_dims(self, l, nn, nd, al, *d):
        if nd > al:
            raise Invalid('shrunk')
        if nn > 1:
            raise Misuse('nodes')
        return [0] + [1 if i < nd else d[i] for i in range(al)]
