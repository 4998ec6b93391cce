"""Program generator: valid by construction, the model runs alongside."""
import random
import numpy as np
from .model import Model, Invalid, Misuse, WORLD, ANY, PROC_NULL, ROOT, UNDEFINED, Kinds

# kinds by predefined handle(s).  -12 BYTE and -13 PACKED share a kind but are never mixed.
H = {'char': -1, 'short': -2, 'int': -3, 'long': -4, 'uchar': -5, 'ushort': -6, 'uint': -7, 'ulong': -8,
     'float': -9, 'double': -10, 'ldouble': -11, 'byte': -12, 'packed': -13, 'INTEGER': -16, 'REAL': -17,
     'DOUBLE': -18, 'COMPLEX': -19, 'DCOMPLEX': -20, 'LOGICAL': -21, 'CHARACTER': -22, 'INTEGER1': -32,
     'INTEGER2': -33, 'INTEGER4': -34, 'INTEGER8': -35, 'INTEGER16': -36, 'REAL4': -37, 'REAL8': -38,
     'REAL16': -39, 'COMPLEX8': -40, 'COMPLEX16': -41, 'COMPLEX32': -42, 'longlong': -43, 'ulonglong': -44,
     'offset': -45, 'schar': -46, 'wchar': -47}
PAIRS = {('REAL', 'REAL'): -23, ('DOUBLE', 'DOUBLE'): -24, ('INTEGER', 'INTEGER'): -25, ('float', 'int'): -26,
         ('double', 'int'): -27, ('long', 'int'): -28, ('int', 'int'): -29, ('short', 'int'): -30,
         ('ldouble', 'int'): -31}
COMMON = ['int', 'double', 'char', 'short', 'long', 'float', 'INTEGER', 'DOUBLE', 'byte']

class Quit(Exception):
    """this program cannot be continued as planned"""

DEFAULT = dict(isend=10, irecv=10, send=5, recv=5, ssend=1, rsend=1, irsend=1, sendrecv=2, iprobe=4, probe=1,
               test=5, wait=5, rfree=1, waitany=2, testany=2, waitall=1, testall=2, waitsome=2, testsome=2,
               getcount=4, type=4, tfree=1, tdup=1, geom=1, pack=2, coll=3, inplace=1, comm=2, cfree=1,
               group=1, cart=0.5, env=0.3, dump=1, burst=0.7, procnull=1)

def profile(**kw):
    p = dict.fromkeys(DEFAULT, 0)
    p.update(kw)
    return p

class G:
    def __init__(self, rng, fort=None, kw=None, npat=None, arena=None, pats=None, init=True, kinds=None):
        self.r = rng
        self.kw = dict(kw or {})
        self.m = Model(**self.kw)
        self.ops, self.exp = [], []
        self.pf = rng.choice([0, 0, 0.3, 0.5, 1]) if fort is None else fort
        self.nb = self.nt = self.nr = self.nc = self.ns = self.ng = self.no = 0
        self.kinds_ok = kinds
        self.pats = pats or [self.new_pattern() for _ in range(npat or rng.choice([1, 1, 1, 2]))]
        self.pool = [[] for _ in self.pats]      # type slots per pattern
        self.partial = [[] for _ in self.pats]
        self.comms = [WORLD]
        self.cpat = {WORLD: 0}
        self.groups = []
        self.bufs = {}                            # name -> size of plain buffers
        self.arena = None
        self.arena_used = 0
        self.tags = self.new_tags()
        self.pwild = rng.choice([0, 0.1, 0.3, 0.6])
        self.reps = rng.choice([1, 2, 3, 4, 6, 12])
        self.most = 20000                         # elements of one buffer
        self.cap = rng.choice([8, 24, 64])
        self.packed_ok = True
        self.stat_slots = []
        self.info = {}
        if init:
            k = rng.random()
            if k < 0.8:
                self.do('init', self.l())
            elif k < 0.9:
                self.do('initargs', 'c')
            else:
                self.do('initthread', self.l(), rng.randrange(4))
            if arena if arena is not None else rng.random() < 0.25:
                self.arena = self.newbuf(rng.choice([600, 3000, 20000]))

    # ---- basics
    def l(self):
        return 'f' if self.r.random() < self.pf else 'c'

    def do(self, *op):
        op = list(op)
        if op[0] in ('dump', 'fill') and op[1][0] == '@':
            return []
        e = self.m.apply(op)
        self.ops.append(op)
        self.exp.append(e)
        return e

    def attempt(self, *op):
        """do, or restore the model and return None"""
        try:
            return self.do(*op)
        except (Invalid, Misuse):
            m = Model(**self.kw)
            for o in self.ops:
                m.apply(o)
            self.m = m
            self.info['rejected'] = self.info.get('rejected', 0) + 1
            return None

    def tag(self):
        return self.r.choice(self.tags)

    def new_tags(self):
        r = self.r
        t = r.choice([0, 1, 77, 255, 1000, 32767, 65536, 2**31 - 1, 1681915906, r.randrange(2**31)])
        tags = [t]
        for _ in range(r.choice([0, 1, 1, 2, 3, 6, 12])):
            k = r.random()
            b = r.choice(tags)
            if k < 0.5:
                t = b ^ (1 << r.randrange(31))
            elif k < 0.7:
                t = b + r.choice([-1, 1])
            elif k < 0.8:
                t = r.choice([0, 1, 2**31 - 1])
            else:
                t = r.randrange(2**31) if r.random() < 0.5 else r.randrange(50)
            if 0 <= t < 2**31:
                tags.append(t)
        return tags

    def new_pattern(self):
        r = self.r
        kinds = self.kinds_ok
        def one():
            if kinds:
                return r.choice(kinds)
            return r.choice(COMMON) if r.random() < 0.7 else r.choice([k for k in H if k != 'packed'])
        k = r.random()
        if k < 0.62:
            return (one(),)
        if k < 0.72 and not kinds:
            return r.choice(list(PAIRS))
        n = r.choice([2, 2, 3, 4])
        return tuple(x if x != 'byte' else 'int' for x in (one() for _ in range(n)))

    def ksize(self, k):
        return self.m.K.size[self.m.K.id['byte' if k == 'packed' else k]]

    # ---- buffers
    def newbuf(self, n):
        b = 'b%d' % self.nb
        self.nb += 1
        self.do('buf', b, n, self.r.randrange(1 << 30))
        self.bufs[b] = n
        return b

    def span(self, t, cnt):
        if t.n == 0 or cnt == 0:
            return 0, 0
        lo, hi = int(t.d.min()), int((t.d + t.lens).max())
        e = t.extent * (cnt - 1)
        return lo + min(0, e), hi + max(0, e)

    def alloc(self, t, cnt, exact=False):
        """address token for cnt items of t in fresh memory"""
        r = self.r
        lo, hi = self.span(t, cnt)
        n = hi - lo
        if n > 8000000:
            raise Quit('span')
        if (t.n == 0 or cnt == 0) and r.random() < .15:
            return '@null'
        if self.arena and not exact:
            gap = r.choice([0, 0, 1, 5])
            if self.arena_used + gap + n <= self.bufs[self.arena]:
                off = self.arena_used + gap
                self.arena_used = off + n
                return '%s:%d' % (self.arena, off - lo)
        f = 0 if exact or r.random() < 0.6 else r.choice([1, 3, 8, 40])
        b = 0 if exact or r.random() < 0.6 else r.choice([1, 4, 16, 70])
        buf = self.newbuf(n + f + b)
        return '%s:%d' % (buf, f - lo)

    # ---- types
    def T(self, x):
        return self.m.T(x)

    def leaf(self, pi, ov=False):
        r, P = self.r, self.pats[pi]
        if len(P) == 1:
            return H[P[0]]
        if P in PAIRS and r.random() < 0.5:
            return PAIRS[P]
        return self.struct_of(P, ov)

    def struct_of(self, P, ov=False):
        """struct type with exactly these kinds, random order of displacements; ov: elements may overlap"""
        r = self.r
        order = list(range(len(P)))
        mode = r.random()
        if mode > 0.6:
            r.shuffle(order)
        pos = r.choice([0, 0, 0, 4, -8, -24, 3, 16])
        disp = [0] * len(P)
        align = r.random() < 0.7
        for i in order:
            s = self.ksize(P[i])
            if align:
                pos = -(-pos // s) * s
            disp[i] = pos
            pos += s + (0 if r.random() < 0.7 else r.choice([1, 2, 4, 8]))
        if ov and r.random() < 0.4:
            disp = [r.randrange(-6, 14) for _ in P]
        # merge equal adjacent kinds into one block when contiguous (sometimes)
        bl, dd, tt = [], [], []
        for i in range(len(P)):
            if bl and tt[-1] == H[P[i]] and dd[-1] + bl[-1] * self.ksize(P[i]) == disp[i] and r.random() < 0.7:
                bl[-1] += 1
            else:
                bl.append(1)
                dd.append(disp[i])
                tt.append(H[P[i]])
        if r.random() < 0.1:
            k = r.randrange(len(bl) + 1)
            bl.insert(k, 0)
            dd.insert(k, r.choice([0, -100, 1000]))
            tt.insert(k, H[P[0]])
        return self.mk('struct', self.l(), len(bl), *bl, *dd, *tt)

    def mk(self, *op):
        t = 't%d' % self.nt
        self.nt += 1
        self.do(*op, t)
        return t

    def nonov(self, t, cnt):
        """may receive cnt items"""
        if t.n * cnt <= 1:
            return True
        if t.n * cnt > 200000:
            st = np.sort(t.d)
            m = int(t.lens.max())
            lo, hi = self.span(t, 1)
            return bool((st[1:] - st[:-1] >= m).all()) and abs(t.extent) >= hi - lo
        a = np.sort(self.m.expand(0, cnt, t))
        return not bool((a[1:] == a[:-1]).any())

    def wrap(self, pi, old, ov=False):
        """a new type made of copies of old; ov: elements may overlap"""
        r = self.r
        o = self.T(old)
        many = r.random()
        cap = max(1, (400 if many < .08 else self.cap) // max(1, o.n))
        n = min(cap, r.choice([0, 1, 1, 2, 2, 3, 4, 6]) if many >= .08 else r.choice([0, 2, 9, 10, 16, 33]))
        ext = o.extent
        lo, hi = self.span(o, 1)
        need = max(hi - lo, 1)              # bytes between copies that cannot overlap
        u = max(1, abs(ext))
        k = -(-need // u) if ext else None  # extents between copies that cannot overlap
        what = r.choice(['contig', 'vector', 'hvector', 'chvector', 'indexed', 'iblock', 'hindexed', 'struct',
                         'struct', 'bounds', 'dup', 'vector', 'indexed'])
        l = self.l()
        if what == 'dup':
            return self.mk('tdup', l, old)
        if what == 'bounds':
            return self.bounds(old)
        bl = r.choice([0, 1, 1, 1, 2, 2, 3]) if many >= .08 else r.choice([0, 1, 2, 10, 12, 20])
        if o.n and abs(ext) < need and not (ov and r.random() < .3):
            bl = min(bl, 1)
        sign = -1 if r.random() < 0.25 else 1
        gap = r.choice([0, 0, 1, 1, 2, 5]) if r.random() > .03 else r.choice([300, 1001, 2000])
        if what == 'contig':
            return self.mk('contig', l, n, old)
        n = max(0, min(n, cap // max(1, bl)))
        if what == 'vector':
            st = sign * ((bl if k is None else (bl - 1 + k)) + gap)
            if ov and r.random() < 0.3:
                st = r.choice([0, 1, -1])
            return self.mk('vector', l, n, bl, st, old)
        if what in ('hvector', 'chvector'):
            w = abs(ext) * max(0, bl - 1) + need
            g = gap * r.choice([1, 1, u])
            st = sign * (w + g)
            if ov and r.random() < 0.3:
                st = r.choice([0, 1, -4])
            return self.mk(what, l, n, bl, st, old)
        # irregular blocks: choose blocklens, lay them out, permute
        if what == 'iblock':
            bls = [bl] * n
        else:
            bls = [r.choice([0, 1, 1, 2, 3]) if bl > 1 else r.choice([0, 1, 1, 1]) for _ in range(n)]
            if bl > 3 and n:
                bls[r.randrange(n)] = bl
        order = list(range(n))
        if r.random() < 0.4:
            r.shuffle(order)
        elif r.random() < 0.3:
            order.reverse()
        d = [0] * n
        if what in ('indexed', 'iblock'):
            pos = r.choice([0, 0, 0, 1, 4, -3, -7])
            for i in order:
                d[i] = pos
                w = (bls[i] if k is None else max(0, bls[i] - 1 + k))
                pos += w + r.choice([0, 0, 1, 2, gap])
            if ov and r.random() < 0.3:
                d = [r.randrange(-2, 5) for _ in d]
            if what == 'iblock':
                return self.mk('iblock', l, n, bl, *d, old)
            return self.mk('indexed', l, n, *bls, *d, old)
        pos = r.choice([0, 0, 0, 4, 8, -16, 3])
        g = r.choice([1, 4, 8])
        neg = ext < 0
        for i in order:
            w = abs(ext) * max(0, bls[i] - 1)
            d[i] = pos + (w if neg else 0)
            pos += w + need + g * r.choice([0, 0, 0, 1, 2, gap])
        if ov and r.random() < 0.2:
            d = [r.randrange(-8, 20) for _ in d]
        if what == 'hindexed':
            return self.mk('hindexed', l, n, *bls, *d, old)
        # struct: may mix several types of the pattern
        ts = [old] * n
        if not neg and r.random() < 0.6:
            others = [x for x in self.pool[pi] + [self.leafs(pi)] if x is not None and self.T(x).n <= cap
                      and self.span(self.T(x), 1)[1] - self.span(self.T(x), 1)[0] <= 4 * need + 64]
            pos = r.choice([0, 0, 8, -16, 3])
            for i in order:
                if others and r.random() < 0.5:
                    ts[i] = r.choice(others)
                x = self.T(ts[i])
                a, b = self.span(x, max(1, bls[i]))
                if abs(x.extent) < self.span(x, 1)[1] - self.span(x, 1)[0] and not ov:
                    bls[i] = min(1, bls[i])
                    a, b = self.span(x, max(1, bls[i]))
                d[i] = pos - a
                pos += b - a + g * r.choice([0, 0, 0, 1, 2])
        return self.mk('struct', l, n, *bls, *d, *ts)

    def leafs(self, pi):
        P = self.pats[pi]
        if len(P) == 1:
            return H[P[0]]
        return PAIRS.get(P)

    def bounds(self, old):
        """struct with MPI_LB and/or MPI_UB around old"""
        r = self.r
        o = self.T(old)
        if o.n == 0:
            return self.mk('contig', self.l(), 1, old)
        lo, hi = self.span(o, 1)
        n = r.choice([1, 1, 2])
        parts = []
        pos = r.choice([0, 0, 8, -8])
        for i in range(n):
            parts.append((1, pos, old))
            pos += hi - lo + r.choice([0, 0, 4])
        w = r.choice(['lb', 'ub', 'ub', 'both', 'both', 'both', 'two'])
        a = lo + r.choice([0, 0, -4, -16, 4, -3])
        b = pos + lo + r.choice([0, 0, 4, 16, 1, -1 if r.random() < .3 else 0])
        if r.random() < .12:                   # the upper bound lies below the lower
            b = a - r.choice([0, 0, 1, 8, hi - lo, hi - lo + 8])
        marks = []
        if w in ('lb', 'both'):
            marks.append((1, a, -14))
        if w in ('ub', 'both', 'two'):
            marks.append((1, b, -15))
        if w == 'two':
            marks.append((1, b + r.choice([-4, 4, 8]), -15))
            marks.append((1, a, -14))
        if r.random() < .1:                    # an empty block bounds nothing, a long one is the same as one
            marks.append((0, r.choice([-1000, 1000, 0]), r.choice([-14, -15])))
        if r.random() < .1:
            marks[0] = (r.choice([2, 5]),) + marks[0][1:]
        for x in marks:
            parts.insert(r.randrange(len(parts) + 1), x)
        return self.mk('struct', self.l(), len(parts), *[p[0] for p in parts], *[p[1] for p in parts],
                       *[p[2] for p in parts])

    def new_type(self, pi, depth=None, ov=False, commit=True):
        r = self.r
        if depth is None:
            depth = r.choice([0, 1, 1, 2, 2, 3])
        t = self.leaf(pi, ov)
        mids = []
        for _ in range(depth):
            mids.append(t)
            t = self.wrap(pi, t, ov)
        if isinstance(t, int):
            t = self.mk('contig', self.l(), r.choice([1, 1, 2, 3]), t)
        for x in mids:                         # constituents may go early
            if isinstance(x, str) and r.random() < 0.3:
                if x not in self.pool[pi]:
                    self.do('tfree', self.l(), x)
        if commit:
            self.commit(t)
        self.pool[pi].append(t)
        return t

    def commit(self, t):
        if isinstance(t, str) and not self.T(t).committed:
            self.do('commit', self.l(), t)
        elif self.r.random() < .01:            # once more changes nothing
            self.do('commit', self.l(), t)
        return t

    def pick_type(self, pi, send=False):
        r = self.r
        k = r.random()
        if k < 0.25 or not self.pool[pi]:
            x = self.leafs(pi)
            if x is not None:
                return x
        if k > 0.93 or not self.pool[pi]:
            t = self.new_type(pi, ov=send and r.random() < 0.3)
        else:
            t = r.choice(self.pool[pi])
        return self.commit(t)

    def pick(self, pi, writing, reps=None):
        """(type, count) for a buffer"""
        r = self.r
        P = len(self.pats[pi])
        for _ in range(6):
            t = self.pick_type(pi, not writing)
            o = self.T(t)
            per = o.n // P
            if reps is None:
                reps = self.reps if r.random() < 0.75 else r.choice([0, 1, 2, 5, 11, 24, self.reps + 1, 2 * self.reps])
            if per == 0:
                c = r.choice([0, 1, 2, 3, 3, 15, 1000])
            elif reps % per == 0:
                c = reps // per
            else:
                c = reps // per + r.choice([0, 1])
            if o.n * c > self.most:
                continue
            if writing and not self.nonov(o, c):
                if self.nonov(o, 1):
                    c = 1
                else:
                    continue
            return t, c
        x = self.leaf(pi)
        return self.commit(x), (reps if self.nonov(self.T(x), reps) else 1)

    # ---- point to point
    def comm(self):
        return self.r.choice(self.comms)

    def nreq(self):
        s = 'r%d' % self.nr
        self.nr += 1
        return s

    def nstat(self, p=0.25, n=1):
        if self.r.random() < p:
            return '-'
        s = 's%d' % self.ns
        self.ns += n
        self.stat_slots.append((self.ns - n, n))
        return s

    def sendargs(self, c, tag=None, reps=None):
        pi = self.cpat[c]
        r = self.r
        if r.random() < 0.002 and reps is None:
            t = self.leafs(pi) or self.commit(self.leaf(pi))
            n = r.choice([1000, 5000, 30000])
        else:
            t, n = self.pick(pi, False, reps)
            if r.random() < 0.06 and len(self.pats[pi]) > 1:      # a partial signature
                P = self.pats[pi]
                t, n = self.commit(self.struct_of(P[:r.randrange(1, len(P))])), 1
        return [self.alloc(self.T(t), n), n, t, 0, self.tag() if tag is None else tag, c]

    def recvargs(self, c, tag=None, reps=None):
        r = self.r
        t, n = self.pick(self.cpat[c], True, reps)
        if tag is None:
            tag = ANY if r.random() < self.pwild else self.tag()
        return [self.alloc(self.T(t), n), n, t, 0 if r.random() < 0.7 else ANY, tag, c]

    def want(self, q):
        """reps to ask for so as to face pending operation q"""
        r = self.r
        reps = q.cnt * q.type.n // max(1, len(self.pats[self.cpat_of(q)]))
        k = r.random()
        if reps > 2000:
            return reps
        if k < 0.6:
            return reps
        if k < 0.8:
            return reps + r.choice([1, 2, reps])
        return max(0, reps - r.choice([1, 2, reps // 2]))

    def cpat_of(self, q):
        for c in self.comms:
            if self.m.C(c) is q.comm:
                return self.cpat[c]
        return 0

    def pending(self, kind):
        """(comm, op) of some pending operation of that kind"""
        cs = [c for c in self.comms if getattr(self.m.C(c), kind)]
        if not cs:
            return None, None
        c = self.r.choice(cs)
        q = getattr(self.m.C(c), kind)
        k = self.r.random()
        return c, (q[0] if k < 0.4 else q[-1] if k < 0.55 else self.r.choice(q))

    def a_isend(self):
        c, q = self.pending('rq')
        if q is not None and self.r.random() < 0.5:
            tag = q.tag if q.tag != ANY else self.tag()
            a = self.sendargs(c, tag, self.want(q))
        else:
            a = self.sendargs(self.comm())
        self.do('isend', self.l(), *a, self.nreq())

    def a_irecv(self):
        c, q = self.pending('sq')
        if q is not None and self.r.random() < 0.5:
            tag = ANY if self.r.random() < self.pwild else q.tag
            a = self.recvargs(c, tag, self.want(q))
        else:
            a = self.recvargs(self.comm())
        self.do('irecv', self.l(), *a, self.nreq())

    def _bsend(self, what):
        c, q = self.pending('rq')
        if q is None:
            if self.r.random() < 0.7:
                self.a_irecv()
            return
        tag = q.tag if q.tag != ANY else self.tag()
        a = self.sendargs(c, tag, self.want(q))
        if what == 'irsend':
            a.append(self.nreq())
        self.do(what, self.l(), *a)
    def a_send(self): self._bsend('send')
    def a_ssend(self): self._bsend('ssend')
    def a_rsend(self): self._bsend('rsend')
    def a_irsend(self): self._bsend('irsend')

    def a_recv(self):
        c, q = self.pending('sq')
        if q is None:
            if self.r.random() < 0.7:
                self.a_isend()
            return
        tag = ANY if self.r.random() < self.pwild else q.tag
        self.do('recv', self.l(), *self.recvargs(c, tag, self.want(q)), self.nstat())

    def a_sendrecv(self):
        r = self.r
        c = self.comm()
        C = self.m.C(c)
        for _ in range(6):
            dest = PROC_NULL if r.random() < 0.12 else 0
            src = PROC_NULL if r.random() < 0.12 else r.choice([0, 0, ANY])
            tag = self.tag()
            rtag = ANY if r.random() < 0.25 else tag if r.random() < 0.6 else self.tag()
            got = None
            rmatch = src == PROC_NULL or any(rtag in (ANY, q.tag) for q in C.sq)
            if dest == PROC_NULL:
                ok = rmatch
            else:
                first = next((q for q in C.rq if q.tag in (ANY, tag)), None)
                if rmatch:
                    ok = first is not None
                else:
                    ok = first is None and rtag in (ANY, tag)
            if ok:
                break
        else:
            return
        reps = self.reps if r.random() < 0.7 else r.choice([0, 1, 3])
        s = self.sendargs(c, tag, reps)
        s[3] = dest
        v = self.recvargs(c, rtag, reps + r.choice([0, 0, 1]))
        v[3] = src
        self.do('sendrecv', self.l(), *s[:5], *v[:5], c, self.nstat())

    def a_procnull(self):
        r = self.r
        c = self.comm()
        what = r.choice(['send', 'ssend', 'rsend', 'isend', 'irsend', 'recv', 'irecv', 'iprobe', 'probe'])
        if what in ('iprobe', 'probe'):
            self.do(what, self.l(), PROC_NULL, r.choice([ANY, self.tag()]), c, self.nstat())
        elif what in ('recv', 'irecv'):
            a = self.recvargs(c)
            a[3] = PROC_NULL
            self.do(what, self.l(), *a, self.nstat() if what == 'recv' else self.nreq())
        else:
            a = self.sendargs(c)
            a[3] = PROC_NULL
            self.do(what, self.l(), *a, *([self.nreq()] if what[0] == 'i' else []))

    def probeargs(self):
        r = self.r
        c, q = self.pending('sq')
        if q is not None and r.random() < 0.75:
            tag = q.tag if r.random() < 0.7 else ANY
        else:
            c, tag = self.comm(), (ANY if r.random() < 0.4 else self.tag())
        return [r.choice([0, 0, ANY]), tag, c]

    def a_iprobe(self):
        a = self.probeargs()
        self.do('iprobe', self.l(), *a, self.nstat(0.15))
        if self.r.random() < 0.4:
            self.follow(a)

    def a_probe(self):
        a = self.probeargs()
        if self.m._probe(*a[:2], self.m.C(a[2])) is None:
            return
        self.do('probe', self.l(), *a, self.nstat(0.1))
        if self.r.random() < 0.6:
            self.follow(a)

    def follow(self, a):
        """the receive that a probe with these arguments predicts"""
        src, tag, c = a
        hit = self.m._probe(src, tag, self.m.C(c))
        if self.stat_slots and self.r.random() < 0.8:
            self.getcounts(self.stat_slots[-1][0], c)
        v = self.recvargs(c, tag, None if hit is None else hit.nel // len(self.pats[self.cpat[c]]))
        v[3] = src
        if hit is None:
            if self.r.random() < 0.5:
                self.do('irecv', self.l(), *v, self.nreq())
                self.do('test', self.l(), 'r%d' % (self.nr - 1), self.nstat())
            return
        if self.r.random() < 0.6:
            self.do('recv', self.l(), *v, self.nstat(0.1))
        else:
            self.do('irecv', self.l(), *v, self.nreq())
            self.do('wait', self.l(), 'r%d' % (self.nr - 1), self.nstat(0.1))
        if self.r.random() < 0.6:
            self.getcounts(self.ns - 1, c) if self.ns else None

    # ---- completion
    def live(self, done=None):
        return [s for s, q in self.m.r.items() if q is not None and (done is None or q.done == done)]

    def a_test(self):
        v = self.live()
        if not v or self.r.random() < 0.05:
            nulls = [s for s, q in self.m.r.items() if q is None]
            s = self.r.choice(nulls + [0])
            self.do('test', self.l(), s, self.nstat())
            return
        d = self.live(True)
        s = self.r.choice(d) if d and self.r.random() < 0.5 else self.r.choice(v)
        self.do('test', self.l(), s, self.nstat())

    def a_wait(self):
        d = self.live(True)
        if not d or self.r.random() < 0.05:
            nulls = [s for s, q in self.m.r.items() if q is None]
            self.do('wait', self.l(), self.r.choice(nulls + [0]), self.nstat())
            return
        self.do('wait', self.l(), self.r.choice(d), self.nstat())

    def a_rfree(self):
        v = self.live()
        if v:
            self.do('rfree', self.l(), self.r.choice(v))

    def array(self, pend=True, maxn=None, need=None):
        r = self.r
        d, p = self.live(True), self.live(False)
        nulls = [s for s, q in self.m.r.items() if q is None]
        r.shuffle(d)
        r.shuffle(p)
        k = r.random()
        n = r.choice([0, 1, 2, 3, 4, 5, 6, 8, 12, 40])
        if maxn:
            n = min(n, maxn)
        v = []
        mode = r.random()
        if mode < 0.08:
            v = [r.choice(nulls) if nulls and r.random() < .5 else 0 for _ in range(n)]
        else:
            for _ in range(n):
                x = r.random()
                if x < 0.4 and d:
                    v.append(d.pop())
                elif x < 0.75 and p and pend:
                    v.append(p.pop())
                elif x < 0.85:
                    v.append(0)
                elif nulls:
                    v.append(nulls.pop(r.randrange(len(nulls))))
                elif d:
                    v.append(d.pop())
        v = list(dict.fromkeys(x for x in v if x != 0)) + [0] * v.count(0)
        r.shuffle(v)
        return v

    def okay(self, v):
        q = [self.m._req(s) for s in v]
        return q

    def a_testany(self):
        v = self.array()
        self.do('testany', self.l(), len(v), *v, self.nstat(0.2))
    def a_waitany(self):
        v = self.array()
        q = self.okay(v)
        if any(x is not None and x.done for x in q) or all(x is None for x in q):
            self.do('waitany', self.l(), len(v), *v, self.nstat(0.2))
    def a_testall(self):
        v = self.array(pend=self.r.random() < 0.5)
        self.do('testall', self.l(), len(v), *v, self.nstat(0.3, max(1, len(v))))
    def a_waitall(self):
        v = self.array(pend=False)
        if all(x is None or x.done for x in self.okay(v)):
            self.do('waitall', self.l(), len(v), *v, self.nstat(0.3, max(1, len(v))))
    def a_testsome(self):
        v = self.array()
        self.do('testsome', self.l(), len(v), *v, self.nstat(0.3, max(1, len(v))))
    def a_waitsome(self):
        v = self.array()
        q = self.okay(v)
        if any(x is not None and x.done for x in q) or all(x is None for x in q):
            self.do('waitsome', self.l(), len(v), *v, self.nstat(0.3, max(1, len(v))))

    def getcounts(self, s, c=None):
        r = self.r
        st = self.m.s.get(s)
        if st is None or not st.known or st.nel is None:
            return
        pi = self.cpat[c] if c is not None else r.randrange(len(self.pats))
        for _ in range(r.choice([1, 1, 2])):
            t = self.pick_type(pi)
            if r.random() < 0.15:
                t = H[self.pats[pi][0]]
            self.do('getcount' if r.random() < 0.6 else 'getelem', self.l(), 's%d' % s, t)

    def a_getcount(self):
        v = [s for s, x in self.m.s.items() if x.known and x.nel is not None]
        if v:
            self.getcounts(self.r.choice(v[-6:]))

    # ---- types
    def a_type(self):
        pi = self.r.randrange(len(self.pats))
        if self.r.random() < 0.4 and self.pool[pi]:
            old = self.r.choice(self.pool[pi])
            t = self.wrap(pi, old, self.r.random() < 0.1)
            if self.T(t).n > 3 * self.cap:
                self.do('tfree', self.l(), t)
                return
            self.pool[pi].append(t)
        else:
            self.new_type(pi, commit=self.r.random() < 0.8)

    def a_tfree(self):
        pi = self.r.randrange(len(self.pats))
        if self.pool[pi]:
            t = self.pool[pi].pop(self.r.randrange(len(self.pool[pi])))
            self.do('tfree', self.l(), t)

    def a_tdup(self):
        pi = self.r.randrange(len(self.pats))
        old = self.r.choice(self.pool[pi]) if self.pool[pi] and self.r.random() < 0.9 else self.leafs(pi)
        if old is not None:
            self.pool[pi].append(self.mk('tdup', self.l(), old))

    def a_geom(self):
        pi = self.r.randrange(len(self.pats))
        v = self.pool[pi] + [x for x in [self.leafs(pi)] if x is not None]
        if v:
            self.do('geom', self.l(), self.r.choice(v))

    # ---- pack
    def a_pack(self):
        r = self.r
        pi = r.randrange(len(self.pats))
        items = []
        for _ in range(r.choice([1, 1, 2, 3, 5])):
            p = pi if r.random() < 0.7 else r.randrange(len(self.pats))
            t, n = self.pick(p, False)
            items.append((p, t, n))
        tot = sum(self.T(t).size * n for _, t, n in items)
        start = 0 if r.random() < 0.6 else r.choice([1, 3, 16])
        cap = start + tot + (0 if r.random() < 0.6 else r.choice([1, 7, 64]))
        pre = 0 if r.random() < 0.7 else 5
        pb = self.newbuf(pre + cap)
        pa = '%s:%d' % (pb, pre)
        pos = start
        c = self.comm()
        segs = []
        for p, t, n in items:
            if r.random() < 0.3:
                self.do('packsize', self.l(), n, t, c)
            if r.random() < 0.05:
                self.do('packsize', self.l(), r.choice([2**31 - 1, 2**30, 2**29, 2**28 + 7, 10**9]), t, c)
            e = self.do('pack', self.l(), self.alloc(self.T(t), n), n, t, pa, cap, pos, c)
            segs.append((p, n * self.T(t).n // len(self.pats[p]), pos))
            pos = e[1]
        k = r.random()
        end = pos
        if k < 0.35 and self.packed_ok:         # transport
            b2 = self.newbuf(end + r.choice([0, 0, 9]))
            # on a communicator of its own, so that its signature meets only itself
            s = self.newcomm(None)
            if r.random() < 0.5:
                self.do('isend', self.l(), pa, end, -13, 0, self.tag(), s, self.nreq())
                self.do('recv', self.l(), b2, self.bufs[b2], -13, 0, ANY, s, self.nstat())
            else:
                self.do('irecv', self.l(), b2, self.bufs[b2], -13, 0, ANY, s, self.nreq())
                self.do('send', self.l(), pa, end, -13, 0, self.tag(), s)
            self.do('cfree', self.l(), s)
            pa, cap = b2, self.bufs[b2]
        if r.random() < 0.9:
            # unpack with other types of the same signature, maybe regrouped
            pos = start
            i = 0
            while i < len(segs):
                p, reps, _ = segs[i]
                while i + 1 < len(segs) and segs[i + 1][0] == p and r.random() < 0.4:
                    i += 1
                    reps += segs[i][1]
                left = reps
                while left > 0 or reps == 0:
                    want = left if r.random() < 0.6 else r.randrange(0, left + 1)
                    t, n = self.pick(p, True, want)
                    got = n * self.T(t).n // len(self.pats[p])
                    if got > left:
                        t = self.leaf(p)
                        self.commit(t)
                        n = got = left if self.nonov(self.T(t), left) else 1
                        if left == 0:
                            n = got = 0
                    e = self.do('unpack', self.l(), pa, cap, pos, self.alloc(self.T(t), n), n, t, c)
                    pos = e[1]
                    left -= got
                    if reps == 0:
                        break
                i += 1

    # ---- collectives
    def collpair(self, pi=None):
        """send (t, n) and receive (t, n) with the same signature"""
        r = self.r
        if pi is None:
            pi = r.randrange(len(self.pats))
        P = len(self.pats[pi])
        for _ in range(8):
            t, n = self.pick(pi, False)
            reps = n * self.T(t).n // P
            if r.random() < 0.5:
                u, k = t, n
                if self.nonov(self.T(u), k):
                    return t, n, u, k
            for _ in range(4):
                u, k = self.pick(pi, True, reps)
                if k * self.T(u).n // P == reps:
                    return t, n, u, k
            u = self.leaf(pi)
            if self.nonov(self.T(u), reps):
                return t, n, self.commit(u), reps
        x = H[self.pats[pi][0]]
        return x, 1, x, 1

    def junk(self):
        """arguments that are ignored"""
        r = self.r
        k = r.random()
        if k < .25:
            return 0, 0
        x = H[r.choice(COMMON)]
        live = [t for p in self.pool for t in p if t is not None]
        if k < .6 and live:
            x = r.choice(live)
        return r.choice([0, 1, 5, 5, 40, 1000, -1]), x

    def disp(self, t):
        if self.r.random() < .15:
            return self.r.choice([1, 1, -1]) * self.r.choice([7, 15, 100, 255, 257, 1000, 5000, 32768, 65537, 1 << 20, 2**31 - 1])
        return self.r.choice([0, 0, 1, 2, 5, -1, -3])

    def shift(self, a, by):
        if a[0] == '@':
            return a
        b, _, o = a.partition(':')
        return '%s:%d' % (b, int(o or 0) + by)

    def redop(self):
        r = self.r
        if getattr(self, 'opslots', None) and r.random() < 0.5:
            return r.choice(self.opslots)
        return r.choice([0, 1, 2, 3, 4, 5])

    def a_coll(self):
        r = self.r
        c = self.comm()
        t, n, u, k = self.collpair()
        what = r.choice(['gather', 'gatherv', 'allgather', 'allgatherv', 'scatter', 'scatterv', 'alltoall',
                         'alltoallv', 'alltoallw', 'reduce', 'allreduce', 'redscat', 'scan', 'bcast', 'barrier'])
        l = self.l()
        if what == 'barrier':
            return self.do('barrier', l, c)
        if what == 'bcast':
            return self.do('bcast', l, self.alloc(self.T(t), n), n, t, 0, c)
        if what in ('reduce', 'allreduce', 'redscat', 'scan'):
            if not self.nonov(self.T(t), n):
                return
            a = [self.alloc(self.T(t), n), self.alloc(self.T(t), n), n, t, self.redop()]
            return self.do(what, l, *a, *([0] if what == 'reduce' else []), c)
        s, v = self.alloc(self.T(t), n), self.alloc(self.T(u), k)
        se, ve = self.T(t).extent, self.T(u).extent
        d, e = self.disp(t), self.disp(u)
        if what in ('gather', 'scatter'):
            self.do(what, l, s, n, t, v, k, u, 0, c)
        elif what in ('allgather', 'alltoall'):
            self.do(what, l, s, n, t, v, k, u, c)
        elif what == 'gatherv':
            self.do(what, l, s, n, t, self.shift(v, -e * ve), k, e, u, 0, c)
        elif what == 'allgatherv':
            self.do(what, l, s, n, t, self.shift(v, -e * ve), k, e, u, c)
        elif what == 'scatterv':
            self.do(what, l, self.shift(s, -d * se), n, d, t, v, k, u, 0, c)
        elif what == 'alltoallv':
            self.do(what, l, self.shift(s, -d * se), n, d, t, self.shift(v, -e * ve), k, e, u, c)
        else:
            d, e = r.choice([0, 4, 7, -8]), r.choice([0, 4, 9, -16])
            if r.random() < .15:
                d, e = [r.choice([1, -1]) * r.choice([0, 8, 129, 257, 5001, 32769, 65540, 1 << 20, 2**31 - 1]) for _ in 'de']
            self.do(what, l, self.shift(s, -d), n, d, t, self.shift(v, -e), k, e, u, c)

    def a_inplace(self):
        r = self.r
        c = self.comm()
        t, n = self.pick(r.randrange(len(self.pats)), True)
        jn, jt = self.junk()
        l = self.l()
        v = self.alloc(self.T(t), n)
        what = r.choice(['gather', 'gatherv', 'allgather', 'allgatherv', 'scatter', 'scatterv', 'alltoall',
                         'alltoallv', 'alltoallw', 'reduce', 'allreduce', 'redscat', 'scan', 'bcast',
                         'Rgather', 'Rgatherv', 'Rscatter', 'Rscatterv', 'Rbcast'])
        d = r.choice([0, 1, -2]) if r.random() < .9 else self.disp(t)
        root = ROOT if r.random() < .1 else 0
        dv = -d * self.T(t).extent
        if what == 'bcast':
            self.do(what, l, v, n, t, 0, c)
        elif what in ('reduce', 'allreduce', 'redscat', 'scan'):
            self.do(what, l, '@inplace', v, n, t, self.redop(), *([0] if what == 'reduce' else []), c)
        elif what == 'gather':
            self.do(what, l, '@inplace', jn, jt, v, n, t, root, c)
        elif what == 'scatter':
            self.do(what, l, v, n, t, '@inplace', jn, jt, root, c)
        elif what in ('allgather', 'alltoall'):
            self.do(what, l, '@inplace', jn, jt, v, n, t, c)
        elif what == 'gatherv':
            self.do(what, l, '@inplace', jn, jt, self.shift(v, dv), n, d, t, root, c)
        elif what == 'allgatherv':
            self.do(what, l, '@inplace', jn, jt, self.shift(v, dv), n, d, t, c)
        elif what == 'scatterv':
            self.do(what, l, self.shift(v, dv), n, d, t, '@inplace', jn, jt, root, c)
        elif what in ('alltoallv', 'alltoallw'):
            jd = r.choice([0, 0, 3, -5, 2000])
            k = r.random()
            if k < .25:                         # no arrays at all
                jn, jd, jt = '~', '~', '~' if what == 'alltoallw' else 0
            elif k < .35:
                jn = '~'
            elif k < .45:
                jd = '~'
            self.do(what, l, '@inplace', jn, jd, jt, self.shift(v, dv if what == 'alltoallv' else -d), n, d, t, c)
        else:
            s = self.alloc(self.T(t), n)
            if what == 'Rgather':
                self.do('gather', l, s, n, t, v, n, t, ROOT, c)
            elif what == 'Rscatter':
                self.do('scatter', l, s, n, t, v, n, t, ROOT, c)
            elif what == 'Rgatherv':
                self.do('gatherv', l, s, n, t, v, n, 0, t, ROOT, c)
            elif what == 'Rscatterv':
                self.do('scatterv', l, s, n, 0, t, v, n, t, ROOT, c)
            else:
                self.do('bcast', l, v, n, t, ROOT, c)

    # ---- communicators and groups
    def newcomm(self, pi, ways=None):
        r = self.r
        s = 'c%d' % self.nc
        self.nc += 1
        c = self.comm()
        what = r.choice(ways or ['cdup', 'cdup', 'csplit', 'ccreate', 'cartcreate', 'icreate', 'imerge'])
        l = self.l()
        if what == 'cdup':
            self.do('cdup', l, c, s)
        elif what == 'imerge':
            self.do('imerge', l, c, r.choice([0, 1, 1, 0, 2, -1] if l == 'c' else [0, 1]), s)
        elif what == 'csplit':
            self.do('csplit', l, c, r.choice([0, 0, 3, 7, 1, 65536, 2**31 - 1, r.randrange(2**31)]),
                    r.choice([0, 5, -3, 1, -1, UNDEFINED, 2**31 - 1, -2**31, r.randrange(-2**31, 2**31)]), s)
        elif what == 'ccreate':
            g = self.one_group()
            self.do('ccreate', l, c, g, s)
        elif what == 'icreate':
            a, b = r.choice([(c, self.comm()), (0, c), (c, 0)])
            self.do('icreate', l, a, 0, b, 0, self.tag(), s)
        else:
            nd = r.choice([0, 1, 2, 3, 8]) if r.random() < .95 else r.choice([20, 129, 300, 1100])
            self.do('cartcreate', l, c, nd, *[r.choice([1, 1, 1, 0]) for _ in range(nd)],
                    *[r.choice([0, 1, 0, 1, 2, -1, 256] if l == 'c' else [0, 1]) for _ in range(nd)],
                    r.randrange(2), s)
        if pi is not None:
            self.comms.append(s)
            self.cpat[s] = pi
        return s

    def one_group(self):
        g = 'g%d' % self.ng
        self.ng += 1
        self.do('cgroup', self.l(), self.comm(), g)
        return g

    def a_comm(self):
        r = self.r
        if r.random() < 0.15:
            self.do('cinfo', self.l(), self.comm())
        if r.random() < 0.12:
            s = 'c%d' % self.nc
            self.nc += 1
            k = r.randrange(4)
            if k == 0:
                self.do('csplit', self.l(), self.comm(), UNDEFINED, r.choice([0, 4, -1, UNDEFINED, 2**31 - 1]), s)
            elif k == 1:
                self.do('ccreate', self.l(), self.comm(), -1, s)
            elif k == 2:
                self.do('ccreate', self.l(), self.comm(), 0, s)
            else:
                self.do('icreate', self.l(), 0, 0, 0, 0, 3, s)
            return
        if len(self.comms) > 12:
            return self.a_cfree()
        s = self.newcomm(r.randrange(len(self.pats)))
        if r.random() < 0.5:
            self.do('cinfo', self.l(), s)

    def a_cfree(self):
        v = [c for c in self.comms if c != WORLD and not self.m.C(c).sq and not self.m.C(c).rq]
        if v:
            c = self.r.choice(v)
            self.do('cfree', self.l(), c)
            self.comms.remove(c)

    def grp(self):
        v = [g for g, x in self.m.g.items() if x is not None]
        k = self.r.random()
        if k < 0.2 or not v:
            return self.one_group()
        if k < 0.35:
            return -1
        return self.r.choice(v)

    def a_group(self):
        r = self.r
        s = 'g%d' % self.ng
        self.ng += 1
        l = self.l()
        what = r.choice(['gincl', 'grange', 'gunion', 'ginter', 'gdiff', 'gfree', 'gtrans', 'cgroup', 'ccreate',
                         'gconv'])
        if what == 'cgroup':
            self.do(what, l, self.comm(), s)
        elif what == 'gfree':
            v = [g for g, x in self.m.g.items() if x is not None]
            if v:
                self.do(what, l, r.choice(v))
        elif what == 'gincl':
            g = self.grp()
            n = 0 if not self.m.G(g) else r.choice([0, 1, 1])
            self.do(what, l, g, n, *[0] * n, s)
        elif what == 'grange':
            g = self.grp()
            n = 0 if not self.m.G(g) else r.choice([0, 1, 1])
            self.do(what, l, g, n, *[0, 0, r.choice([1, 1, 2, -1, 7])] * n, s)
        elif what == 'gtrans':
            g = self.grp()
            n = r.choice([0, 1, 2, 5] + [r.choice([17, 100, 1000, 5000])] * (r.random() < .1)) if self.m.G(g) else 0
            self.do(what, l, g, n, *[0] * n, self.grp())
        elif what == 'ccreate':
            c = 'c%d' % self.nc
            self.nc += 1
            self.do(what, l, self.comm(), self.grp(), c)
            if self.m.c[c] is not None:
                self.comms.append(c)
                self.cpat[c] = 0
        elif what == 'gconv':
            self.do(what, l, self.grp())
        else:
            self.do(what, l, self.grp(), self.grp(), s)

    def a_cart(self):
        r = self.r
        c = self.comm()
        k = r.randrange(3)
        nd = r.choice([0, 1, 2, 3, 5])
        p = getattr(self.m.c.get(c), 'periods', None) or ()
        if len(p) > 8 or r.random() < .03:
            nd = r.choice([len(p), len(p), 20, 129, 300, 1100])
        if k == 0:
            self.do('dims', self.l(), 1, nd, nd + 2, *[r.choice([0, 0, 1, 2, 9]) for _ in range(nd + 2)])
        elif k == 1:
            self.do('cartget', self.l(), c, nd, nd + 2)
        else:
            self.do('cartcoords', self.l(), c, 0, nd, nd + 2)

    def a_env(self):
        r = self.r
        k = r.randrange(6)
        if k == 0:
            self.do('initialized', self.l())
        elif k == 1:
            self.do('info', self.l(), 'key', 'value')
        elif k == 2:
            self.do('errh', 'c', self.comm(), r.randrange(2))
        elif k == 3:
            self.do('cconv', 'c', self.comm())
        elif k == 4 and self.m.r:
            self.do('rconv', 'c', r.choice(list(self.m.r)))
        else:
            o = 'o%d' % self.no
            self.no += 1
            self.do('opcreate', self.l(), r.randrange(2), o)
            if not hasattr(self, 'opslots'):
                self.opslots = []
            self.opslots.append(o)
            if r.random() < 0.5:
                self.do('oconv', 'c', r.choice([0, 1, 5, 12, r.randrange(1000)]))
            if r.random() < 0.3:
                x = self.opslots.pop(r.randrange(len(self.opslots)))
                self.do('opfree', self.l(), x)
            self.do('opcalls', 'c')

    def a_dump(self):
        v = list(self.bufs)
        if v:
            self.do('dump', self.r.choice(v[-8:]))

    def a_burst(self):
        r = self.r
        k = r.choice([3, 8, 20, 40])
        kind = r.choice(['isend', 'irecv'])
        c = self.comm()
        for _ in range(k):
            if kind == 'isend':
                self.do('isend', self.l(), *self.sendargs(c), self.nreq())
            else:
                self.do('irecv', self.l(), *self.recvargs(c), self.nreq())

    # ---- whole programs
    def run(self, n, weights):
        names = [k for k, v in weights.items() if v]
        w = [weights[k] for k in names]
        for what in self.r.choices(names, w, k=n):
            try:
                getattr(self, 'a_' + what)()
            except Quit:
                pass
        return self

    def prelude(self, n):
        """leaves the handle tables and free lists in a worn state"""
        r = self.r
        v = []
        for _ in range(n):
            k = r.random()
            if k < 0.6:
                x = self.nreq()
                self.do('irecv', self.l(), '@null', 0, -12, 0, 5, WORLD, x)
                v.append(('r', x))
            elif k < 0.8:
                x = 'c%d' % self.nc
                self.nc += 1
                self.do('cdup', self.l(), WORLD, x)
                v.append(('c', x))
            else:
                v.append(('t', self.mk('contig', self.l(), r.randrange(5), -3)))
            if v and r.random() < 0.3:
                self.release(v.pop(r.randrange(len(v))))
        r.shuffle(v)
        for x in v:
            self.release(x)
        # every receive is still pending or done; consume the pending ones
        while self.m.C(WORLD).rq:
            self.do('send', self.l(), '@null', 0, -12, 0, 5, WORLD)
        for s in self.live():
            self.do('wait', self.l(), s, '-')

    def release(self, x):
        k, s = x
        if k == 'c':
            self.do('cfree', self.l(), s)
        elif k == 't':
            self.do('tfree', self.l(), s)

    def drain(self, free=True):
        """match everything pending, complete every request"""
        r = self.r
        for c in list(self.comms):
            C = self.m.C(c)
            while C.sq:
                q = r.choice(C.sq) if r.random() < 0.5 else C.sq[0]
                tag = ANY if r.random() < 0.3 else q.tag
                self.do('recv', self.l(), *self.recvargs(c, tag, self.want(C.sq[0])), self.nstat())
            while C.rq:
                q = C.rq[0]
                self.do('send', self.l(), *self.sendargs(c, self.tag() if q.tag == ANY else q.tag, self.want(q)))
        v = self.live()
        r.shuffle(v)
        while v:
            k = r.random()
            if k < 0.3:
                self.do('wait', self.l(), v.pop(), self.nstat())
            elif k < 0.4:
                self.do('test', self.l(), v.pop(), self.nstat())
            elif k < 0.45:
                self.do('rfree', self.l(), v.pop())
            elif k < 0.6:
                a, v = v[:7], v[7:]
                self.do('waitall', self.l(), len(a), *a, self.nstat(0.3, len(a)))
            elif k < 0.7:
                a, v = v[:7], v[7:]
                self.do('testall', self.l(), len(a), *a, self.nstat(0.3, len(a)))
            elif k < 0.8:
                a, v = v[:7], v[7:]
                self.do(r.choice(['waitsome', 'testsome']), self.l(), len(a), *a, self.nstat(0.3, len(a)))
            else:
                a = v[:5]
                self.do(r.choice(['waitany', 'testany']), self.l(), len(a), *a, self.nstat())
                v = [s for s in v if self.m.r[s] is not None]

    def free_all(self):
        r = self.r
        v = [('t', t) for t, x in self.m.t.items() if x is not None]
        v += [('c', c) for c in self.comms if c != WORLD]
        r.shuffle(v)
        for x in v:
            self.release(x)
        self.comms = [WORLD]
        for g, x in list(self.m.g.items()):
            if x is not None:
                self.do('gfree', self.l(), g)

    def finish(self, drain=None, final=None):
        r = self.r
        if drain if drain is not None else r.random() < 0.6:
            try:
                self.drain()
            except Quit:
                pass
        for s, st in self.m.s.items():
            if st.known and st.nel is not None and r.random() < 0.3:
                self.getcounts(s)
        for b in self.bufs:
            if 'b%s' % b[1:] and int(b[1:]) in self.m.b:
                self.do('dump', b)
        if final if final is not None else r.random() < 0.3:
            self.do('finalize', self.l())
        return self
