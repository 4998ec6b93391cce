"""One generator per property: gen(rng, i, tier) -> [Case, ...]."""
import random
from . import gen as GEN
from . import lists as LISTS
from .gen import G, H, PAIRS, DEFAULT, profile, Quit, COMMON
from .model import Model, Invalid, Misuse, WORLD, ANY, PROC_NULL, ROOT, UNDEFINED
from .run import Case, text_of
from . import build as B

class Skip(Exception):
    pass

def case(g, variant='asan', mode='ok', note='', **kw):
    st = dict(g.m.stats)
    st['ops'] = len(g.ops)
    st['bytes'] = g.m.matched_bytes
    st['matched'] = g.m.matched
    st['rejected'] = g.info.get('rejected', 0)
    k = dict(g.kw)
    k.update(kw)
    c = Case(list(g.ops), variant, mode, k, note, st)
    c.exp = list(g.exp)
    return c

def length(r, tier, lo=10, hi=60):
    n = r.choice([lo, lo, (lo + hi) // 2, hi])
    if r.random() < (0.02 if tier == 'quick' else 0.06):
        n *= 6
    return n

def mixed(r, i, tier, weights, share=0.2, **kw):
    """a program with these weights, sometimes with the default ones; sometimes on worn tables"""
    g = G(r, **kw)
    if r.random() < 0.15:
        g.prelude(r.choice([5, 20, 60]))
    w = DEFAULT if r.random() < share else weights
    if i % 23 == 9:              # few calls, large counts
        g.reps = r.choice([255, 500, 1000, 1023, 1024, 1025, 1500, 2048, 4000, 4097, r.choice([8193, 32768, 65537, 100001])]) if tier == 'quick' else \
            r.choice([256, 1025, 4097, 8193, 16385, 32769, 70000])
        g.most = 400000
        g.run(r.choice([2, 4, 6]), w).finish(final=False)
        g.m.count('largecounts')
        return g
    g.run(length(r, tier), w).finish()
    return g

def variant(r):
    return 'asan' if r.random() < 0.75 else 'plain@%d' % r.choice([0, 17, 85, 170, 255])

# ---------------------------------------------------------------- C01

P2P = profile(isend=10, irecv=10, send=6, recv=6, ssend=1, rsend=1, irsend=1, sendrecv=3, type=5, tdup=.5,
              tfree=.7, wait=2, test=2, procnull=.5, comm=.5, burst=.3)

def large(r):
    """long messages: element-wise copies far beyond the small programs"""
    g = G(r, arena=False, npat=1)
    P = len(g.pats[0])
    for _ in range(r.choice([1, 2, 3])):
        def side(writing, reps):
            for _ in range(10):
                t = g.pick_type(0, not writing)
                o = g.T(t)
                if o.n == 0 or o.extent <= 0:
                    continue
                per = o.n // P
                c = max(1, reps // max(1, per))
                if abs(o.extent) * c > 3000000 or o.size * c > 1500000:
                    continue
                if writing and not g.nonov(o, c):
                    continue
                return t, c
            x = g.commit(g.leaf(0))
            return x, (reps if g.nonov(g.T(x), reps) else 1)
        reps = r.choice([1000, 4096, 32767, 65536, 100000] + [1 << 20] * (r.random() < .1)) + r.choice([-1, 0, 1])
        t, n = side(False, reps)
        k = n * g.T(t).n // P
        u, m = side(True, k + r.choice([0, 0, 1, -1, 1000]))
        s = ['isend', g.l(), g.alloc(g.T(t), n, True), n, t, 0, 7, WORLD, g.nreq()]
        v = ['irecv', g.l(), g.alloc(g.T(u), m, True), m, u, 0, 7, WORLD, g.nreq()]
        for op in ([s, v] if r.random() < .5 else [v, s]):
            g.do(*op)
        g.do('waitall', g.l(), 2, s[-1], v[-1], g.nstat(0, 2))
        g.getcounts(g.ns - (1 if True else 0))
    g.finish(False, True)
    return g

def c01(r, i, tier):
    if i % 40 == 7:
        return [case(large(r))]
    return [case(mixed(r, i, tier, P2P), variant(r))]

# ---------------------------------------------------------------- C02

MATCH = profile(isend=12, irecv=12, send=4, recv=5, rsend=1, sendrecv=1, comm=3, cfree=.7, test=2, wait=2, rfree=.5,
                iprobe=1, burst=1.5, testsome=.5)

def deep(r, tier, ncomm=None):
    """long queues with few tags; every message carries its own number"""
    g = G(r, arena=False, pats=[('int',)])
    N = r.choice([60, 150, 400] + ([900, 2500] if tier == 'thorough' or r.random() < 0.3 else []))
    cs = [WORLD]
    for k in range(r.choice([0, 0, 1, 3]) if ncomm is None else ncomm):
        c = 'c%d' % k
        g.do('cdup', g.l(), r.choice(cs), c)
        cs.append(c)
        g.comms.append(c)
        g.cpat[c] = 0
    g.nc = 10
    tags = g.tags[:]
    if r.random() < 0.3:
        tags = [r.randrange(2**31) for _ in range(N)]
    sb, rb = g.newbuf(4 * 3 * N), g.newbuf(4 * 3 * N)
    ns = nr = 0
    depth = r.choice([5, N // 4, N])
    pw = r.choice([0, 0.05, 0.3])
    bias = {c: r.choice([0, 1]) for c in cs}
    for _ in range(2 * N):
        c = r.choice(cs)
        C = g.m.C(c)
        q, p = len(C.sq), len(C.rq)
        send = bias[c]
        if q >= depth or p >= depth or r.random() < 0.25:
            send = 1 if p > q else 0
        if q + p == 0:
            bias[c] = send = r.randrange(2)
        if send:
            tag = r.choice(tags)
            if C.rq and r.random() < 0.6:
                x = r.choice(C.rq)
                tag = tag if x.tag == ANY else x.tag
            g.do('isend', g.l(), '%s:%d' % (sb, 4 * ns), 1, -3, 0, tag, c, g.nreq())
            ns += 1
        else:
            tag = ANY if r.random() < pw else r.choice(tags)
            if C.sq and r.random() < 0.6:
                tag = ANY if r.random() < pw else r.choice(C.sq).tag
            s = r.choice([0, ANY])
            g.do('irecv', g.l(), '%s:%d' % (rb, 4 * nr), 1, -3, s, tag, c, g.nreq())
            nr += 1
        if r.random() < 0.2:
            v = g.live(True)
            if v:
                g.do('wait', g.l(), r.choice(v[-20:]), g.nstat(0.2))
    k = r.random()
    if k < 0.5:
        g.drain()
    else:                                 # all that is complete, in one go
        v = g.live(True)
        r.shuffle(v)
        g.do('waitall', g.l(), len(v), *v, g.nstat(.3, len(v)))
        v = g.live()
        if v:
            g.do('testsome', g.l(), len(v), *v, g.nstat(.3, len(v)))
            g.do('testall', g.l(), len(v), *v, '-')
    g.do('dump', rb)
    g.m.count('deep')
    return g

def c02(r, i, tier):
    if i % 25 == 3:
        return [case(deep(r, tier), variant(r))]
    if i % 150 == 29:
        n = r.choice([1000, 3000, 4500, 9000] + ([20000, 70000] if tier == 'thorough' else []))
        return [Case([['init', r.choice('cf')],
                      ['queue', r.randrange(1 << 30), n, r.choice([1, 2, 10, n // 4, n]), r.randrange(2),
                       r.choice([0, 1, 10, 50]), r.choice([0, 50, 100]), r.choice([0, 1, 2])]], 'plain', 'ok', {}, '',
                     {'queue': 1, 'matched': n, 'ops': n})]
    kw = {} if r.random() < 0.3 else dict(npat=1, kinds=['int', 'double', 'char'])
    return [case(mixed(r, i, tier, MATCH, **kw), variant(r))]

# ---------------------------------------------------------------- C03, C04

REQ = profile(isend=10, irecv=10, send=3, recv=3, irsend=1, procnull=2, test=10, wait=7, rfree=4, burst=.5, comm=1,
              testsome=.5, waitany=.5, waitall=.5, type=.5, tfree=.5)
ARR = profile(isend=10, irecv=10, send=3, recv=3, procnull=1.5, test=1, wait=1, rfree=1, burst=1.5, comm=.5,
              testany=7, waitany=6, testall=7, waitall=5, testsome=6, waitsome=6)

def c03(r, i, tier):
    kw = dict(npat=1, kinds=['int', 'char', 'double']) if r.random() < 0.5 else {}
    return [case(mixed(r, i, tier, REQ, **kw), variant(r))]

def wide(r, tier):
    """array calls over long arrays"""
    g = G(r, arena=False, pats=[('int',)])
    n = r.choice([30, 100, 300] + ([1000, 3000] if tier == 'thorough' or r.random() < .2 else []))
    sb, rb = g.newbuf(4 * n), g.newbuf(4 * n)
    v = []
    for k in range(n):
        x = g.nreq()
        if r.random() < 0.5:
            g.do('irecv', g.l(), '%s:%d' % (rb, 4 * k), 1, -3, 0, k, WORLD, x)
            v.append((x, k, 'r'))
        else:
            g.do('isend', g.l(), '%s:%d' % (sb, 4 * k), 1, -3, 0, k, WORLD, x)
            v.append((x, k, 's'))
    left = list(v)
    r.shuffle(left)
    slots = [x for x, _, _ in v] + [0] * r.choice([0, 1, n // 3])
    if r.random() < .7:
        r.shuffle(slots)
    for _ in range(r.choice([4, 8, 12])):
        for _ in range(r.choice([0, 1, 3, max(1, len(left) // 2), max(0, len(left) - r.choice([0, 0, 1, 2])) if r.random() < .4 else 2])):
            if not left:
                break
            x, k, d = left.pop()
            if g.m._req(x) is None:
                continue
            if d == 'r':
                g.do('send', g.l(), '%s:%d' % (sb, 4 * k), 1, -3, 0, k, WORLD)
            else:
                g.do('recv', g.l(), '%s:%d' % (rb, 4 * k), 1, -3, 0, k, WORLD, g.nstat())
        q = g.okay(slots)
        done = any(x is not None and x.done for x in q) or all(x is None for x in q)
        alld = all(x is None or x.done for x in q)
        what = r.choice(['testsome', 'testany', 'testall', 'testall', 'test'] + (['waitany', 'waitsome'] if done else [])
                        + (['waitall'] * 5 if alld else []))
        if what == 'test':
            g.do('test', g.l(), r.choice(slots), g.nstat())
        else:
            g.do(what, g.l(), len(slots), *slots, g.nstat(.4, max(1, len(slots))))
        if r.random() < .2:
            slots = r.sample(slots, max(1, len(slots) * 2 // 3))
    g.finish(False)
    g.m.count('wide')
    return g

def c04(r, i, tier):
    if i % 20 == 5:
        return [case(wide(r, tier), variant(r))]
    kw = dict(npat=1, kinds=['int', 'char', 'double']) if r.random() < 0.5 else {}
    return [case(mixed(r, i, tier, ARR, **kw), variant(r))]

# ---------------------------------------------------------------- C05, C06

STAT = profile(isend=8, irecv=8, send=4, recv=6, sendrecv=3, procnull=2, wait=6, test=6, waitany=2, testany=2,
               waitall=1.5, testall=1.5, waitsome=1.5, testsome=1.5, iprobe=2, probe=1, getcount=14, type=4, comm=.5,
               burst=.3)
PROBE = profile(isend=10, irecv=5, send=1, recv=2, iprobe=14, probe=7, getcount=4, test=1, comm=2, cfree=.3, type=3,
                burst=.5, procnull=1, rfree=.5)

def c05(r, i, tier):
    if i % 25 == 7:
        try:
            return [case(countless(r), r.choice(['asan', 'plain']))]
        except Quit:
            pass
    if i % 40000 == 8013:
        return [case(bulkcount(r), 'plain')]
    return [case(mixed(r, i, tier, STAT), variant(r))]

def c06(r, i, tier):
    if i % 25 == 7:
        try:
            return [case(countless(r), r.choice(['asan', 'plain']))]
        except Quit:
            pass
    g = mixed(r, i, tier, PROBE)
    cs = [case(g, variant(r))]
    if i % 4 == 0:
        # metamorphic: without the probes everything else must come out the same
        keep = [k for k, op in enumerate(g.ops) if op[0] not in ('iprobe', 'probe')]
        used = {}
        ops = [g.ops[k] for k in keep]
        # drop the count queries of the statuses that probes filled
        filled, out = set(), []
        for op in g.ops:
            if op[0] in ('iprobe', 'probe'):
                if op[-1] != '-':
                    filled.add(op[-1])
                continue
            if op[0] in ('getcount', 'getelem') and op[2] in filled:
                continue
            out.append(op)
        c = Case(out, cs[0].variant, 'ok', {}, 'the same program without its probes', {'ops': len(out)})
        cs.append(c)
    return cs

# ---------------------------------------------------------------- C07, C08

def geom_prog(r, tier):
    g = G(r, arena=False)
    g.cap = r.choice([16, 64, 300, 2000])
    if r.random() < 0.15:
        g.do('csizes', 'c')
    for h in r.sample(range(-47, 0), 6):
        if h not in (-14, -15):
            g.do('geom', g.l(), h)
    for pi in range(len(g.pats)):
        for _ in range(r.choice([2, 3, 5])):
            t = None
            try:
                t = g.new_type(pi, depth=r.choice([1, 2, 2, 3, 3, 4, 5, 7]), ov=r.random() < 0.4, commit=False)
            except Quit:
                continue
            except Invalid:
                return geom_restart(g)
            if g.T(t).n > 20000:
                g.pool[pi].remove(t)
                continue
            g.do('geom', g.l(), t)
            if r.random() < 0.3:
                g.bounds_any(pi, t)
    for _ in range(r.choice([0, 1, 2])):
        # anything anywhere: elements of all sizes over one another
        parts = [x for x in range(-47, 0) if x not in (-14, -15)] + [t for p in g.pool for t in p if g.T(t).n < 200]
        n = r.choice([1, 2, 2, 3, 5])
        w = r.choice([4, 12, 40])
        ts = [r.choice(parts) for _ in range(n)]
        try:
            t = g.mk('struct', g.l(), n, *[r.choice([0, 1, 1, 1, 2]) for _ in ts], *[r.randrange(-w, w) for _ in ts], *ts)
            g.do('geom', g.l(), t)
        except Invalid:
            return geom_restart(g)
    for pi in range(len(g.pats)):
        for t in g.pool[pi]:
            if r.random() < 0.4:
                u = g.mk('tdup', g.l(), t)
                if r.random() < 0.5:
                    g.do('tfree', g.l(), t)
                g.do('geom', g.l(), u)
    return g

def geom_restart(g):
    """the program so far, without the op that could not be done"""
    m = Model(**g.kw)
    for o in g.ops:
        m.apply(o)
    g.m = m
    return g

def bounds_any(self, pi, t):
    """markers anywhere, also on types that already have bounds"""
    r = self.r
    o = self.T(t)
    if o.n == 0:
        return
    n = r.choice([1, 2, 3])
    parts = [(r.choice([0, 1, 1, 2]), r.randrange(-60, 60), t) for _ in range(n)]
    if not any(p[0] for p in parts):
        parts.append((1, 0, t))
    for _ in range(r.choice([1, 1, 2, 3])):
        parts.insert(r.randrange(len(parts) + 1), (r.choice([0, 1, 1, 1, 2]), r.choice([0, r.randrange(-100, 300)]), r.choice([-14, -15])))
    x = self.mk('struct', self.l(), len(parts), *[p[0] for p in parts], *[p[1] for p in parts], *[p[2] for p in parts])
    self.do('geom', self.l(), x)
    y = self.wrap(pi, x, True)
    self.do('geom', self.l(), y)
    self.m.count('markers')
G.bounds_any = bounds_any

def predefined_prog(r):
    g = G(r, arena=False)
    g.do('csizes', 'c')
    hs = [h for h in range(-47, 0) if h not in (-14, -15)]
    for h in hs:
        g.do('geom', g.l(), h)
    for h in hs:
        t = g.mk('contig', g.l(), r.choice([1, 2, 5]), h)
        g.do('geom', g.l(), t)
        t = g.mk('struct', g.l(), 2, 1, 1, 0, r.choice([8, 16, 1, 32]), -1, h)
        g.do('geom', g.l(), t)
        u = g.mk('tdup', g.l(), h)
        g.do('geom', g.l(), u)
    g.m.count('predefined')
    return g

def wide_type(r):
    """many blocks; no data"""
    g = G(r, arena=False, pats=[(r.choice(COMMON),)])
    h = H[g.pats[0][0]]
    for _ in range(3):
        n = r.choice([256, 257, 1000, 10000, 60000])
        w = r.choice(['iblock', 'indexed', 'hindexed', 'struct', 'vector', 'contig', 'hvector'])
        a, s = r.choice([0, 3, -7]), r.choice([1, 2, -2, 5])
        k = g.ksize(g.pats[0][0])
        if w == 'iblock':
            t = g.mk(w, g.l(), n, 1, 'R', a, s, h)
        elif w == 'indexed':
            t = g.mk(w, g.l(), n, 'R', 1, 0, 'R', a, s, h)
        elif w == 'hindexed':
            t = g.mk(w, g.l(), n, 'R', 1, 0, 'R', a * k, s * k, h)
        elif w == 'struct':
            t = g.mk(w, g.l(), n, 'R', 1, 0, 'R', a * k, s * k, 'R', h)
        elif w == 'vector':
            t = g.mk(w, g.l(), n, 1, s, h)
        elif w == 'hvector':
            t = g.mk(w, g.l(), n, 1, s * k, h)
        else:
            t = g.mk(w, g.l(), n, h)
        g.do('geom', g.l(), t)
        u = g.mk(r.choice(['contig', 'tdup']), g.l(), *([2] if False else []), *([]), t) if False else \
            (g.mk('contig', g.l(), 2, t) if r.random() < .5 else g.mk('tdup', g.l(), t))
        g.do('geom', g.l(), u)
    g.m.count('widetype')
    return g

def hugetype(r):
    """a type of more bytes than an int counts"""
    g = G(r, arena=False, pats=[('char',)])
    g.do('cpu', 60)
    k, x = r.choice([('ldouble', 16), ('COMPLEX32', 32), ('COMPLEX16', 16)])
    a = r.choice([4096, 65536, 50000])
    n = 2**31 // (a * x) + r.choice([-1, 0, 1, 5])
    t = g.mk('contig', g.l(), a, H[k])
    if r.random() < .5:
        t = g.mk('vector', g.l(), a, 1, r.choice([1, 2]), H[k])
    u = g.mk('contig', g.l(), n, t)
    g.do('geom', g.l(), u)
    for _ in range(2):
        g.do('packsize', r.choice('cf'), r.choice([1, 2, 3]), u, WORLD)
        g.do('packsize', r.choice('cf'), n + r.choice([-1, 0, 1]), t, WORLD)
    if r.random() < .5:
        g.do('tdup', g.l(), u, 't%d' % g.nt)
        g.do('tfree', g.l(), u)
        g.do('geom', g.l(), 't%d' % g.nt)
    g.m.count('huge type')
    return g

def c07(r, i, tier):
    if i % 30000 in (4007, 19007):
        return [case(hugetype(r), 'plain')]
    if i % 50 == 0:
        return [case(predefined_prog(r), variant(r))]
    if i % 25 == 9:
        return [case(wide_type(r), variant(r))]
    if i % 10 == 3:
        return [case(mixed(r, i, tier, profile(type=10, geom=8, tfree=2, tdup=2, send=1, irecv=1, pack=1)), variant(r))]
    return [case(geom_prog(r, tier), variant(r))]

def family(g, pi, old, n, bl, step, r):
    """constructor expressions for n blocks of bl copies of old, block starts step bytes apart"""
    o = g.T(old)
    e = o.extent
    l = g.l
    out = []
    d = [k * step for k in range(n)]
    whole = e != 0 and step % e == 0
    out.append(('hvector', l(), n, bl, step, old))
    out.append(('chvector', l(), n, bl, step, old))
    out.append(('hindexed', l(), n, *[bl] * n, *d, old))
    out.append(('struct', l(), n, *[bl] * n, *d, *[old] * n))
    if whole:
        s = step // e
        out.append(('vector', l(), n, bl, s, old))
        out.append(('indexed', l(), n, *[bl] * n, *[k * s for k in range(n)], old))
        out.append(('iblock', l(), n, bl, *[k * s for k in range(n)], old))
        if s == bl:
            out.append(('contig', l(), n * bl, old))
            out.append(('vector', l(), 1, n * bl, r.choice([0, 1, 99]), old))
            out.append(('vector', l(), n * bl, 1, 1, old))
    # every element as a block of its own, and blocks split in two
    dd = [k * step + j * e for k in range(n) for j in range(bl)]
    out.append(('hindexed', l(), len(dd), *[1] * len(dd), *dd, old))
    out.append(('struct', l(), len(dd), *[1] * len(dd), *dd, *[old] * len(dd)))
    if bl > 1:
        j = r.randrange(1, bl)
        bb = [x for _ in range(n) for x in (j, bl - j)]
        ee = [x for k in range(n) for x in (k * step, k * step + j * e)]
        out.append(('hindexed', l(), len(bb), *bb, *ee, old))
    # empty blocks in between
    k = r.randrange(n + 1)
    bb, ee = [bl] * n, d[:]
    bb.insert(k, 0)
    ee.insert(k, r.choice([0, -40, 1000]))
    out.append(('hindexed', l(), n + 1, *bb, *ee, old))
    if whole:
        out.append(('indexed', l(), n + 1, *bb, *[x // e if x % e == 0 else 0 for x in ee], old))
    return out

def equiv_prog(r, tier):
    g = G(r, arena=False, npat=1)
    P = len(g.pats[0])
    t = g.leaf(0)
    base = None
    for depth in range(r.choice([1, 1, 2, 2, 3])):
        o = g.T(t)
        n = r.choice([0, 1, 2, 3, 4]) if o.n <= 16 else r.choice([1, 2])
        bl = r.choice([1, 1, 2, 3, 0]) if o.n <= 16 else 1
        lo, hi = g.span(o, 1)
        need = hi - lo
        if abs(o.extent) < need:
            bl = min(bl, 1)
        w = abs(o.extent) * max(0, bl - 1) + need
        e = abs(o.extent) or 1
        step = r.choice([-(-w // e) * e, -(-w // e) * e + e, bl * e if bl * e >= w else -(-w // e) * e, w, w + 4])
        if r.random() < .25:
            step = -step
        fam = family(g, 0, t, n, bl, step, r)
        r.shuffle(fam)
        keep = fam[:r.choice([2, 3, 5, 14])]
        ts = [g.mk(*x) for x in keep]
        # sequential images must agree with the model for each member
        for u in ts:
            g.commit(u)
            if r.random() < 0.3:
                u2 = g.mk('tdup', g.l(), u)
                if r.random() < 0.5:
                    g.do('tfree', g.l(), u)
                u = g.commit(u2)
            g.do('geom', g.l(), u)
            exercise(g, u, r)
            if r.random() < 0.3 and u in g.m.t and g.m.t[u] is not None:
                base = u
        live = [x for x in ts if g.m.t.get(x) is not None]
        if not live:
            break
        old = t
        t = base if base is not None and g.m.t.get(base) is not None and r.random() < .5 else r.choice(live)
        if isinstance(old, str) and old in g.m.t and g.m.t[old] is not None and r.random() < .4:
            g.do('tfree', g.l(), old)
        for x in live:
            if x != t and g.m.t.get(x) is not None and r.random() < 0.5:
                g.do('tfree', g.l(), x)
    return g

def exercise(g, u, r):
    """move data with u"""
    o = g.T(u)
    P = len(g.pats[0])
    n = r.choice([1, 1, 2, 3])
    if o.n == 0:
        n = r.choice([0, 1, 3])
    if o.n * n > 3000:
        n = 1
    reps = o.n * n // P
    how = r.choice(['pack', 'unpack', 'send', 'recv', 'coll'])
    lt = g.commit(g.leaf(0)) if P > 1 and not g.leafs(0) else g.leafs(0)
    if not g.nonov(g.T(lt), max(1, reps)):
        how = 'pack'
    if how == 'pack':
        b = g.newbuf(o.size * n)
        g.do('pack', g.l(), g.alloc(o, n, True), n, u, b, o.size * n, 0, WORLD)
        g.do('dump', b)
    elif how == 'unpack' and g.nonov(o, n):
        b = g.newbuf(o.size * n)
        a = g.alloc(o, n, True)
        g.do('unpack', g.l(), b, o.size * n, 0, a, n, u, WORLD)
        g.do('dump', a.partition(':')[0])
    elif how == 'send':
        a = g.alloc(g.T(lt), reps, True)
        g.do('irecv', g.l(), a, reps, lt, 0, 5, WORLD, g.nreq())
        g.do('send', g.l(), g.alloc(o, n, True), n, u, 0, 5, WORLD)
        g.do('wait', g.l(), 'r%d' % (g.nr - 1), g.nstat(0))
        g.do('getcount', g.l(), 's%d' % (g.ns - 1), u)
        g.do('dump', a.partition(':')[0])
    elif how == 'recv' and g.nonov(o, n):
        a = g.alloc(o, n, True)
        g.do('isend', g.l(), g.alloc(g.T(lt), reps, True), reps, lt, 0, 5, WORLD, g.nreq())
        g.do('recv', g.l(), a, n, u, 0, 5, WORLD, g.nstat(0))
        g.do('wait', g.l(), 'r%d' % (g.nr - 1), '-')
        g.do('dump', a.partition(':')[0])
    elif how == 'coll' and g.nonov(o, n):
        a = g.alloc(o, n, True)
        g.do('allgather', g.l(), g.alloc(g.T(lt), reps, True), reps, lt, a, n, u, WORLD)
        g.do('dump', a.partition(':')[0])

def big_count(r, tier):
    """one very large constructor call, used for a transfer"""
    g = G(r, arena=False, pats=[(r.choice(['int', 'char', 'double', 'short']),)])
    h = H[g.pats[0][0]]
    k = g.ksize(g.pats[0][0])
    n = r.choice([50000, 131072, 300000, 600000])
    if n * k > 2000000:
        n = 200000
    w = r.choice(['iblock', 'indexed', 'hindexed', 'struct', 'vector', 'contig', 'hvector'])
    e = min(n, r.choice([1, 1, 3, 150, 5000, n]))      # elements per block
    n -= n % e
    c = n // e
    s = e * r.choice([1, 1, 2])
    if w == 'iblock':
        t = g.mk(w, g.l(), c, e, 'R', 0, s, h)
    elif w == 'indexed':
        t = g.mk(w, g.l(), c, 'R', e, 0, 'R', 0, s, h)
    elif w == 'hindexed':
        t = g.mk(w, g.l(), c, 'R', e, 0, 'R', 0, s * k, h)
    elif w == 'struct':
        t = g.mk(w, g.l(), c, 'R', e, 0, 'R', 0, s * k, 'R', h)
    elif w == 'vector':
        t = g.mk(w, g.l(), c, e, s, h)
    elif w == 'hvector':
        t = g.mk(w, g.l(), c, e, s * k, h)
    else:
        t = g.mk(w, g.l(), n, h)
    g.commit(t)
    g.do('geom', g.l(), t)
    b = g.newbuf(n * k)
    g.do('pack', g.l(), g.alloc(g.T(t), 1, True), 1, t, b, n * k, 0, WORLD)
    g.do('dump', b)
    a = g.alloc(g.T(t), 1, True)
    g.do('isend', g.l(), b, n, h, 0, 3, WORLD, 'r0')
    g.do('recv', g.l(), a, 1, t, 0, 3, WORLD, 's0')
    g.do('dump', a.partition(':')[0])
    u = g.mk('tdup', g.l(), t)
    g.do('tfree', g.l(), t)
    g.do('geom', g.l(), u)
    if r.random() < .7:
        g.do('unpack', g.l(), b, n * k, 0, a, 1, u, WORLD)
        g.do('dump', a.partition(':')[0])
    g.do('tfree', g.l(), u)
    g.m.count('bigcount')
    return g

def c08(r, i, tier):
    if i % 150 == 11:
        return [case(big_count(r, tier), r.choice(['asan', 'plain']))]
    if i % 6 == 1:
        return [case(mixed(r, i, tier, profile(type=10, tfree=5, tdup=4, isend=4, irecv=4, send=2, recv=2, pack=3,
                                               coll=1, geom=2)), variant(r))]
    return [case(equiv_prog(r, tier), variant(r))]

# ---------------------------------------------------------------- C09

PACK = profile(pack=10, type=3, tdup=.5, tfree=.5, isend=1, recv=1, comm=.3)

def overflow(g, r):
    """a pack or unpack past the end; None if the dice did not give one"""
    t, n = g.pick(r.randrange(len(g.pats)), True)
    o = g.T(t)
    tot = o.size * n
    if tot == 0:
        return None
    pos = r.choice([0, 0, 3, 17])
    room = pos + tot - r.choice([1, 1, 2, tot])
    if room < pos:
        room = pos
    b = g.newbuf(room)
    a = g.alloc(o, n)
    if r.random() < .5:
        return ['pack', g.l(), a, n, t, b, room, pos, WORLD]
    return ['unpack', g.l(), b, room, pos, a, n, t, WORLD]

def edge(r):
    """packing at the far end of a buffer of almost 2 GiB"""
    g = G(r, arena=False)
    size = 2**31 - r.choice([1, 1, 2, 9, 4000])
    bg = 'b%d' % g.nb
    g.nb += 1
    g.do('big', bg, size)
    t, n = g.pick(r.randrange(len(g.pats)), True)
    o = g.T(t)
    tot = o.size * n
    if tot == 0 or not g.nonov(o, n):
        raise Quit('empty')
    short = r.choice([0, 0, 0, 1, 1, 3, tot])
    pos = size - tot + min(short, tot)
    a = g.alloc(o, n, True)
    if not short:
        if r.random() < .6:
            g.do('pack', g.l(), a, n, t, bg, size, pos, WORLD)
        else:
            for x in range(pos, size, 512):
                g.do('fill', bg, x, min(512, size - x), r.randrange(1 << 30))
        for x in range(pos - 16, size, 256):
            g.do('dumpw', bg, x, min(256, size - x))
        b = g.alloc(o, n, True)
        g.do('unpack', g.l(), bg, size, pos, b, n, t, WORLD)
        g.m.count('edge')
        g.finish()
        return case(g, variant(r))
    return misuse(g, ['pack', g.l(), a, n, t, bg, size, pos, WORLD] if r.random() < .5 else
                  ['unpack', g.l(), bg, size, pos, a, n, t, WORLD])

def c09(r, i, tier):
    if i % 25 == 13:
        try:
            return [edge(r)]
        except (Quit, Invalid):
            pass
    g = G(r)
    if i % 12 == 9:              # few calls, large counts
        g.reps = r.choice([50, 128, 256, 1000, 1024, 4097, 16384, 32768, 65537])
        g.most = 400000
        g.run(r.choice([1, 2]), PACK).finish(final=False)
        g.m.count('largecounts')
        return [case(g, variant(r))]
    g.run(r.choice([1, 2, 4, 8]), PACK)
    if i % 5 == 2:
        op = overflow(g, r)
        if op:
            return [misuse(g, op)]
    g.finish()
    return [case(g, variant(r))]

def misuse(g, op, mode='misuse', variant='asan', note=''):
    st = dict(g.m.stats)
    try:
        g.m.apply(op)
    except Misuse as e:
        g.ops.append(op)
        g.exp.append(None)
        c = Case(list(g.ops), variant, mode, dict(g.kw), note or str(e), dict(st, misuse=1, ops=len(g.ops)))
        c.stats['why ' + str(e)] = 1
        if mode == 'abort':
            c.code = op[3]
        c.exp = list(g.exp)
        return c
    raise Skip('not a misuse')

# ---------------------------------------------------------------- C10, C11

COLL = profile(coll=12, type=3, comm=1.5, cart=.2, tdup=.3, tfree=.3, env=.3)
INPL = profile(inplace=14, coll=3, type=2, comm=1.5)

def c10(r, i, tier):
    g = mixed(r, i, tier, COLL, 0.1)
    return [case(g, variant(r))]

def c11(r, i, tier):
    g = mixed(r, i, tier, INPL, 0.1)
    return [case(g, variant(r))]

# ---------------------------------------------------------------- C12, C13

COMMS = profile(comm=14, cfree=7, isend=8, irecv=8, send=2, recv=3, iprobe=3, test=2, wait=2, testsome=.5, group=.7,
                coll=.5, burst=.5)
GROUPS = profile(group=20, comm=1, cfree=.5, isend=.3, irecv=.3)

def many_comms(r, tier):
    """messages with the same tag pending on many communicators at once"""
    g = G(r, arena=False, pats=[('int',)])
    n = r.choice([5, 20, 60, 300])
    cs = [WORLD]
    sb, rb = g.newbuf(4 * (n + 1)), g.newbuf(4 * (n + 1))
    for k in range(n):
        cs.append(g.newcomm(0))
    free = []
    order = cs[:]
    r.shuffle(order)
    pend = {}
    for k, c in enumerate(order):
        if r.random() < 0.5:
            g.do('isend', g.l(), '%s:%d' % (sb, 4 * k), 1, -3, 0, 5, c, g.nreq())
            pend[c] = ('s', k)
        elif r.random() < .7:
            g.do('irecv', g.l(), '%s:%d' % (rb, 4 * k), 1, -3, 0, 5, c, g.nreq())
            pend[c] = ('r', k)
    for c in order:
        if c not in pend and c != WORLD and r.random() < .6:
            g.do('cfree', g.l(), c)
            g.comms.remove(c)
            if r.random() < .7:
                g.newcomm(0)
    r.shuffle(order)
    for c in order:
        if c in pend:
            d, k = pend[c]
            g.do('iprobe', g.l(), 0, ANY, c, g.nstat())
            if d == 's':
                g.do('recv', g.l(), '%s:%d' % (rb, 4 * k), 1, -3, 0, ANY, c, g.nstat())
            else:
                g.do('send', g.l(), '%s:%d' % (sb, 4 * k), 1, -3, 0, 5, c)
            if c != WORLD and r.random() < .5:
                g.do('cfree', g.l(), c)
                g.comms.remove(c)
                if r.random() < .4:
                    x = g.newcomm(0)
                    g.do('iprobe', g.l(), ANY, ANY, x, g.nstat())
    g.finish()
    g.m.count('manycomms')
    return g

def c12(r, i, tier):
    if i % 25 == 4:
        return [case(many_comms(r, tier), variant(r))]
    if i % 25 == 9:
        return [forsaken(r, i, tier)]
    kw = dict(npat=1, kinds=['int', 'char']) if r.random() < 0.7 else {}
    return [case(mixed(r, i, tier, COMMS, 0.1, **kw), variant(r))]

def forsaken(r, i, tier):
    """communicators freed with operations pending: a warning, and nothing else is disturbed"""
    g = G(r, npat=1, kinds=['int', 'char'])
    g.run(length(r, tier, 5, 40), COMMS)
    g.drain()
    buf = g.newbuf(64)
    rs = []
    for k in range(r.choice([1, 2, 4])):
        c = 'c%d' % (1000 + k)
        g.do('cdup', g.l(), WORLD, c)
        send = r.randrange(2)
        for j in range(r.choice([1, 2, 5, 30])):
            q = g.nreq()
            if send:
                g.do('isend', g.l(), '%s:%d' % (buf, j), 1, -1, 0, j % 3, c, q)
            else:
                g.do('irecv', g.l(), '%s:%d' % (buf, j), 1, -1, 0, j % 3, c, q)
            rs.append(q)
        g.m.allow_warn = True
        g.do('cfree', g.l(), c)
        g.m.allow_warn = False
        # the others go on
        a, b = g.nreq(), g.nreq()
        g.do('isend', g.l(), '%s:%d' % (buf, 0), 4, -1, 0, 5, WORLD, a)
        g.do('irecv', g.l(), '%s:%d' % (buf, 32), 4, -1, 0, 5, WORLD, b)
        g.do('waitall', g.l(), 2, a, b, g.nstat(0, 2))
        if r.random() < .5:
            g.do('test', g.l(), r.choice(rs), g.nstat(.2))
        g.m.count('forsaken')
    g.do('dump', buf)
    c = case(g, variant(r), 'warn')
    c.kw['allow_warn'] = True
    return c

def c13(r, i, tier):
    g = mixed(r, i, tier, GROUPS, 0.05, npat=1, kinds=['int'])
    return [case(g, variant(r))]

# ---------------------------------------------------------------- C14

def swarm(r, tier):
    n = r.choice([100, 127, 128, 129, 254, 255, 256, 257, 300, 512, 1000, 4096])
    if r.random() < .04:
        n = r.choice([32767, 32769, 65535, 65536, 65537, 66000])
    return Case([['init', r.choice('cf')],
                 ['queue', r.randrange(1 << 30), n, r.choice([1, 2, 10, n]), r.randrange(2),
                  r.choice([0, 1, 10, 50]), r.choice([0, 50, 100]), r.choice([1, 2, 2])]],
                r.choice(['plain', 'asan', 'asan']), 'ok', {}, '', {'swarm': 1, 'scale': 1, 'bytes': 4, 'ops': 2})

def c14(r, i, tier):
    if i % 3 == 0:
        # ordinary programs on a table that is far beyond one block
        g = G(r, arena=False, pats=[('int',)])
        g.prelude(r.choice([200, 255, 256, 257, 300, 520, 800]))
        w = DEFAULT if r.random() < .5 else profile(isend=8, irecv=8, burst=6, comm=3, cfree=2, type=5, tfree=3, test=3,
                                                    wait=3, rfree=1, testsome=1, recv=3, send=3)
        g.run(length(r, tier, 20, 80), w).finish()
        return [case(g, variant(r))]
    if i % 24 == 1:              # one datatype in use by many pending messages
        return [swarm(r, tier)]
    if tier == 'quick':
        tgt = r.choice([100, 254, 256, 257, 258, 300, 511, 512, 513, 1000, 3000, 8000])
        if i % 97 == 1:
            tgt = r.choice([66000, 131500, 250000])
    else:
        tgt = r.choice([254, 256, 257, 511, 513, 1000, 3000, 20000, 66000])
        if i % 37 == 1:
            tgt = r.choice([131500, 200000, 250000])
    ops = [['init', r.choice('cf')],
           ['scale', r.randrange(1 << 30), tgt, min(tgt, 20000), r.choice([1, 2, 3]) if tgt < 60000 else 1,
            r.choice([0, 50, 100])]]
    if tgt < 20000 and r.random() < .5:
        ops.append(['scale', r.randrange(1 << 30), r.choice([100, 600]), 300, 2, 50])
    c = Case(ops, 'plain' if tgt > 9000 else r.choice(['plain', 'asan']), 'ok', {}, '', {'scale': 1, 'ops': 2})
    c.stats['live_%s' % ('over_64k' if tgt > 65536 else 'over_256' if tgt > 256 else 'up_to_256')] = 1
    return [c]

# ---------------------------------------------------------------- C15

def marathon(r, tier):
    n = r.choice([2200000, 3100000]) if tier == 'quick' else r.choice([3000000, 17000000, 70000000])
    return Case([['init', r.choice('cf')], ['cpu', 250], ['capacity', 0], ['marathon', r.randrange(1 << 30), n, r.choice([0, 0, 50])],
                 ['capacity', 1], ['finalize', 'c']], 'plain', 'ok', {}, '', {'marathon': 1, 'repeated_ops': n, 'ops': 5})

def c15(r, i, tier):
    if i % 500 == 17:
        return [marathon(r, tier)]
    g = G(r, arena=False)
    if r.random() < .3:
        g.prelude(r.choice([5, 20]))
    k0 = len(g.ops)
    reps = r.choice([400, 700]) if tier == 'quick' else r.choice([400, 1000, 3000])
    crowd = i % 16 == 5 and i % 75 != 11         # whole populations of handles come and go
    many = i % 75 == 11          # one or two kinds of object, very many times
    if crowd:
        reps = 30
    if many:
        reps = 45000 if tier == 'quick' else r.choice([45000, 150000, 400000])
    cap = r.random() < .12
    if cap:
        g.do('capacity', 0)
    g.do('rep', 20, reps, reps)
    b0 = len(g.ops)
    if crowd:
        g.prelude(r.choice([300, 700, 1200, 2000]))
        g.m.count('crowd')
    w = dict(DEFAULT)
    w['dump'] = w['burst'] = 0
    if r.random() < .4:
        for k in r.sample(list(w), len(w) // 2):
            w[k] = 0
        w['isend'] = w['irecv'] = 5
    if many:
        k = r.choice(['comm', 'comm', 'group', 'type', 'isend', 'irecv', 'send', 'sendrecv', 'irsend', 'coll', 'inplace',
                      'pack', 'procnull', 'cart', 'tdup', 'env', 'opcreate'])
        k = [k] if k in w else ['comm']
        w = {x: 0 for x in w}
        for x in k + (['isend', 'irecv'] if r.random() < .3 else []):
            w[x] = 1
        g.reps = min(g.reps, 4)
        g.run(r.choice([1, 1, 2, 3]), w)
        g.m.count('very_many')
    else:
        g.run(r.choice([2, 5, 10, 20]), w)
    for st in (1, 2):
        g.drain()
    g.free_all()
    for o in getattr(g, 'opslots', []):
        if g.m.o.get(o):
            g.do('opfree', g.l(), o)
    g.opslots = []
    body = g.ops[b0:]
    g.do('endrep')
    n = len(g.ops) - k0
    reps = min(reps, max(1000, 800000 // n))
    g.ops[k0 + cap] = ['rep', 20, reps, reps]
    for op in body:              # once more, now with every result compared
        g.do(*op)
    if cap:
        g.do('capacity', 1)
        g.m.count('capacity')
    g.pool = [[] for _ in g.pats]
    # the library still works
    if r.random() < .5:
        g.bufs = dict(g.bufs)
        g.run(8, DEFAULT).finish()
    c = case(g, 'plain' if many else r.choice(['asan', 'plain', 'plain']), 'rep')
    c.stats['repeated_ops'] = n * (2 * reps + 20)
    return [c]

# ---------------------------------------------------------------- C16

ONLY_C = {'initargs', 'errh', 'cconv', 'rconv', 'gconv', 'oconv', 'csizes', 'opcalls', 'wtime'}
NO_LANG = {'cpu', 'oom', 'buf', 'unbuf', 'big', 'fill', 'dump', 'dumpw', 'stray', 'mem', 'rep', 'endrep', 'scale', 'queue', 'capacity', 'marathon'}

def relang(ops, f):
    out = []
    for op in ops:
        op = list(op)
        if op[0] not in NO_LANG and op[0] not in ONLY_C:
            op[1] = f()
        out.append(op)
    return out

def c16(r, i, tier):
    w = DEFAULT
    k = r.random()
    if k < .4:
        w = {x: (v + .5 if x not in ('dump', 'burst') else .2) * r.choice([0, 1, 1, 3]) for x, v in DEFAULT.items()}
        w['isend'] = w['irecv'] = w['type'] = 6
    g = G(r, fort=1)
    g.run(length(r, tier), w).finish()
    if r.random() < .3:
        g = env_ops(g, r, 3)
    cs = [case(g, variant(r), note='all Fortran')]
    for f, note in ((lambda: 'c', 'all C'), (lambda: r.choice('cf'), 'mixed'),
                    (lambda: 'f' if r.random() < .85 else 'c', 'mostly Fortran')):
        ops = relang(g.ops, f)
        if note == 'all C' and r.random() < .7:
            continue
        if ops == g.ops:
            continue
        st = dict(cs[0].stats)
        c = Case(ops, variant(r), 'ok', dict(g.kw), note, st)
        cs.append(c)
    return cs

# ---------------------------------------------------------------- C17

def c17(r, i, tier):
    g = G(r)
    n = r.choice([0, 3, 10, 25])
    g.run(n, DEFAULT)
    g.m.count('prefix', len(g.ops))
    for _ in range(30):
        try:
            op = wrong(g, r)
        except Quit:
            continue
        if op is None:
            continue
        mode = 'abort' if op[0] == 'abort' else 'misuse'
        return [misuse(g, op, mode, r.choice(['asan', 'plain@170', 'plain']))]
    g.finish()
    return [case(g)]

MIS = ['send', 'sendrecv1', 'sendrecv2', 'irsend', 'recv', 'probe', 'wait', 'waitall', 'waitany', 'waitsome', 'dest', 'source',
       'root', 'uncommitted_send', 'uncommitted_recv', 'uncommitted_coll', 'pack', 'pack', 'nullgroup', 'incl', 'range',
       'dims', 'cart', 'coords', 'trans', 'abort', 'abort', 'psource']

def wrong(g, r):
    l = g.l()
    k = r.choice(MIS)
    c = g.comm()
    C = g.m.C(c)
    if k in ('send', 'irsend'):
        a = g.sendargs(c)
        if any(q.tag in (ANY, a[4]) for q in C.rq):
            return None
        what = r.choice(['send', 'ssend', 'rsend']) if k == 'send' else 'irsend'
        return [what, l, *a] + ([g.nreq()] if what == 'irsend' else [])
    if k == 'recv':
        a = g.recvargs(c)
        if any(a[4] in (ANY, q.tag) for q in C.sq):
            return None
        return ['recv', l, *a, g.nstat()]
    if k == 'probe':
        tag = ANY if r.random() < .4 else g.tag()
        if any(tag in (ANY, q.tag) for q in C.sq):
            return None
        return ['probe', l, r.choice([0, ANY]), tag, c, g.nstat()]
    if k in ('sendrecv1', 'sendrecv2'):
        tag, rtag = g.tag(), g.tag()
        s, v = g.sendargs(c, tag, g.reps), g.recvargs(c, rtag, g.reps)
        if k == 'sendrecv1':
            s[3] = PROC_NULL
        elif r.random() < .4:
            v[3] = PROC_NULL
        op = ['sendrecv', l, *s[:5], *v[:5], c, g.nstat()]
        rm = any(rtag in (ANY, q.tag) for q in C.sq) or v[3] == PROC_NULL
        sm = s[3] == PROC_NULL or any(q.tag in (ANY, tag) for q in C.rq)
        if rm and sm:
            return None
        if not rm and s[3] != PROC_NULL and (sm or rtag == tag):
            return None
        return op
    pend = g.live(False)
    if k == 'wait':
        return ['wait', l, r.choice(pend), g.nstat()] if pend else None
    if k in ('waitany', 'waitsome', 'waitall'):
        if not pend:
            return None
        v = r.sample(pend, min(len(pend), r.choice([1, 2, 5])))
        if k == 'waitall':
            d = g.live(True)
            v += r.sample(d, min(len(d), r.choice([0, 1, 3])))
        v += [0] * r.choice([0, 1, 2])
        r.shuffle(v)
        return [k, l, len(v), *v, g.nstat(.3, len(v))]
    bad = r.choice([1, 2, 5, 1000, -4, -100, 2**31 - 1, -2**31])
    if k == 'dest':
        a = g.sendargs(c)
        a[3] = r.choice([bad, bad, ANY, ROOT])
        what = r.choice(['send', 'ssend', 'rsend', 'isend', 'irsend'])
        return [what, l, *a] + ([g.nreq()] if what[0] == 'i' else [])
    if k == 'source':
        a = g.recvargs(c)
        a[3] = r.choice([bad, bad, ROOT])
        return ['irecv', l, *a, g.nreq()] if r.random() < .5 else ['recv', l, *a, g.nstat()]
    if k == 'psource':
        return [r.choice(['probe', 'iprobe']), l, r.choice([bad, ROOT]), r.choice([ANY, g.tag()]), c, g.nstat()]
    t, n, u, m = g.collpair()
    if k == 'root':
        s, v = g.alloc(g.T(t), n), g.alloc(g.T(u), m)
        b = r.choice([bad, bad, -1, -2])
        what = r.choice(['gather', 'gatherv', 'scatter', 'scatterv', 'bcast', 'reduce'])
        if r.random() < .25:                 # in place
            if what == 'reduce':
                return [what, l, '@inplace', s, n, t, 0, b, c]
            if what != 'bcast':
                s, v = ('@inplace', v) if what[0] == 'g' else (s, '@inplace')
        if what in ('gather', 'scatter'):
            return [what, l, s, n, t, v, m, u, b, c]
        if what == 'gatherv':
            return [what, l, s, n, t, v, m, 0, u, b, c]
        if what == 'scatterv':
            return [what, l, s, n, 0, t, v, m, u, b, c]
        if what == 'bcast':
            return [what, l, s, n, t, b, c]
        return [what, l, s, g.alloc(g.T(t), n), n, t, 0, b, c] if g.nonov(g.T(t), n) else None
    if k.startswith('uncommitted'):
        pi = r.randrange(len(g.pats))
        w = r.random()
        if w < .3:
            t = g.mk('contig', g.l(), r.choice([1, 1, 2]), g.leafs(pi) or g.leaf(pi))
        elif w < .6:
            t = g.new_type(pi, commit=False)
            g.pool[pi].remove(t)
        else:                                # of committed ones, itself not
            t = g.wrap(pi, g.commit(g.new_type(pi)))
        if isinstance(t, int) or g.T(t).committed:
            return None
        for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
            t = g.mk('tdup', g.l(), t)
        o = g.T(t)
        if not o.n or not g.nonov(o, 2):
            return None
        y = g.commit(g.leafs(pi) or g.leaf(pi))
        per = g.T(y).n
        cnt = r.choice([1, 1, 2])
        if cnt * o.n % per:
            cnt *= per
        yc = cnt * o.n // per
        if not g.nonov(o, cnt):
            return None
        s = g.newcomm(pi, ['cdup'])
        a, b = g.alloc(o, cnt), g.alloc(g.T(y), yc)
        if k == 'uncommitted_coll':
            pair = [a, cnt, t, b, yc, y] if r.random() < .5 else [b, yc, y, a, cnt, t]
            what = r.choice(['allgather', 'alltoall', 'gather', 'scatter', 'gatherv', 'scatterv', 'allgatherv',
                             'alltoallv', 'alltoallw', 'reduce', 'allreduce', 'redscat', 'scan'])
            if what in ('reduce', 'allreduce', 'redscat', 'scan'):
                root = [0] if what == 'reduce' else []
                return [what, l, a, g.alloc(o, cnt), cnt, t, g.redop(), *root, s]
            p, n, u, q, m, v = pair
            root = [] if what.startswith('all') else [0]
            return [what, l, p, n, *[0] * (what in ('scatterv', 'alltoallv', 'alltoallw')), u,
                    q, m, *[0] * (what in ('gatherv', 'allgatherv', 'alltoallv', 'alltoallw')), v, *root, s]
        if k == 'uncommitted_send':
            snd, rcv = [a, cnt, t, 0, 5, s], [b, yc, y, 0, 5, s]
        else:
            snd, rcv = [b, yc, y, 0, 5, s], [a, cnt, t, 0, 5, s]
        if r.random() < .5:
            g.do('irecv', g.l(), *rcv, g.nreq())
            return ['send', l, *snd] if r.random() < .5 else ['isend', l, *snd, g.nreq()]
        g.do('isend', g.l(), *snd, g.nreq())
        return ['recv', l, *rcv, g.nstat()] if r.random() < .5 else ['irecv', l, *rcv, g.nreq()]
    if k == 'pack':
        return overflow(g, r)
    if k == 'nullgroup':
        a, b = r.choice([(0, 0), (0, g.grp()), (g.grp(), 0), (0, -1), (-1, 0)])
        what = r.choice(['gunion', 'ginter', 'gdiff', 'gtrans', 'gincl', 'grange'])
        if what == 'gtrans':
            return [what, l, a, 0, b] if a == 0 or b == 0 else None
        if what == 'gincl':
            return [what, l, 0, r.choice([0, 1]), *([0] if False else []), 'g999'] if False else [what, l, 0, 0, 'g999']
        if what == 'grange':
            return [what, l, 0, 0, 'g999']
        return [what, l, a, b, 'g999']
    if k == 'incl':
        x = g.one_group()
        v = r.choice([[0, 0], [1], [0, 1], [0, 0, 0], [-1], [5], [2**31 - 1]])
        return ['gincl', l, x, len(v), *v, 'g999']
    if k == 'range':
        x = g.one_group()
        v = r.choice([[0, 1, 1], [1, 1, 1], [0, 0, 1, 0, 0, 1], [1, 0, -1], [0, 5, 2]])
        return ['grange', l, x, len(v) // 3, *v, 'g999']
    if k == 'dims':
        nd = r.choice([1, 2, 3])
        return ['dims', l, r.choice([2, 3, 100]), nd, nd, *[0] * nd]
    if k == 'cart':
        nd = r.choice([1, 2, 3, 5, 30, 600])
        d = [r.choice([1, 1, 0, -1]) for _ in range(nd)]
        d[r.randrange(nd)] = r.choice([2, 7, 1000])
        return ['cartcreate', l, c, nd, *d, *[0] * nd, 0, 'c999']
    if k == 'coords':
        nd = r.choice([0, 1, 2])
        return ['cartcoords', l, c, r.choice([1, -1, 5]), nd, nd]
    if k == 'trans':
        x = g.one_group()
        n = r.choice([1, 2, 4, 30, 1200])
        v = [0] * n
        v[r.randrange(n)] = r.choice([1, -1, 3])
        if r.random() < .3:
            return ['gtrans', l, -1, n, *[0] * n, x]
        return ['gtrans', l, x, n, *v, r.choice([x, -1])]
    if k == 'abort':
        return ['abort', l, c, r.randrange(1, 256)]

# ---------------------------------------------------------------- C18

def far(r, tier):
    """data spread over a mapping of several gigabytes"""
    g = G(r, arena=False, pats=[(r.choice(['int', 'char', 'double', 'short', 'long', 'INTEGER8']),)])
    kind = g.pats[0][0]
    h, k = H[kind], g.ksize(kind)
    GB = 1 << 30
    S = r.choice([3, 5, 9, 14]) * GB
    bg = 'b%d' % g.nb
    g.nb += 1
    g.do('big', bg, S)
    center = r.choice([0, 0, S // 2 // 64 * 64, (S - 4096) // 64 * 64])
    wins = []
    def room(off, n):
        if off < 0 or off + n > S:
            raise Quit('room')
    def disp():
        """a displacement around center, aligned"""
        d = r.choice([0, 8, 4096, 2**31 - 16, 2**31, 2**31 + 8, 2**32 - 8, 2**32, 2**32 + 64, 3 * GB - 8192,
                      r.randrange(0, S // 2)])
        d = d // 16 * 16 * r.choice([1, 1, -1])
        room(center + d, 64)
        return d
    def bigtype():
        w = r.choice(['hindexed', 'hindexed', 'struct', 'hvector', 'chvector', 'vector', 'indexed', 'iblock', 'nested'])
        n = r.choice([1, 2, 3, 4])
        if w in ('hindexed', 'struct', 'indexed', 'iblock'):
            d = []
            for _ in range(n):
                for _ in range(20):
                    try:
                        x = disp()
                    except Quit:
                        continue
                    if all(abs(x - y) >= 64 for y in d):
                        d.append(x)
                        break
            n = len(d)
            bl = [r.choice([1, 1, 2, 3]) for _ in d]
            if w == 'iblock':
                bl = [bl[0] if bl else 1] * n
            if w == 'hindexed':
                return g.mk(w, g.l(), n, *bl, *d, h)
            if w == 'struct':
                return g.mk(w, g.l(), n, *bl, *d, *[h] * n)
            e = [x // k for x in d]
            if any(abs(x) >= 2**31 for x in e):
                raise Quit('int')
            if w == 'indexed':
                return g.mk(w, g.l(), n, *bl, *e, h)
            return g.mk(w, g.l(), n, bl[0] if bl else 1, *e, h)
        st = r.choice([2**30, 2**31 - 8, 2**31, 2**32 + 8, S // (n + 1)]) // 8 * 8 * r.choice([1, 1, -1])
        if w in ('hvector', 'chvector'):
            return g.mk(w, g.l(), n, r.choice([1, 2]), st, h)
        if w == 'vector':
            st //= k
            if abs(st) >= 2**31:
                raise Quit('int')
            return g.mk(w, g.l(), n, r.choice([1, 2]), st, h)
        e = r.choice([2**31 + 64, GB, GB + 8])
        a = g.mk('struct', g.l(), 2, 1, 1, 0, e, h, -15)
        if r.random() < .5:
            return g.mk('contig', g.l(), r.choice([1, 2, 3]), a)
        if r.random() < .5:
            return g.mk('indexed', g.l(), 2, 1, 1, 0, r.choice([2, 3, -1]), a)
        return g.commit(a)
    def place(t, n):
        """a buffer argument inside the mapping; its windows"""
        lo, hi = g.span(g.T(t), n)
        at = center
        if at + lo < 0 or at + hi > S:
            at = -lo
        room(at + lo, hi - lo)
        addr = g.m.expand(at, n, g.T(t))
        ws = {}
        for x in sorted(set((addr // 64 * 64).tolist())):
            ws[x] = 1
        return '%s:%d' % (bg, at), at, sorted(ws)
    nops = r.choice([1, 2, 3])
    seen = []
    for _ in range(nops):
        t = bigtype()
        o = g.T(t)
        g.commit(t)
        g.do('geom', g.l(), t)
        if o.n == 0 or not g.nonov(o, 1):
            continue
        n = r.choice([1, 1, 2])
        lo, hi = g.span(o, n)
        if hi - lo > S or not g.nonov(o, n):
            n = 1
        a, at, ws = place(t, n)
        seen += ws
        seen = sorted(set(seen))
        tot = o.n * n
        sm = g.newbuf(tot * k)
        how = r.choice(['pack', 'unpack', 'send', 'recv', 'both', 'coll', 'colldisp', 'gv', 'w'])
        if how in ('pack', 'send'):
            for x in ws:
                g.do('fill', bg, x, min(64, S - x), r.randrange(1 << 30))
        if how == 'pack':
            g.do('pack', g.l(), a, n, t, sm, tot * k, 0, WORLD)
            g.do('dump', sm)
        elif how == 'unpack':
            g.do('unpack', g.l(), sm, tot * k, 0, a, n, t, WORLD)
        elif how == 'send':
            if r.random() < .5:
                g.do('isend', g.l(), a, n, t, 0, 4, WORLD, g.nreq())
                g.do('recv', g.l(), sm, tot, h, 0, 4, WORLD, g.nstat())
            else:
                g.do('irecv', g.l(), sm, tot, h, 0, 4, WORLD, g.nreq())
                g.do('send', g.l(), a, n, t, 0, 4, WORLD)
            g.do('dump', sm)
        elif how in ('recv', 'both'):
            if r.random() < .5:
                g.do('isend', g.l(), sm, tot, h, 0, 4, WORLD, g.nreq())
                g.do('recv', g.l(), a, n, t, 0, 4, WORLD, g.nstat())
            else:
                g.do('irecv', g.l(), a, n, t, 0, 4, WORLD, g.nreq())
                g.do('send', g.l(), sm, tot, h, 0, 4, WORLD)
        elif how == 'coll':
            g.do(r.choice(['allgather', 'alltoall']), g.l(), sm, tot, h, a, n, t, WORLD)
        elif how in ('colldisp', 'gv') and o.extent:
            # displacement in units of a large extent
            d = r.choice([1, 2, 3, -1, -2]) if r.random() < .6 else distant(r, o)
            off = at - d * o.extent
            # the nominal address need not lie in the mapping, only what it selects
            aa = '%s:%d' % (bg, off)
            if how == 'gv':
                g.do('gatherv', g.l(), sm, tot, h, aa, n, d, t, 0, WORLD)
            else:
                g.do(r.choice(['allgatherv']), g.l(), sm, tot, h, aa, n, d, t, WORLD)
        elif how == 'w' and o.extent:
            d = r.choice([1, 2, -1]) if r.random() < .6 else distant(r, o)
            off = at - d * o.extent
            for x in ws:
                g.do('fill', bg, x, min(64, S - x), r.randrange(1 << 30))
            aa = '%s:%d' % (bg, off)
            if r.random() < .5:
                g.do('alltoallv', g.l(), aa, n, d, t, sm, tot, 0, h, WORLD)
            else:
                g.do('scatterv', g.l(), aa, n, d, t, sm, tot, h, 0, WORLD)
            g.do('dump', sm)
        for x in ws[:40]:
            g.do('dumpw', bg, x, min(64, S - x))
        g.m.count('far')
    g.do('stray', bg, len(seen), *[v for x in seen for v in (x, 64)])
    g.do('dumpw', bg, 0, 64)
    return g

def distant(r, o):
    """a displacement of very many items"""
    d = r.choice([1, -1]) * r.choice([11, 101, 1001, 4097, 65537, 10**6 + 1, 2**27 + 1, 2**31 - 1])
    while abs(d * o.extent) > 2**46:
        d //= 16
    return d or 1

def farcount(r):
    """count * extent beyond 2**31 with an ordinary type"""
    g = G(r, arena=False, pats=[('int',)])
    S = 9 << 30
    bg = 'b%d' % g.nb
    g.nb += 1
    g.do('big', bg, S)
    e = r.choice([1 << 20, (1 << 20) + 4, 3 << 18])
    t = g.mk('struct', g.l(), 2, 1, 1, 0, e, -3, -15)
    g.commit(t)
    n = r.choice([2049, 4100, 4200, 8000])
    n = min(n, (S - 64) // e)
    sm = g.newbuf(4 * n)
    if r.random() < .6:
        if r.random() < .5:
            g.do('irecv', g.l(), bg, n, t, 0, 4, WORLD, g.nreq())
            g.do('send', g.l(), sm, n, -3, 0, 4, WORLD)
        else:
            g.do('unpack', g.l(), sm, 4 * n, 0, bg, n, t, WORLD)
    else:
        g.do('allgather', g.l(), sm, n, -3, bg, n, t, WORLD)
    for k in sorted(set([0, 1, n // 2, 2047, 2048, n - 2, n - 1])):
        if k < n:
            g.do('dumpw', bg, k * e, 64)
    ws = [v for k in range(n) for v in (k * e, 4)]
    if n < 2100:
        g.do('stray', bg, n, *ws)
    # and back, element by element, into a dense buffer
    b2 = g.newbuf(4 * n)
    g.do('pack', g.l(), bg, n, t, b2, 4 * n, 0, WORLD)
    g.do('dump', b2)
    g.m.count('far')
    return g

def hugecount(r):
    """one side of a transfer names more elements than an int counts"""
    kind = r.choice(['int', 'char', 'short', 'char'])
    g = G(r, arena=False, pats=[(kind,)])
    h, k = H[kind], g.ksize(kind)
    for _ in range(r.choice([1, 2])):
        m = r.choice([2, 2, 3, 4, 8, 100, 4096, 65536])
        if kind == 'int' and m == 2 and r.random() < .5:
            t, ext = -29, 8
        else:
            gap = r.choice([0, 0, 1])
            t = g.mk('vector', g.l(), m, 1, 1 + gap, h)
            g.commit(t)
            ext = g.T(t).extent
        want = r.choice([2**31, 2**31, 2**32, 2**32, 3 * 2**31]) + r.choice([0, 1, m, 40, 5000, 100000])
        n = -(-want // m)
        if n >= 2**31 or n * ext > 15 << 30:
            n = min(2**31 - 1, (15 << 30) // ext)
            if n * m < 2**31:
                continue
        S = n * ext + 64
        bg = 'b%d' % g.nb
        g.nb += 1
        g.do('big', bg, S)
        q = r.choice([1, 2, 7, 300])
        sm = g.newbuf(q * k)
        send = r.random() < .4
        if send:
            for x in range(0, q * ext // m + 64, 64):
                g.do('fill', bg, x, 64, r.randrange(1 << 30))
            s = ['isend', g.l(), bg, n, t, 0, 4, WORLD, g.nreq()]
            v = ['irecv', g.l(), sm, q, h, 0, 4, WORLD, g.nreq()]
        else:
            s = ['isend', g.l(), sm, q, h, 0, 4, WORLD, g.nreq()]
            v = ['irecv', g.l(), bg, n, t, 0, 4, WORLD, g.nreq()]
        for op in ([s, v] if r.random() < .5 else [v, s]):
            g.do(*op)
            if op is s and r.random() < .7:          # found by a probe if it is waiting
                g.do(*announced(g, r))
                announce(g, r, [h, t])
        g.do('waitall', g.l(), 2, s[-1], v[-1], g.nstat(0, 2))
        g.getcounts(g.ns - 1)
        if send:
            g.do('dump', sm)
        else:
            for x in range(0, q * ext // m + 64, 64):
                g.do('dumpw', bg, x, 64)
            g.do('stray', bg, 1, 0, (q * ext // m + 127) // 64 * 64)
        g.m.count('hugecount')
    if not g.m.stats.get('hugecount'):
        raise Quit('none')
    g.finish(False)
    return g

def announced(g, r, tag=4):
    return [r.choice(['iprobe', 'iprobe', 'probe']) if g.m.C(WORLD).sq else 'iprobe', g.l(), r.choice([0, ANY]),
            r.choice([tag, ANY]), WORLD, g.nstat(0)]

def announce(g, r, types):
    st = g.m.s.get(g.ns - 1)
    if st is not None and st.known and st.nel is not None:
        for _ in range(2):
            g.do('getelem' if r.random() < .4 else 'getcount', g.l(), 's%d' % (g.ns - 1), r.choice(types))

def countless(r):
    """messages of more elements than a status can count, waiting and probed (their few bytes sent many times over)"""
    kind = r.choice(['int', 'char', 'short', 'double'])
    g = G(r, arena=False, pats=[(kind,)])
    h, k = H[kind], g.ksize(kind)
    c = WORLD
    sent = []
    for j in range(r.choice([1, 1, 2, 3])):
        m = r.choice([2, 3, 4, 7, 8, 256, 1000, 4096])
        t = g.mk('vector', g.l(), m, 1, r.choice([1, 1, 2]), h)
        S = g.T(t).extent
        w = r.choice([t, g.mk('struct', g.l(), 3, 1, 1, 1, 0, 0, r.choice([0, 0, k, S]), t, -14, -15)])
        g.commit(w)
        ext = g.T(w).extent
        want = r.choice([2**31 - m, 2**31, 2**31 + m, 2**32 - m, 2**32, 2**32 + m, 2**33, (2**31 - 1) * m])
        n = max(1, min(2**31 - 1, want // m))
        if abs(ext) * n > 12 << 30:
            n = 2**31 // m + 1
            if abs(ext) * n > 12 << 30:
                continue
        bg = 'b%d' % g.nb
        g.nb += 1
        g.do('big', bg, ext * (n - 1) + S + 64)
        for x in range(0, 512, 64):
            if x + 64 <= ext * (n - 1) + S + 64:
                g.do('fill', bg, x, 64, r.randrange(1 << 30))
        q = g.nreq()
        g.do(r.choice(['isend']), g.l(), bg, n, w, 0, 5 + j, c, q)
        sent.append((5 + j, q, w, m))
        if n * m > 2**31 - 1:
            g.m.count('countless sent')
    if not g.m.stats.get('countless sent'):
        raise Quit('none')
    for _ in range(r.choice([1, 2, 4])):
        tag, q, w, m = r.choice(sent)
        g.do(*announced(g, r, tag))
        announce(g, r, [h, w, w])
    r.shuffle(sent)
    for tag, q, w, m in sent:
        e = r.choice([1, 2, m, 100])
        b = g.newbuf(e * k)
        g.do('recv', g.l(), b, e, h, 0, tag, c, g.nstat(0))
        announce(g, r, [h, w])
        g.do('dump', b)
        g.do('wait', g.l(), q, g.nstat(0))
    g.finish(False)
    return g

def bulkcount(r):
    """a receive of 2^31 bytes and more"""
    g = G(r, arena=False, pats=[('char',)])
    g.do('cpu', 200)
    h = H['char']
    m, m2 = r.choice([2, 4096, 65536]), r.choice([3, 1000, 4096])
    t, t2 = g.mk('contig', g.l(), m, h), g.mk('vector', g.l(), m2, 2, 2, h)
    g.commit(t)
    g.commit(t2)
    n, n2 = 2**31 // m + r.choice([0, 1, 7]), 2**31 // (2 * m2) + r.choice([1, 2, 3])
    tot = min(n * m, n2 * 2 * m2)
    a, b = 'b%d' % g.nb, 'b%d' % (g.nb + 1)
    g.nb += 2
    g.do('big', a, n * m + 64)
    g.do('big', b, n2 * 2 * m2 + 64)
    ws = sorted(set([0, 2**30, 2**31 - 64, 2**31 - 128] + [r.randrange(0, 2**25) * 64 for _ in range(10)]))
    for x in ws:
        g.do('fill', a, x, 64, r.randrange(1 << 30))
    s = ['isend', g.l(), a, n, t, 0, 4, WORLD, g.nreq()]
    v = ['irecv', g.l(), b, n2, t2, 0, 4, WORLD, g.nreq()]
    for op in ([s, v] if r.random() < .5 else [v, s]):
        g.do(*op)
    g.do('wait', g.l(), v[-1], g.nstat(0))
    announce(g, r, [h, t, t2])
    g.do('wait', g.l(), s[-1], '-')
    for x in ws:
        g.do('dumpw', b, x, 64)
    g.m.count('countless')
    return g

def bulk(r):
    """a message of more than 2 GiB"""
    kind = r.choice(['ldouble', 'COMPLEX32', 'COMPLEX16', 'INTEGER16'])
    g = G(r, arena=False, pats=[(kind,)])
    h, k = H[kind], g.ksize(kind)
    n = 2**31 // k + r.choice([0, 1, 5, 4096])
    a, b = 'b%d' % g.nb, 'b%d' % (g.nb + 1)
    g.nb += 2
    g.do('big', a, n * k + 64)
    g.do('big', b, n * k + 4160)
    ws = sorted(set([0, 64, 2**30, 2**31 - 64, 2**31, n * k - 64] + [r.randrange(0, 2**25) * 64 for _ in range(10)]))
    ws = [x for x in ws if x + 64 <= n * k]
    for x in ws:
        g.do('fill', a, x, 64, r.randrange(1 << 30))
    g.do('fill', b, 4096, 64, 1)
    g.do('fill', b, n * k, 64, 2)
    how = r.choice(['recv', 'send', 'coll'])
    if how == 'coll':
        w = r.choice(['allgather', 'alltoall', 'allgatherv', 'gather', 'scatter'])
        args = {'allgather': [a, n, h, b, n, h], 'alltoall': [a, n, h, b, n, h], 'allgatherv': [a, n, h, b, n, 0, h],
                'gather': [a, n, h, b, n, h, 0], 'scatter': [a, n, h, b, n, h, 0]}[w]
        g.do(w, g.l(), *args, WORLD)
    else:
        s = ['isend', g.l(), a, n, h, 0, 4, WORLD, g.nreq()]
        v = ['irecv', g.l(), b, n, h, 0, 4, WORLD, g.nreq()]
        for op in ([s, v] if how == 'recv' else [v, s]):
            g.do(*op)
        g.do('waitall', g.l(), 2, s[-1], v[-1], g.nstat(0, 2))
        g.getcounts(g.ns - 1)
    for x in sorted(set(ws + [4096, n * k - 64, n * k])):
        g.do('dumpw', b, x, 64)
    g.m.count('bulk')
    return g

def absolute(r):
    """absolute addresses and MPI_BOTTOM"""
    g = G(r, arena=False, fort=0, pats=[(r.choice(COMMON),)])
    h = H[g.pats[0][0]]
    k = g.ksize(g.pats[0][0])
    for _ in range(r.choice([1, 2, 3])):
        n = r.choice([1, 2, 3, 5])
        bs = []
        for _ in range(n):
            b = g.newbuf(k * 6)
            off = k * r.randrange(4)
            g.do(r.choice(['getaddr', 'address']), r.choice('cf'), '%s:%d' % (b, off))
            bs.append('@%s:%d' % (b, off))
        bl = [r.choice([0, 1, 1, 2]) for _ in bs]
        if r.random() < .5:
            t = g.mk('hindexed', 'c', n, *bl, *bs, h)
        else:
            t = g.mk('struct', 'c', n, *bl, *bs, *[h] * n)
        g.commit(t)
        tot = sum(bl)
        sm = g.newbuf(tot * k)
        small = (sm, tot, h)
        how = r.choice(['pack', 'unpack', 'send', 'recv', 'coll', 'coll', 'dup', 'sendrecv'])
        if how in ('send', 'recv', 'coll', 'sendrecv') and r.random() < .3:   # absolute on the other side, too
            cs, cl = [], []
            while sum(cl) < tot:
                cl.append(min(r.choice([1, 1, 2]), tot - sum(cl)))
                cs.append('@%s:%d' % (g.newbuf(k * 6), k * r.randrange(4)))
            u = g.commit(g.mk('hindexed', 'c', len(cl), *cl, *cs, h))
            small = ('@null', 1, u)
        if how == 'dup':
            u = g.mk('tdup', 'c', t)
            g.do('tfree', 'c', t)
            t = g.commit(u)
            how = r.choice(['pack', 'unpack'])
        absl = ('@null', 1, t)
        if how == 'pack':
            g.do('pack', 'c', '@null', 1, t, sm, tot * k, 0, WORLD)
        elif how == 'unpack':
            g.do('unpack', 'c', sm, tot * k, 0, '@null', 1, t, WORLD)
        elif how == 'sendrecv':
            x, y = r.choice([(absl, small), (small, absl)])
            g.do('sendrecv', 'c', *x, 0, 4, *y, 0, 4, WORLD, g.nstat())
        elif how == 'send':
            if r.random() < .6:
                g.do('isend', 'c', *absl, 0, 4, WORLD, g.nreq())
                if r.random() < .3:
                    g.do('probe', 'c', 0, 4, WORLD, g.nstat())
                g.do('recv', 'c', *small, 0, 4, WORLD, g.nstat())
            else:
                g.do('irecv', 'c', *small, 0, 4, WORLD, g.nreq())
                g.do(r.choice(['send', 'ssend', 'rsend']), 'c', *absl, 0, 4, WORLD)
        elif how == 'recv':
            if r.random() < .6:
                g.do('irecv', 'c', *absl, 0, 4, WORLD, g.nreq())
                g.do(r.choice(['send', 'ssend', 'rsend']), 'c', *small, 0, 4, WORLD)
            else:
                g.do('isend', 'c', *small, 0, 4, WORLD, g.nreq())
                g.do('recv', 'c', *absl, 0, 4, WORLD, g.nstat())
        else:
            x, y = r.choice([(absl, small), (small, absl)])
            w = r.choice(['gather', 'gatherv', 'allgather', 'allgatherv', 'scatter', 'scatterv', 'alltoall',
                          'alltoallv', 'alltoallw', 'bcast'])
            if w == 'bcast':
                g.do(w, 'c', *absl, 0, WORLD)
            else:
                v = lambda z: (z[0], z[1], 0, z[2])
                sd = v(x) if w in ('scatterv', 'alltoallv', 'alltoallw') else x
                rd = v(y) if w in ('gatherv', 'allgatherv', 'alltoallv', 'alltoallw') else y
                g.do(w, 'c', *sd, *rd, *([0] if w in ('gather', 'gatherv', 'scatter', 'scatterv') else []), WORLD)
        g.m.count('absolute')
    g.finish(False)
    return g

def fargeom(r):
    """bounds of types with 64-bit displacements; no data"""
    g = G(r, arena=False, npat=1)
    t = g.leaf(0)
    for _ in range(r.choice([1, 2, 3])):
        d = lambda: r.choice([1, -1]) * r.choice([0, 2**31 - 1, 2**31, 2**32, 2**32 + 3, 2**40, r.randrange(2**45)])
        w = r.choice(['hindexed', 'struct', 'hvector', 'chvector', 'lb', 'ub', 'vector', 'indexed', 'contig'])
        o = g.T(t)
        n = r.choice([1, 2, 3])
        if o.n > 200:
            n = 1
        if w == 'hindexed':
            t = g.mk(w, g.l(), n, *[r.choice([1, 1, 2]) for _ in range(n)], *[d() for _ in range(n)], t)
        elif w == 'struct':
            t = g.mk(w, g.l(), n, *[r.choice([1, 1, 2]) for _ in range(n)], *[d() for _ in range(n)], *[t] * n)
        elif w in ('hvector', 'chvector'):
            t = g.mk(w, g.l(), n, 1, d(), t)
        elif w == 'vector':
            t = g.mk(w, g.l(), n, 1, r.choice([2**31 - 1, -2**31, 2**28, 7]), t)
        elif w == 'indexed':
            t = g.mk(w, g.l(), n, *[1] * n, *[r.choice([2**31 - 1, -2**31, 2**29, 3]) for _ in range(n)], t)
        elif w == 'contig':
            t = g.mk(w, g.l(), n, t)
        elif o.n:
            t = g.mk('struct', g.l(), 2, 1, 1, 0, d(), t, -14 if w == 'lb' else -15)
        g.do('geom', g.l(), t)
        if r.random() < .3:
            t = g.mk('tdup', g.l(), t)
            g.do('geom', g.l(), t)
    g.m.count('fargeom')
    return g

def c18(r, i, tier):
    if i % 1500 == 700:
        return [case(bulk(r), 'plain')]
    for _ in range(20):
        try:
            k = r.random()
            if k < .3:
                return [case(fargeom(r), variant(r))]
            if k < .5:
                return [case(absolute(r), variant(r))]
            if k < .53:
                return [case(farcount(r), 'plain')]
            if k < .56:
                return [case(hugecount(r), r.choice(['asan', 'plain']))]
            return [case(far(r, tier), r.choice(['asan', 'plain']))]
        except (Quit, Invalid):
            continue
    raise Skip('no program')

# ---------------------------------------------------------------- C19

BASE19 = profile(irecv=10, send=9, recv=5, isend=3, type=3, test=2, wait=2, testsome=.5, sendrecv=2, procnull=2, comm=1,
                 getcount=2)

def reform(ops, r, nr):
    """the same program with other forms of send and receive"""
    out = []
    k = 0
    for op in ops:
        op = list(op)
        l = op[1] if len(op) > 1 else 'c'
        o = op[0]
        f = r.random()
        if o in ('send', 'ssend', 'rsend'):
            to = r.choice(['send', 'ssend', 'rsend', 'isend', 'irsend', 'sendrecv'])
            a = op[2:]
            k += 1
            if to in ('send', 'ssend', 'rsend'):
                out.append([to, l, *a])
            elif to == 'sendrecv':
                out.append(['sendrecv', l, *a[:5], '@null', 0, -3, PROC_NULL, ANY, a[5], '-'])
            else:
                x = 'r%d' % nr
                nr += 1
                out.append([to, l, *a, x])
                out.append(['wait', r.choice('cf'), x, '-'])
        elif o == 'recv':
            to = r.choice(['recv', 'irecv', 'irecvtest', 'sendrecv'])
            a = op[2:]
            k += 1
            if to == 'recv':
                out.append(op)
            elif to == 'sendrecv':
                out.append(['sendrecv', l, '@null', 0, -3, PROC_NULL, 0, *a[:5], a[5], a[6]])
            else:
                x = 'r%d' % nr
                nr += 1
                out.append(['irecv', l, *a[:6], x])
                out.append(['wait' if to == 'irecv' else 'test', r.choice('cf'), x, a[6]])
        elif o in ('isend', 'irsend') and f < .5:
            # a ready send is right where the receive is posted: the model decides
            out.append(['irsend' if o == 'isend' else 'isend', *op[1:]])
        else:
            out.append(op)
    return out, nr, k

def c19(r, i, tier):
    g = mixed(r, i, tier, BASE19, 0.1)
    cs = [case(g, variant(r))]
    for _ in range(2):
        ops, _, k = reform(g.ops, r, g.nr)
        # undo the ready sends that have no receive
        m = Model(**g.kw)
        good = []
        for op in ops:
            if op[0] == 'irsend':
                c = m.C(op[7])
                if op[5] == 0 and not any(q.tag in (ANY, op[6]) for q in c.rq):
                    op = ['isend'] + op[1:]
            good.append(op)
            m.apply(op)
        st = dict(m.stats)
        st.update(ops=len(good), replaced=k)
        cs.append(Case(good, variant(r), 'ok', dict(g.kw), 'other forms', st))
    return cs

# ---------------------------------------------------------------- C20, C21

CART = profile(cart=14, comm=1, isend=1, irecv=1)

def c20(r, i, tier):
    g = G(r, npat=1, kinds=['int'], arena=False)
    for _ in range(r.choice([3, 6, 12])):
        k = r.random()
        if k < .6:
            g.a_cart()
        elif k < .85:
            if len(g.comms) > 8:
                g.a_cfree()
            else:
                g.newcomm(0, ['cartcreate'])
        else:
            nd = r.choice([0, 1, 10, 40, 40, 1100])
            w = r.randrange(3)
            if w == 0:
                g.do('dims', g.l(), r.choice([1, 1, 0]), nd, nd + 3, *[r.choice([0, 1, 5, -1]) for _ in range(nd + 3)])
            elif w == 1:
                g.do('cartget', g.l(), g.comm(), nd, nd + 3)
            else:
                g.do('cartcoords', g.l(), g.comm(), 0, nd, nd + 3)
    g.m.count('cart', len(g.ops))
    if len(g.comms) > 1:
        g.run(6, profile(isend=4, irecv=4, send=2, recv=2, coll=2))
    if i % 4 == 1:
        k = r.choice(['dims', 'cart', 'coords'])
        nd = r.choice([1, 2, 3, 5, 30, 600])
        if k == 'dims':
            op = ['dims', g.l(), r.choice([2, 3, 4, 100, 2**31 - 1]), nd, nd, *[0] * nd]
        elif k == 'cart':
            d = [r.choice([1, 1, 0, -1, 2]) for _ in range(nd)]
            d[r.randrange(nd)] = r.choice([2, 7, 1000, 2**31 - 1])
            op = ['cartcreate', g.l(), g.comm(), nd, *d, *[0] * nd, 0, 'c999']
        else:
            op = ['cartcoords', g.l(), g.comm(), r.choice([1, -1, 5, 2**31 - 1]), nd, nd]
        return [misuse(g, op)]
    g.finish()
    return [case(g, variant(r))]

def env_ops(g, r, n, plain=False):
    for _ in range(n):
        k = r.randrange(9)
        if k == 8:
            g.do('version', g.l())
        elif k == 0:
            g.do('errstr', g.l(), r.choice([0, -1, 1, 7, 2**31 - 1, -2**31, r.randrange(-1000, 100000)]))
        elif k == 1:
            g.do('verstr', g.l())
        elif k == 2:
            g.do('pname', g.l(), r.randrange(3), r.choice([1, 3, 20, 64, 126, 127, 128, 129, 200, 1000]),
                 r.randrange(1 << 30))
        elif k == 3:
            g.do('maxima', 'c')
        elif k == 4 and plain:
            s = r.choice([0, 1, 1700000000, 2**31 - 1, 2**31, 4102444800])
            d = r.choice([0, 0, 1, 59, 86400, 10**8])
            u, v = r.choice([0, 1, 999999, 500000]), r.choice([0, 1, 999999, r.randrange(1000000)])
            g.do('wtime', g.l(), s, u, s + d, v, r.randrange(2))
            g.m.count('wtime')
        elif k == 5:
            g.do('initialized', g.l())
        else:
            g.a_env()
        g.m.count('envops')
    return g

def c21(r, i, tier):
    plain = r.random() < .6
    g = G(r, npat=1, kinds=['int'], init=False)
    if r.random() < .7:
        g.do('initialized', g.l())
    k = r.randrange(4)
    if k == 0:
        g.do('init', g.l())
    elif k == 1:
        g.do('initargs', 'c')
    else:
        g.do('initthread', g.l(), r.randrange(4))
    g.do('initialized', g.l())
    g.do('cinfo', g.l(), WORLD)
    env_ops(g, r, r.choice([3, 8, 15]), plain)
    if i % 50 == 7:
        g.do('wtimereal', g.l(), r.choice([0, 1000, 20000]))
    g.finish()
    return [case(g, 'plain' if plain else 'asan')]

# ---------------------------------------------------------------- C22

def cinit(ops):
    out = [list(o) for o in ops]
    for o in out:
        if o[0] in ('init', 'initthread'):
            o[1] = 'c'
    return out

V22 = ['tc', 'info', 'all', 'r8', 'r16', 'd4', 'tcasan', 'checks', 'f_', 'f2c', 'fsame', 'fcaps', 'tint']
WARN = {'info', 'all', 'tcasan'}

def kw22(v):
    if v in B.FSIZES:
        a, b = B.FSIZES[v]
        return dict(fort_real=a, fort_double=b)
    return {}

def c22(r, i, tier):
    if i % 40 == 7:
        return [wrongsize(r)]
    v = V22[i % len(V22)]
    tc = v in ('tc', 'all', 'tcasan')
    kw = kw22(v)
    if tc and i % 3 == 0:
        return [mismatch(r, v, kw)]
    w = DEFAULT
    if r.random() < .3:
        w = profile(type=5, geom=5, send=4, irecv=5, isend=5, recv=4, pack=3, coll=4)
    g = G(r, kw=kw)
    if r.random() < .25:
        for h in [-17, -18, -19, -20, -23, -24, -16, -21, -37, -38, -9, -10]:
            g.do('geom', g.l(), h)
    if r.random() < .04:                     # many objects at once
        g.prelude(r.choice([200, 250, 254, 500, 770]))
    g.run(length(r, tier), w).finish()
    c = case(g, v, 'warn' if v in WARN else 'ok')
    if v == 'r16':
        c.ops = cinit(c.ops)
    return [c]

def wrongsize(r):
    """Fortran starts a library that was configured for other REAL or DOUBLE PRECISION sizes"""
    v = r.choice(B.XSIZES)
    ops = [['initialized', r.choice('cf')] for _ in range(r.randrange(3))]
    kw = dict(kw22(v), wrongsize=True)
    l = r.choice('ffffc')
    ops.append(['init', l] if r.random() < .6 else ['initthread', l, r.randrange(4)])
    if l == 'c':        # C does not care
        ops += [['initialized', 'c'], ['finalize', r.choice('cf')]]
        return Case(ops, v, 'ok', kw, 'started from C', {'mismatch': 1})
    return Case(ops, v, 'misuse', kw, 'misconfigured sizes', {'mismatch': 1, 'misuse': 1})

def mismatch(r, v, kw):
    """two different element sequences meet"""
    g = G(r, kw=kw, npat=1)
    g.run(r.choice([0, 0, 6]), DEFAULT)
    kw2 = dict(kw, tc=True)
    P = g.pats[0]
    kinds = [k for k in H if k not in ('byte', 'packed')]
    n = r.choice([1, 1, 2, 3, 5])
    a = [r.choice(kinds) for _ in range(n)]
    b = a[:]
    j = r.randrange(n)
    b[j] = r.choice([k for k in kinds if k != a[j]])
    if r.random() < .3:
        b = b[:max(1, j + r.choice([0, 1]))]      # maybe cut off before the difference
    if r.random() < .3:
        a = a + [r.choice(kinds)]
    if n == 1 and len(a) == 1 and r.random() < .5:
        s, t = H[a[0]], H[b[0]]
    else:
        s, t = g.commit(g.struct_of(tuple(a))), g.commit(g.struct_of(tuple(b)))
    c = g.newcomm(0, ['cdup'])
    x, y = g.alloc(g.T(s), 1), g.alloc(g.T(t), 1)
    g.kw = kw2
    g.m.tc = True
    g.m.count('mismatch')
    k = r.randrange(4)
    same = a[:min(len(a), len(b))] == b[:min(len(a), len(b))]
    if k == 0:
        g.do('isend', g.l(), x, 1, s, 0, 3, c, g.nreq())
        op = ['recv', g.l(), y, 1, t, 0, 3, c, g.nstat()]
    elif k == 1:
        g.do('irecv', g.l(), y, 1, t, 0, 3, c, g.nreq())
        op = ['send', g.l(), x, 1, s, 0, 3, c]
    elif k == 2:
        op = ['sendrecv', g.l(), x, 1, s, 0, 3, y, 1, t, 0, 3, c, g.nstat()]
    else:
        if len(a) != len(b):
            raise Skip('counts')
        op = ['allgather', g.l(), x, 1, s, y, 1, t, c]
    if not same:
        return misuse(g, op, 'misuse', v)
    g.do(*op)
    g.finish(False)
    return case(g, v, 'warn' if v in WARN else 'ok')

# ---------------------------------------------------------------- C23

def c23(r, i, tier):
    if i % 30 == 13:
        return [forsaken(r, i, tier)]
    if i % 50 == 17:
        return [swarm(r, tier)]
    g = G(r)
    if r.random() < .3:
        g.prelude(r.choice([10, 60, 300]))
    w = {x: v * r.choice([0, 1, 1, 1, 3]) for x, v in DEFAULT.items()}
    w['isend'] = w['isend'] or 4
    w['irecv'] = w['irecv'] or 4
    if r.random() < .3:
        w['tfree'] = 6
        w['type'] = 8
    g.run(length(r, tier, 20, 90), w).finish()
    if r.random() < .2:
        env_ops(g, r, 4)
    a, b = r.sample([0, 1, 85, 127, 128, 170, 254, 255], 2)
    cs = [case(g, 'asan@%d' % a)]
    c = case(g, 'plain@%d' % b)
    cs.append(c)
    if i % 3 == 0:
        cs.append(case(g, 'asan@%d' % b))
    return cs

# ---------------------------------------------------------------- C24

def c24(r, i, tier):
    ops, exp, st = LISTS.history(r, tier)
    c = Case(ops, r.choice(['list', 'list', 'listchk']), 'ok', {'lists': True}, '', st)
    c.exp = exp
    return [c]

# ---------------------------------------------------------------- C25

def c25(r, i, tier):
    if i % 400 == 13:                        # more objects than there are handles for
        g = G(r, arena=False)
        g.do('scale', r.randrange(1 << 30), r.choice([262100, 262200, 264000, 270000, 300000]), r.choice([1, 10]), 1,
             r.choice([0, 0, 1, 2]))
        g.m.count('handles')
        return [case(g, r.choice(['asan', 'plain', 'plain']), 'oom')]
    if i % 10 == 3:                          # more elements than a datatype can count
        g = G(r)
        g.run(r.choice([0, 0, 5]), DEFAULT)
        return [misuse(g, many_elements(g, r), 'misuse', r.choice(['asan', 'plain']))]
    g = G(r, arena=False)
    if i % 10 in (1, 4, 7):                  # one object made while memory is short, then used
        g.run(r.choice([0, 0, 3]), DEFAULT)
        p = len(g.ops)
        for _ in range(r.choice([1, 1, 2, 3])):
            exhausting(g, r)
        g.run(r.choice([2, 5, 10]), DEFAULT)
        return [oom(g, r, p, r.choice([1, 1, 1, 2, 2, 3, 4, 5, 6, 8]), r.choice([0, 0, 0, 1]))]
    if r.random() < .15:
        g.prelude(r.choice([200, 250, 254, 500, 770]))
    g.run(r.choice([0, 2, 10]), DEFAULT)
    p = r.choice([0, len(g.ops), len(g.ops), len(g.ops), r.randrange(len(g.ops) + 1)])
    w = DEFAULT
    if r.random() < .6:
        w = {x: 0 for x in DEFAULT}
        for x in r.sample([x for x in ('type', 'tdup', 'comm', 'cart', 'isend', 'irecv', 'coll', 'pack', 'sendrecv', 'group')
                           if x in w], 3):
            w[x] = 1
        w['type'] += 1
    g.run(r.choice([3, 6, 15]), w)
    return [oom(g, r, p, r.choice([1, 1, 1, 2, 2, 3, 4, 5, 7, 12, 30]), r.choice([0, 0, 1]))]

def oom(g, r, p, k, on):
    if r.random() < .6:
        g.finish()
    g.ops.insert(p, ['oom', k, on])
    g.exp.insert(p, [])
    g.m.count('armed')
    return case(g, r.choice(['asan', 'plain@170', 'plain']), 'oom')

def exhausting(g, r):
    k = r.randrange(8)
    if k < 2:
        c = g.newcomm(0, ['cartcreate'])
        nd = g.ops[-1][3]
        g.do('cartget', g.l(), c, nd, nd + r.choice([0, 2]))
        if r.random() < .3:
            g.do('cartget', g.l(), c, nd, nd)
    elif k < 4:
        c = g.newcomm(0)
        g.do('cinfo', g.l(), c)
        t, n = g.pick(0, False)
        q = g.nreq()
        g.do('isend', g.l(), g.alloc(g.T(t), n), n, t, 0, g.tag(), c, q)
        if r.random() < .5:
            g.do('iprobe', g.l(), -1, ANY, c, g.nstat())
    elif k < 6:
        pi = r.randrange(len(g.pats))
        t = g.new_type(pi, commit=r.random() < .8) if r.random() < .7 else None
        v = [x for x in g.pool[pi] if x is not None]
        if v:
            t = r.choice(v[-2:])
            g.do('geom', g.l(), t)
            if r.random() < .4:
                t = g.mk('tdup', g.l(), t)
                g.pool[pi].append(t)
                g.do('geom', g.l(), t)
    else:
        w = dict.fromkeys(DEFAULT, 0)
        for x in r.sample(['isend', 'irecv', 'send', 'recv', 'sendrecv', 'coll', 'pack', 'inplace', 'group', 'comm', 'burst'], 3):
            w[x] = 1
        g.run(r.choice([1, 2, 4]), w)

def many_elements(g, r):
    """a constructor call that would need 2^31 elements or more"""
    a = r.choice([2048, 4096, 65536, 46341, 50000, 92682, 65537])
    need = -(-2**31 // a)
    b = r.choice([need, need + 1, -(-2**32 // a), -(-2**32 // a) + r.randrange(20), 2 * need + r.randrange(100)])
    while (a * b) % 2**32 < 2**31 and (a * b) % 2**32 > 2**22:       # what is left of it in 32 bits stays small
        b += max(1, (2**31 - (a * b) % 2**32) // a)
    x = g.leaf(0)
    x = x if isinstance(x, int) else r.choice([-1, -3, -10])
    t = g.mk('contig', 'c', a, x)
    n, l = 't%d' % g.nt, g.l()
    k = r.choice(['contig', 'hvector', 'vector', 'hindexed', 'indexed', 'struct', 'struct2'])
    if k == 'contig' and b <= 200000:
        return [k, l, b, t, n]
    if k in ('hvector', 'vector', 'contig'):
        s = r.choice([1, 2, 16])
        c = b // s
        return [k if k != 'contig' else 'vector', l, s, c + 1, 1, t, n] if (a * (c + 1) * s) % 2**32 >= 2**31 else [
            'hvector', l, 1, b, 0, t, n]
    if k == 'struct':
        return [k, l, 1, b, 0, t, n]
    if k == 'struct2':
        return ['struct', l, 2, b - 1, 1, 0, 0, t, t, n]
    return [k, l, 2, b - 1, 1, 0, 1, t, n]
