"""Lists (list.h): the reference model is a Python list of items; generator of histories."""
from .model import Invalid

class Item:
    __slots__ = ('v', 'of')
    def __init__(self, v, of):
        self.v, self.of = v, of

def wrap32(x):
    return (x + 2**31) % 2**32 - 2**31

class Lists:
    def __init__(self):
        self.l, self.i, self.stats, self.inrep = {}, {}, {}, None

    def apply(self, op):
        f = getattr(self, 'm_' + op[0], None)
        if f is None:
            raise Invalid('op')
        return f(*op[1:])

    def L(self, l):
        if self.l.get(l) is None:
            raise Invalid('no list')
        return self.l[l]

    def I(self, i, of=None):
        x = self.i.get(i)
        if x is None or not any(x is y for y in self.l.get(x.of) or ()):
            raise Invalid('no item')
        if of is not None and x.of != of:
            raise Invalid('other list')
        return x

    def put(self, i, x):
        self.i[i] = x
        return '-' if x is None else x.v

    def m_new(self, l):
        if self.l.get(l) is not None:
            raise Invalid('in use')
        self.l[l] = []
        return []
    def m_free(self, l):
        self.L(l)
        del self.l[l]
        return []
    def m_size(self, l):
        return [len(self.L(l))]
    def m_prepend(self, l, i, v):
        x = Item(v, l)
        self.L(l).insert(0, x)
        return [self.put(i, x)]
    def m_append(self, l, i, v):
        x = Item(v, l)
        self.L(l).append(x)
        return [self.put(i, x)]
    def m_fill(self, l, n, v, k):
        a = self.L(l)
        a.extend([Item(v + i, l) for i in range(n) if not k or i % k])
        a[:0] = [Item(v + i, l) for i in range(n) if k and i % k == 0][::-1]
        return [0]
    def m_sum(self, l):
        h = 0
        for x in self.L(l):
            h = (h * 31 + x.v) & 0xffffffffffff
        return [len(self.L(l)), h]
    def m_delete(self, l, v):
        a = self.L(l)
        for k, x in enumerate(a):
            if x.v == v:
                del a[k]
                return [1]
        return [0]
    def m_delitem(self, l, i):
        a, x = self.L(l), self.I(i, l)
        self.l[l] = [y for y in a if y is not x]
        return []
    def m_headitem(self, l, i):
        a = self.L(l)
        return [self.put(i, a[0] if a else None)]
    def m_head(self, l):
        a = self.L(l)
        return [1, a[0].v] if a else [0, -99]
    def m_tail(self, l):
        a = self.L(l)
        return [1, a[-1].v] if a else [0, -99]
    def m_search(self, l, v, i):
        return [self.put(i, next((x for x in self.L(l) if x.v == v), None))]
    def m_searchf(self, l, v, i):
        seen = []
        for x in self.L(l):
            seen.append(x.v)
            if x.v == v:
                return [self.put(i, x), len(seen)] + seen
        return [self.put(i, None), len(seen)] + seen
    def m_apply(self, l, v):
        a = [x.v for x in self.L(l)]
        t = sum(wrap32(x * v) for x in a)
        if abs(t) >= 2**31:
            raise Invalid('overflow')
        return [t, len(a)] + a
    def near(self, i, j, d):
        x = self.I(i)
        a = self.l[x.of]
        k = next(k for k, y in enumerate(a) if y is x) + d
        return [self.put(j, a[k] if 0 <= k < len(a) else None)]
    def m_next(self, i, j):
        return self.near(i, j, 1)
    def m_prev(self, i, j):
        return self.near(i, j, -1)
    def m_same(self, i, j):
        return [int(self.I(i) is self.I(j))]
    def m_data(self, i):
        return [self.I(i).v]
    def m_walk(self, l):
        return [x.v for x in self.L(l)]
    def m_bwalk(self, l):
        r = []
        for x in self.L(l):
            if x.v == 0:
                break
            r.append(x.v)
        return r
    def m_items(self, l):
        a = [x.v for x in self.L(l)]
        return a + ['|'] + a[::-1]
    def m_weed(self, l, k):
        if k < 1:
            raise Invalid('k')
        self.l[l] = [x for n, x in enumerate(self.L(l)) if n % k]
        return []
    def m_dup(self, l, m):
        a = self.L(l)
        if self.l.get(m) is not None:
            raise Invalid('in use')
        self.l[m] = [Item(x.v, m) for x in a]
        return []
    def pr(self, a):
        if any(abs(x.v) >= 2**31 for x in a):
            raise Invalid('wide')
        return ['some', '(%d' % len(a), 'items):'] + [x.v for x in a] + ['/']
    def m_print(self, l):
        return self.pr(self.L(l))
    def m_revprint(self, l):
        return self.pr(self.L(l)[::-1])
    def m_verify(self):
        return [int(bool(self.l))]

def long_list(r, tier):
    """lists of up to 140000 items, a few calls each"""
    m = Lists()
    ops, exp = [], []
    def do(*op):
        exp.append(m.apply(list(op)))
        ops.append(list(op))
    do('new', 'l0')
    seen = 0
    for k in range(r.choice([1, 1, 2, 3])):
        n = r.choice([120, 130, 200, 255, 256, 300, 1000, 1025, 4100, 33000] + [66000, 70000] * (r.random() < .3))
        do('fill', 'l0', n, k * 1000000 + r.choice([0, 1, 7]), r.choice([0, 0, 1, 2, 3, 50]))
        do('size', 'l0')
        do('sum', 'l0')
    a = m.l['l0']
    ni = 0
    for _ in range(r.choice([2, 5, 12])):
        a = m.l['l0']
        w = r.choice(['delete', 'search', 'delitem', 'head', 'tail', 'weed', 'dup', 'apply', 'append', 'prepend', 'next', 'data'])
        v = r.choice([a[0], a[-1], r.choice(a)]).v if a and r.random() < .9 else -5
        try:
            if w == 'delete':
                do(w, 'l0', v)
                seen += 1
            elif w in ('append', 'prepend'):
                do(w, 'l0', 'i%d' % ni, v)
                ni += 1
            elif w == 'weed':
                if r.random() < .4:
                    do(w, 'l0', r.choice([1, 2, 3, 7, 100]))
                    seen += 1
            elif w == 'dup':
                if r.random() < .4 and not m.l.get('l1'):
                    do(w, 'l0', 'l1')
                    do('sum', 'l1')
                    do('size', 'l1')
                    do('free', 'l1')
            elif w == 'apply':
                if len(a) < 2000:
                    do(w, 'l0', 1)
            elif w in ('head', 'tail'):
                do(w, 'l0')
            else:
                do('search', 'l0', v, 'i%d' % ni)
                x = 'i%d' % ni
                ni += 1
                if w == 'next' and m.i[x] is not None:
                    do(r.choice(['next', 'prev']), x, 'i%d' % ni)
                    ni += 1
                elif w == 'data' and m.i[x] is not None:
                    do(w, x)
                elif w == 'delitem' and m.i[x] is not None:
                    do(w, 'l0', x)
                    seen += 1
        except Invalid:
            pass
        do('size', 'l0')
    do('sum', 'l0')
    if len(m.l['l0']) < 5000:
        do('items', 'l0')
        do('print', 'l0')
    do('free', 'l0')
    do('verify')
    return ops, exp, {'ops': len(ops), 'deletions': seen, 'longest': 1}

def history(r, tier):
    if r.random() < .02:
        return long_list(r, tier)
    m = Lists()
    ops, exp = [], []
    def do(*op):
        exp.append(m.apply(list(op)))
        ops.append(list(op))
    vals = [r.choice([0, 1, -1, 5, 2**31 - 1, -2**31, 2**32, 2**33 + 5, -2**62]) if r.random() < .3 else r.randrange(-20, 20)
            for _ in range(r.choice([1, 3, 8, 40]))]
    nl = ni = 0
    n = r.choice([5, 20, 60, 150] + ([600] if tier == 'thorough' else []))
    grow = r.choice([.35, .5, .7])
    most = r.choice([1, 2, 4])
    seen = 0
    for _ in range(n):
        live = list(m.l)
        k = r.random()
        if not live or (len(live) < most and k < .1):
            l = 'l%d' % nl
            nl += 1
            if live and r.random() < .5:
                do('dup', r.choice(live), l)
            else:
                do('new', l)
            continue
        l = r.choice(live)
        a = m.l[l]
        if r.random() < grow:
            do(r.choice(['append', 'append', 'prepend']), l, 'i%d' % ni, r.choice(vals))
            ni += 1
            continue
        w = r.choice(['delete', 'delete', 'delitem', 'delitem', 'delitem', 'headitem', 'head', 'tail', 'search', 'searchf', 'apply',
                      'next', 'prev', 'same', 'data', 'walk', 'bwalk', 'items', 'items', 'weed', 'print', 'revprint', 'verify',
                      'size', 'free'])
        its = [x for x in m.i if m.i[x] is not None and any(m.i[x] is y for y in m.l.get(m.i[x].of) or ())]
        try:
            if w in ('delete',):
                do(w, l, r.choice(vals))
                seen += 1
            elif w == 'delitem':
                if a and r.random() < .4:       # an end
                    do('headitem', l, 'i%d' % ni)
                    x, ni = 'i%d' % ni, ni + 1
                elif its:
                    x = r.choice(its)
                else:
                    continue
                do(w, m.i[x].of, x)
                seen += 1
            elif w == 'headitem':
                do(w, l, 'i%d' % ni)
                ni += 1
            elif w in ('search', 'searchf'):
                do(w, l, r.choice(vals), 'i%d' % ni)
                ni += 1
            elif w == 'apply':
                do(w, l, r.choice([1, -3, 1000]))
            elif w in ('next', 'prev') and its:
                do(w, r.choice(its), 'i%d' % ni)
                ni += 1
            elif w == 'same' and its:
                do(w, r.choice(its), r.choice(its))
            elif w == 'data' and its:
                do(w, r.choice(its))
            elif w == 'weed' and r.random() < .3:
                do(w, l, r.choice([1, 2, 3, 7]))
                seen += 1
            elif w == 'free' and r.random() < .3:
                do(w, l)
            elif w == 'verify':
                do(w)
            elif w in ('head', 'tail', 'walk', 'bwalk', 'items', 'print', 'revprint', 'size'):
                do(w, l)
        except Invalid:
            pass
    for l in list(m.l):
        do('items', l)
        do('size', l)
        do('tail', l)
        if r.random() < .7:
            do('free', l)
            do('verify')
    return ops, exp, {'ops': len(ops), 'deletions': seen, 'longest': 0}
