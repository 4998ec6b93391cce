"""Runs programs in the driver, compares with the model, shrinks, reports."""
import subprocess, os, sys, json, time, zlib, re, signal, hashlib, random, traceback
from . import build as B
from .model import Model, Invalid, Misuse
from .lists import Lists

ASAN_OPTS = ('exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:'
             'max_malloc_fill_size=1048576:malloc_fill_byte=%d:max_free_fill_size=1048576:'
             'free_fill_byte=%d:detect_stack_use_after_return=0:hard_rss_limit_mb=9000:'
             'quarantine_size_mb=64:symbolize=0')

class HarnessError(Exception):
    pass

class Driver:
    """One driver process.  variant: 'asan', 'plain', 'tc', ... optionally '@<fill byte>'."""
    def __init__(self, variant, cpu=20):
        self.variant, self.cpu = variant, cpu
        name, _, fill = variant.partition('@')
        fill = int(fill or 0xBE)
        self.exe = B.build(name)
        self.env = {'PATH': os.environ.get('PATH', '/usr/bin:/bin'), 'LC_ALL': 'C',
                    'ASAN_OPTIONS': ASAN_OPTS % (fill, fill ^ 0xff), 'MALLOC_PERTURB_': str(fill)}
        self.p = None

    def start(self):
        self.p = subprocess.Popen([self.exe, str(self.cpu)], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=self.env)

    def run(self, text):
        """-> wait status, result lines, stdout, stderr"""
        for attempt in (0, 1, 2):
            if self.p is None:
                self.start()
            try:
                b = text.encode()
                self.p.stdin.write(b'P %d\n' % len(b) + b)
                self.p.stdin.flush()
                h = self.p.stdout.readline().split()
                if len(h) != 5:
                    raise HarnessError('driver ended')
                ws, a, o, e = map(int, h[1:])
                r = self.p.stdout.read(a)
                return ws, r.decode(errors='replace').split('\n'), self.p.stdout.read(o), self.p.stdout.read(e)
            except (BrokenPipeError, OSError, HarnessError):
                self.stop()
                if attempt == 2:
                    raise HarnessError('driver does not answer')

    def stop(self):
        if self.p:
            try:
                self.p.stdin.close()
            except OSError:
                pass
            self.p.kill()
            self.p.wait()
            self.p = None

def text_of(ops):
    return ''.join(' '.join(map(str, op)) + '\n' for op in ops)

def parse_text(text):
    ops = []
    for line in text.splitlines():
        if line.strip():
            ops.append([int(x) if re.fullmatch(r'-?\d+', x) else x for x in line.split()])
    return ops

class Case:
    """One generated program and how it has to end.

    mode 'ok': every op gives what the model says, silent normal end
         'misuse': the last op must be refused
         'rep': as ok, and the 'rep' block must not make memory grow
         'warn': as ok, but may print (documented warnings, INFO builds)
         'oom': as ok, or the program stops with a message once the allocation has failed
         'abort': the last op must end the program with exit code `code`
    """
    def __init__(self, ops, variant='asan', mode='ok', kw=None, note='', stats=None, code=None):
        self.ops, self.variant, self.mode = ops, variant, mode
        self.kw, self.note, self.stats, self.code = kw or {}, note, stats or {}, code
    def key(self):
        return hashlib.md5((self.variant.partition('@')[0] + self.mode + text_of(self.ops)).encode()).digest()

def expect(case):
    """Expected tokens per op; Invalid if the program is not a valid one for its mode."""
    kw = dict(case.kw)
    warn = kw.pop('allow_warn', False)
    m = Lists() if kw.pop('lists', False) else Model(**kw)
    m.allow_warn = warn
    exp = []
    n = len(case.ops)
    for i, op in enumerate(case.ops):
        try:
            exp.append(m.apply(op))
        except Misuse as e:
            if case.mode in ('misuse', 'abort') and i == n - 1:
                exp.append(None)
                return exp, m
            raise Invalid('misuse: %s' % e)
    if case.mode in ('misuse', 'abort'):
        raise Invalid('no misuse')
    if m.inrep is not None:
        raise Invalid('unclosed rep')
    return exp, m

class Mismatch(Exception):
    pass

KIND = {'r': 'request', 'c': 'communicator', 't': 'datatype', 'g': 'group'}
RESERVED = {'r': {0}, 'c': {0, 1}, 't': {0} | set(range(-47, 0))}

def describe(ws, out, err):
    s = []
    if os.WIFSIGNALED(ws):
        s.append('killed by signal %d (%s)' % (os.WTERMSIG(ws), signal.Signals(os.WTERMSIG(ws)).name))
    elif os.WIFEXITED(ws) and os.WEXITSTATUS(ws):
        s.append('exit status %d' % os.WEXITSTATUS(ws))
    if out:
        s.append('stdout: ' + out[:300].decode(errors='replace').strip())
    if err:
        e = err.decode(errors='replace')
        m = re.search(r'ERROR: AddressSanitizer: .*', e)
        s.append('stderr: ' + (m.group(0) if m else e[:300].strip()))
    return '; '.join(s) or 'normal end'

def compare(case, exp, ws, lines, out, err):
    """None, or a description of the first disagreement."""
    if any(l.startswith('HARNESS') for l in lines[-3:]):
        raise HarnessError(lines[-1] if lines[-1].startswith('HARNESS') else '\n'.join(lines[-3:]))
    ended = len(lines) >= 2 and lines[-2] == 'END'
    body = lines[:-2] if ended else lines[:-1]
    ops = case.ops
    live = {'r': {}, 'c': {}, 't': {}}      # kind -> uid -> value
    vals = {k: set(v) for k, v in RESERVED.items()}
    for i, ex in enumerate(exp):
        if ex is None:                       # the misuse
            if i < len(body) or ended:
                return 'op %d (%s) returned instead of stopping the program' % (i, txt(ops[i]))
            break
        if i >= len(body) and case.mode == 'oom':
            bad = refused(ops[i], ws, out, err)
            case.stats['exhausted'] = 1
            case.stats['exhausted in ' + ops[i][0]] = 1
            return bad
        if i >= len(body):
            return 'op %d (%s) did not return: %s' % (i, txt(ops[i]), describe(ws, out, err))
        got = body[i].split()
        if callable(ex):
            bad = ex(got)
            if bad:
                return 'op %d (%s): %s' % (i, txt(ops[i]), bad)
            continue
        if len(got) != len(ex):
            return 'op %d (%s): expected %s, got %s' % (i, txt(ops[i]), show(ex), ' '.join(got)[:400])
        for j, (e, g) in enumerate(zip(ex, got)):
            if e is None:
                continue
            if isinstance(e, int):
                try:
                    ok = int(g) == e
                except ValueError:
                    ok = False
                if not ok:
                    return 'op %d (%s): result %d should be %d, is %s [expected %s, got %s]' % (
                        i, txt(ops[i]), j, e, g, show(ex), ' '.join(got)[:400])
                continue
            if isinstance(e, str):
                if g != e:
                    return 'op %d (%s): result %d: %s' % (i, txt(ops[i]), j, diff(e, g))
                continue
            try:
                v = int(g)
            except ValueError:
                return 'op %d (%s): result %d is %s' % (i, txt(ops[i]), j, g)
            k = e[0]
            if k == 'N':
                if v == 0:
                    return 'op %d (%s): null handle for a new %s' % (i, txt(ops[i]), KIND[e[1]])
                if v in vals[e[1]]:
                    return 'op %d (%s): new %s has handle %d, which is in use' % (i, txt(ops[i]), KIND[e[1]], v)
                live[e[1]][e[2]] = v
                vals[e[1]].add(v)
            elif k == 'H':
                for d in live.values():
                    if e[1] in d and d[e[1]] != v:
                        return 'op %d (%s): handle %d should have stayed %d' % (i, txt(ops[i]), v, d[e[1]])
            elif k == 'X':
                if v != 0:
                    return 'op %d (%s): the handle should be null, is %d' % (i, txt(ops[i]), v)
                for kk, d in live.items():
                    if e[1] in d:
                        vals[kk].discard(d.pop(e[1]))
            elif k == '0':
                if v != 0:
                    return 'op %d (%s): the handle should be null, is %d' % (i, txt(ops[i]), v)
            elif k == 'G1':
                if v in (0, -1):
                    return 'op %d (%s): group should be the one-process group, is %d' % (i, txt(ops[i]), v)
        if case.mode == 'rep' and ops[i][0] == 'endrep':
            bad = growth(ops, [int(x) for x in got])
            if bad:
                return 'op %d (%s): %s' % (i, txt(ops[i]), bad)
    if case.mode in ('misuse', 'abort'):
        bad = memory_error(ops[-1], ws, out, err)
        if bad:
            return bad
        if case.mode == 'abort':
            code = case.ops[-1][3]
            if not os.WIFEXITED(ws) or os.WEXITSTATUS(ws) != (code & 0xff):
                return 'MPI_Abort(%d): %s' % (code, describe(ws, out, err))
            return None
        return refused(ops[-1], ws, out, err)
    if ws != 0 or not ended:
        return 'the program did not end normally: %s' % describe(ws, out, err)
    if case.mode not in ('warn', 'oom') and (out or err):
        return 'a correct program printed something: %s' % describe(ws, out, err)
    return None

def memory_error(op, ws, out, err):
    if os.WIFEXITED(ws) and os.WEXITSTATUS(ws) == 99 and (b'Sanitizer' in err or b'runtime error' in err):
        return 'misuse %s: memory error instead of a clean refusal: %s' % (txt(op), describe(ws, out, err))
    if os.WIFSIGNALED(ws) and os.WTERMSIG(ws) in (signal.SIGSEGV, signal.SIGBUS, signal.SIGXCPU, signal.SIGKILL,
                                                  signal.SIGALRM, signal.SIGFPE, signal.SIGILL):
        return 'misuse %s: %s' % (txt(op), describe(ws, out, err))
    return None

def refused(op, ws, out, err):
    bad = memory_error(op, ws, out, err)
    if bad:
        return bad
    if ws == 0:
        return 'misuse %s: exit status 0' % txt(op)
    if not (out.strip() or err.strip()):
        return 'misuse %s: terminated without a message (%s)' % (txt(op), describe(ws, out, err))
    return None

GROWS = 'memory grows'

def growth(ops, mem):
    n = [op[1:] for op in ops if op[0] == 'rep'][0]
    g = [mem[i+1] - mem[i] for i in range(len(mem) - 1)]
    if len(g) >= 2 and all(x >= 4 * k for x, k in zip(g, n[1:])) and 3 * g[-1] * n[-2] >= g[-2] * n[-1]:
        return GROWS + ' by about %.1f bytes per repetition (allocated bytes after each batch: %s)' % (
            g[-1] / n[-1], mem)
    return None

def txt(op):
    s = ' '.join(map(str, op))
    return s if len(s) < 200 else s[:200] + '...'

def show(ex):
    r = []
    for e in ex:
        r.append('?' if e is None else {'N': '<new>', 'H': '<same>', 'X': '<null>', '0': '<null>',
                                        'G1': '<one>'}[e[0]] if isinstance(e, tuple) else str(e))
    s = ' '.join(r)
    return s if len(s) < 400 else s[:400] + '...'

def diff(e, g):
    if len(e) == len(g) and not e.startswith('crc'):
        for i in range(0, len(e), 2):
            if e[i:i+2] != g[i:i+2]:
                n = sum(e[k:k+2] != g[k:k+2] for k in range(0, len(e), 2))
                return 'byte %d should be %s, is %s (%d bytes differ)' % (i // 2, e[i:i+2], g[i:i+2], n)
    return 'should be %s, is %s' % (e[:80], g[:80])

class Pool:
    def __init__(self, cpu=20):
        self.d = {}
        self.cpu = cpu
    def get(self, variant):
        if variant not in self.d:
            self.d[variant] = Driver(variant, self.cpu)
        return self.d[variant]
    def stop(self):
        for d in self.d.values():
            d.stop()
        self.d = {}

def check_case(case, pool, exp=None):
    if exp is None:
        exp, m = expect(case)
    ws, lines, out, err = pool.get(case.variant).run(text_of(case.ops))
    try:
        msg = compare(case, exp, ws, lines, out, err)
    except (ValueError, IndexError, UnicodeError) as e:
        return 'the results cannot be read (%r): %s' % (e, describe(ws, out, err))
    if msg and GROWS in msg:
        # a store that fills up (a pool, a cache) stops growing: repeat for longer
        k = [op[0] for op in case.ops]
        k = min(1000, 3000000 // max(1, k.index('endrep') - k.index('rep')))
        ops = [['rep', 20, max(k, op[2]), max(k, op[2])] if op[0] == 'rep' else op for op in case.ops]
        if ops != case.ops:
            ws, lines, out, err = pool.get(case.variant).run(text_of(ops))
            case = Case(ops, case.variant, case.mode, case.kw)
            exp, m = expect(case)
            long = compare(case, exp, ws, lines, out, err)
            if long is None:
                return None
    return msg

# ---------------------------------------------------------------- shrinking

def fails(case, pool):
    """message if the case is valid and fails, else None"""
    try:
        exp, m = expect(case)
    except Invalid:
        return None
    try:
        return check_case(case, pool, exp)
    except HarnessError:
        return None

def clone(case, ops):
    return Case(ops, case.variant, case.mode, case.kw, case.note, None, case.code)

def shrink(case, pool, msg, budget=60.0, runs=3000):
    t0 = time.time()
    best, bmsg = case, msg
    left = [runs]
    def attempt(ops):
        nonlocal best, bmsg
        if left[0] <= 0 or time.time() - t0 > budget:
            return False
        left[0] -= 1
        c = clone(case, ops)
        m = fails(c, pool)
        if m:
            best, bmsg = c, m
            return True
        return False
    # cut the tail after the failing op
    mm = re.match(r'op (\d+) ', msg)
    if mm and case.mode in ('ok', 'warn'):
        attempt(case.ops[:int(mm.group(1)) + 1])
    changed = True
    while changed and left[0] > 0 and time.time() - t0 < budget:
        changed = False
        n = max(1, len(best.ops) // 2)
        while n >= 1:
            i = 0
            while i < len(best.ops):
                ops = best.ops[:i] + best.ops[i+n:]
                if ops and attempt(ops):
                    changed = True
                else:
                    i += n
            n //= 2
        # pairs that only go together (e.g. the posting of both sides)
        if not changed and len(best.ops) <= 14:
            for i in range(len(best.ops)):
                for j in range(i + 1, len(best.ops)):
                    if j < len(best.ops):
                        ops = [o for k, o in enumerate(best.ops) if k not in (i, j)]
                        if ops and attempt(ops):
                            changed = True
        for i in range(len(best.ops)):
            for j in range(1, len(best.ops[i])):
                x = best.ops[i][j]
                if x == 'f' and j == 1:
                    alts = ['c']
                elif isinstance(x, int) and x not in (0, 1):
                    alts = [0, 1, x // 2, x - 1 if x > 0 else x + 1]
                else:
                    alts = []
                for y in alts:
                    if y == x:
                        continue
                    ops = [list(o) for o in best.ops]
                    ops[i][j] = y
                    if attempt(ops):
                        changed = True
                        break
    return best, bmsg

def replay_obj(prop, case, msg):
    try:
        exp, m = expect(case)
        ex = [None if e is None else ('<special>' if callable(e) else show(e)) for e in exp]
    except Exception:
        ex = []
    return {'property': prop, 'variant': case.variant, 'mode': case.mode, 'kw': case.kw, 'note': case.note,
            'message': msg, 'program': text_of(case.ops).splitlines(), 'expected': ex}

def case_from(obj):
    return Case(parse_text('\n'.join(obj['program'])), obj['variant'], obj['mode'], obj['kw'], obj.get('note', ''))
