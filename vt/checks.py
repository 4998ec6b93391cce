"""check <property> quick|thorough: generate, run, compare, shrink, report."""
import sys, os, json, time, random, hashlib, multiprocessing, traceback, collections
from . import build as B, run as R, props as P, consts
from .model import Invalid, Misuse
from .gen import Quit

VERIF = B.VERIF
SHARDS = 8
WALL = float(os.environ.get('VERIF_WALL', 660))     # a run longer than this stops early, and says so

# id: generator, cases (quick, thorough) to ask the generator for, is-non-trivial, rule
def S(*names):
    return lambda s: any(s.get(n) for n in names)
def A(*names):
    return lambda s: all(s.get(n) for n in names)

TABLE = {
 'C01': (P.c01, 27000, 270000, lambda s: s.get('bytes', 0) > 0 and (s.get('recv_first') or s.get('send_first')),
         'random two-sided programs over random type trees; non-trivial: at least one message with data was delivered'),
 'C02': (P.c02, 18000, 180000, lambda s: s.get('middle') or s.get('wild') or s.get('deep'),
         'random queue histories on several communicators; non-trivial: some match took a wildcard or skipped an earlier pending operation'),
 'C03': (P.c03, 25000, 250000, lambda s: s.get('test_pending') or s.get('freed_pending'),
         'random request histories; non-trivial: a pending request was tested or freed'),
 'C04': (P.c04, 16000, 160000, S('skip_null', 'skip_pending', 'testall_mixed', 'some_mixed', 'no_active', 'wide'),
         'random request arrays; non-trivial: an array call met null, pending and complete requests in a mixture, or no active request'),
 'C05': (P.c05, 25000, 250000, S('getcount', 'getelem', 'proc_null'),
         'random programs; non-trivial: a count was asked of a status, or a PROC_NULL receive completed'),
 'C06': (P.c06, 18000, 180000, S('probe_hit'),
         'random histories with probes (and the same ones without); non-trivial: a probe found a message'),
 'C07': (P.c07, 30000, 300000, lambda s: s.get('ops', 0) > 5,
         'random type expressions and their geometry; non-trivial: more than five ops'),
 'C08': (P.c08, 24000, 240000, lambda s: s.get('bytes', 0) + s.get('packed', 0) + s.get('unpacked', 0) > 0,
         'families of constructor expressions of one layout; non-trivial: data moved through one of them'),
 'C09': (P.c09, 36000, 360000, lambda s: s.get('packed') or s.get('misuse'),
         'random pack/unpack sequences, regrouped, transported, exact-fit or overflowing; non-trivial: bytes were packed, or an overflow had to be refused'),
 'C10': (P.c10, 22000, 220000, lambda s: s.get('bytes', 0) > 0,
         'random collectives; non-trivial: a collective moved data'),
 'C11': (P.c11, 30000, 300000, S('inplace', 'root'),
         'random collectives in place or with MPI_ROOT; non-trivial: one such call'),
 'C12': (P.c12, 27000, 270000, lambda s: s.get('matched', 0) > 0,
         'random communicator histories with traffic; non-trivial: a message was matched'),
 'C13': (P.c13, 40000, 400000, lambda s: s.get('ops', 0) > 5,
         'random group expressions; non-trivial: more than five ops'),
 'C14': (P.c14, 8000, 80000, lambda s: s.get('scale') or s.get('ops', 0) > 100,
         'populations of live handles: random programs behind hundreds of handles, and scale runs up to 250k; non-trivial: at least 100 ops or a scale run'),
 'C15': (P.c15, 4500, 45000, lambda s: s.get('repeated_ops', 0) > 5000,
         'balanced random programs repeated in one process, allocated bytes compared between batches; non-trivial: over 5000 repeated ops'),
 'C16': (P.c16, 6500, 65000, lambda s: s.get('ops', 0) > 20,
         'random programs with every call through Fortran, C, or a random mixture; non-trivial: more than 20 ops'),
 'C17': (P.c17, 40000, 400000, S('misuse'),
         'random correct prefix and one misuse (or none); non-trivial: ends in a misuse'),
 'C18': (P.c18, 8000, 80000, S('far', 'absolute', 'fargeom'),
         'types and transfers beyond 32-bit displacements, absolute addresses; non-trivial: such a type was used'),
 'C19': (P.c19, 9000, 90000, lambda s: s.get('matched', 0) > 0,
         'random programs, and the same ones with other send and receive forms; non-trivial: a message was matched'),
 'C20': (P.c20, 40000, 400000, lambda s: s.get('cart') or s.get('misuse'),
         'random cart calls; non-trivial: one cart call at least'),
 'C21': (P.c21, 50000, 500000, S('envops'),
         'random environment calls under faked host names and clocks; non-trivial: at least one inquiry'),
 'C22': (P.c22, 14000, 140000, lambda s: s.get('bytes', 0) + s.get('packed', 0) > 0 or s.get('misuse') or s.get('mismatch'),
         'random programs under eight other builds, element sequences that differ under type checking; non-trivial: data moved or a mismatch had to be judged'),
 'C23': (P.c23, 10000, 100000, lambda s: s.get('bytes', 0) > 0,
         'long mixed programs under AddressSanitizer and several memory fill bytes; non-trivial: data moved'),
 'C25': (P.c25, 20000, 200000, lambda s: s.get('exhausted') or s.get('misuse'),
         'random programs in which an allocation of the library fails, datatypes of 2^31 elements and more, more objects than handles; non-trivial: the program was stopped by it'),
 'C24': (P.c24, 60000, 600000, lambda s: s.get('deletions', 0) > 1,
         'random histories of lists and items; non-trivial: at least two deletions'),
}

VARIANTS = {'C24': ['list', 'listchk'], 'C22': ['asan'] + P.V22 + [v for v in B.XSIZES if v not in P.V22], 'C14': ['asan', 'plain'], 'C17': ['asan', 'plain'], 'C25': ['asan', 'plain']}

def known():
    """{(property, key): text} of the listed findings"""
    out = {}
    try:
        for line in open(os.path.join(VERIF, 'known_findings.txt')):
            line = line.strip()
            if line.startswith('finding: '):
                f = dict(x.split('=', 1) for x in line.split()[1:3])
                out[(f['property'], f['key'])] = line.split(None, 3)[3]
    except OSError:
        pass
    return out

def shard(args):
    prop, tier, seed, sh, n, t0, stop = args
    gen, nontriv = TABLE[prop][0], TABLE[prop][3]
    pool = R.Pool()
    res = dict(evals=0, nontriv=set(), stats=collections.Counter(), samples=[], skipped=0, harness=0, fail=None,
               variants=collections.Counter(), modes=collections.Counter(), early=False, programs=0)
    try:
        for i in (i for i in range(n) if (i + i // SHARDS + i // 64) % SHARDS == sh):
            if stop.is_set():
                break
            if time.time() - t0 > WALL:
                res['early'] = True
                break
            r = random.Random('%s:%s:%s:%d' % (prop, seed, 'T' if tier == 'thorough' else 'Q', i))
            try:
                cases = gen(r, i, tier)
            except (P.Skip, Quit, Invalid):
                res['skipped'] += 1
                continue
            except Misuse as e:         # the generator wrote a program the model refuses: a fault of the generator
                res['skipped'] += 1
                res['stats']['generator_misuse'] += 1
                if os.environ.get('VERIF_DEBUG'):
                    traceback.print_exc()
                continue
            res['programs'] += 1
            for c in cases:
                exp = getattr(c, 'exp', None)
                try:
                    if exp is None or len(exp) != len(c.ops) or c.kw.get('allow_warn'):
                        exp, _ = R.expect(c)
                except Invalid:
                    res['skipped'] += 1
                    continue
                try:
                    msg = R.check_case(c, pool, exp)
                except R.HarnessError:
                    res['harness'] += 1
                    continue
                res['evals'] += 1
                res['variants'][c.variant.partition('@')[0]] += 1
                res['modes'][c.mode] += 1
                for k, v in c.stats.items():
                    res['stats'][k] += v
                if nontriv(c.stats):
                    res['nontriv'].add(c.key())
                    if len(res['samples']) < 1 and len(c.ops) < 60:
                        res['samples'].append({'variant': c.variant, 'mode': c.mode, 'program': R.text_of(c.ops).splitlines()})
                if msg:
                    # the same outcome every time?
                    again = 0
                    for _ in range(3):
                        try:
                            if R.check_case(c, pool, exp):
                                again += 1
                        except R.HarnessError:
                            pass
                    if again < 3:
                        res['stats']['unreproduced'] += 1
                        if again == 0:
                            continue
                    res['fail'] = (i, R.clone(c, c.ops), msg)
                    stop.set()
                    break
            if res['fail']:
                break
    finally:
        pool.stop()
    return res

def signature(prop, case, msg):
    return hashlib.md5((prop + case.mode + R.text_of(case.ops)).encode()).hexdigest()[:12]

def violation(prop, path, what):
    print('property %s: %s' % (prop, what))
    print('VIOLATION property=%s replay=%s' % (prop, path))
    sys.stdout.flush()

def save(prop, name, obj):
    d = os.path.join(VERIF, 'violations')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%s.json' % (prop, name))
    with open(p, 'w') as f:
        json.dump(obj, f, indent=1)
    return p

def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    n = int(TABLE[prop][1 if tier == 'quick' else 2] * scale)
    cov = {}
    viol = 0
    for k, v in known().items():
        if k[0] == prop:
            print('KNOWN-FINDING: property=%s %s' % (prop, v))
    # builds
    for v in VARIANTS.get(prop, ['asan', 'plain']):
        try:
            B.build(v)
        except B.BuildError as e:
            if prop == 'C22' and v not in ('asan', 'plain'):
                p = save(prop, 'build-' + v, {'property': prop, 'kind': 'build', 'variant': v, 'message': str(e)[-3000:]})
                violation(prop, p, 'the build option set %r does not build:\n%s' % (v, str(e)[-1500:]))
                evidence(prop, tier, seed, {'evaluations': 1, 'distinct_nontrivial': 1, 'rule': TABLE[prop][4],
                                            'samples': [v]}, t0, 1)
                return 1
            print('cannot build /repo: %s' % str(e)[-3000:])
            return 2
    extra = 0
    if prop == 'C16':
        bad, extra = consts.compare()
        if bad:
            p = save(prop, 'constants', {'property': prop, 'kind': 'constants', 'message': bad})
            violation(prop, p, bad)
            viol = 1
        cov['constants_compared'] = extra
    if not viol:
        with multiprocessing.Manager() as man:
            stop = man.Event()
            with multiprocessing.Pool(SHARDS) as mp:
                rs = mp.map(shard, [(prop, tier, seed, s, n, t0, stop) for s in range(SHARDS)], chunksize=1)
    else:
        rs = []
    stats, variants, modes = collections.Counter(), collections.Counter(), collections.Counter()
    keys, samples = set(), []
    for r in rs:
        stats.update(r['stats'])
        variants.update(r['variants'])
        modes.update(r['modes'])
        keys |= r['nontriv']
        samples += r['samples']
    evals = sum(r['evals'] for r in rs)
    cov.update({'evaluations': evals + extra, 'distinct_nontrivial': len(keys) + extra, 'rule': TABLE[prop][4],
                'samples': samples[:3] or ['none'], 'calls': int(stats['ops']), 'programs_generated': sum(r['programs'] for r in rs),
                'generator_skipped': sum(r['skipped'] for r in rs), 'harness_errors': sum(r['harness'] for r in rs),
                'variants': dict(variants), 'modes': dict(modes), 'features': {k: int(v) for k, v in sorted(stats.items())},
                'stopped_early': any(r['early'] for r in rs)})
    fails = sorted([r['fail'] for r in rs if r['fail']], key=lambda f: f[0])
    if fails:
        i, c, msg = fails[0]
        pool = R.Pool(cpu=10)
        try:
            c2, msg2 = R.shrink(c, pool, msg, budget=50)
        except Exception:
            c2, msg2 = c, msg
        pool.stop()
        obj = R.replay_obj(prop, c2, msg2)
        obj['case'] = i
        obj['seed'] = seed
        if getattr(c, 'code', None) is not None:
            obj['code'] = c.code
        path = save(prop, signature(prop, c2, msg2), obj)
        print('\n'.join(obj['program'][:60]))
        if c2.note:
            print('# ' + c2.note)
        violation(prop, path, msg2)
        viol = 1
    evidence(prop, tier, seed, cov, t0, viol)
    if not viol:
        print('property %s: held on %d runs (%d distinct non-trivial, %d calls), %.0f s' % (
            prop, cov['evaluations'], cov['distinct_nontrivial'], cov['calls'], time.time() - t0))
        if not cov['evaluations'] or cov['harness_errors'] > cov['evaluations'] // 20:
            print('too many harness errors: %d' % cov['harness_errors'])
            return 2
    return viol

ASSUME = ['the reference model vt/model.py states the property correctly',
          'gcc and gfortran compile /repo as its own build does; harness/driver.c calls only the public interface',
          'generated search: absence of failures is evidence up to the generated cases, not proof']

def evidence(prop, tier, seed, cov, t0, viol):
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + '.json'), 'w') as f:
        json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
                   'assumptions': ASSUME, 'wall_s': round(time.time() - t0, 1), 'violations': viol}, f, indent=1)
        f.write('\n')

def replay(path):
    obj = json.load(open(path))
    prop = obj['property']
    if obj.get('kind') == 'build':
        try:
            B.build(obj['variant'])
        except B.BuildError as e:
            violation(prop, path, str(e)[-1500:])
            return 1
        print('builds')
        return 0
    if obj.get('kind') == 'constants':
        bad, n = consts.compare()
        if bad:
            violation(prop, path, bad)
            return 1
        print('constants agree')
        return 0
    c = R.case_from(obj)
    if 'code' in obj:
        c.code = obj['code']
    pool = R.Pool()
    exp, _ = R.expect(c)
    ws, lines, out, err = pool.get(c.variant).run(R.text_of(c.ops))
    msg = R.compare(c, exp, ws, lines, out, err)
    pool.stop()
    for k, op in enumerate(c.ops):
        print('%-60s -> %s' % (R.txt(op), lines[k] if k < len(lines) else '-'))
    print(R.describe(ws, out, err))
    if msg:
        violation(prop, path, msg)
        return 1
    print('agrees with the model')
    return 0

def main(a):
    if a[0] == 'replay':
        return replay(a[1])
    if a[0] == 'setup':
        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(4) as ex:
            for v in ex.map(B.build, B.VARIANTS):
                print(v)
        return 0
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    return check(a[0], tier)

if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
