"""Builds the driver from /repo's working tree into /verif/build (keyed by content)."""
import glob, hashlib, os, time, subprocess, sys, shutil, tempfile, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
HARN = os.path.join(VERIF, 'harness')

class BuildError(Exception):
    pass

# variant -> (cflags, fflags, config.h extra)
BASE = ['-g', '-w']            # as configure's own, apart from the warnings
VARIANTS = {
    'asan':  (['-O1', '-fsanitize=address', '-fno-omit-frame-pointer',
               '-ftrivial-auto-var-init=pattern'], []),
    'plain': (['-O2'], []),
    'tc':    (['-O2'], ['TYPE_CHECKING']),
    'info':  (['-O2'], ['INFO']),
    'all':   (['-O2'], ['TYPE_CHECKING', 'INFO', 'HANDLE_INFO', 'CONFIG_FORT_REAL 8', 'CONFIG_FORT_DOUBLE 16']),
    'r8':    (['-O2'], ['CONFIG_FORT_REAL 8', 'CONFIG_FORT_DOUBLE 16']),
    'r16':   (['-O2'], ['CONFIG_FORT_REAL 16', 'CONFIG_FORT_DOUBLE 32']),
    'd4':    (['-O2'], ['CONFIG_FORT_REAL 4', 'CONFIG_FORT_DOUBLE 4']),
    # configured sizes that are not the compiler's: Fortran's mpi_init has to refuse
    'x84':   (['-O2'], ['CONFIG_FORT_REAL 8', 'CONFIG_FORT_DOUBLE 8']),
    'x44':   (['-O2'], ['CONFIG_FORT_REAL 4', 'CONFIG_FORT_DOUBLE 4']),
    'xdef':  (['-O2'], []),
    # list.c alone, under harness/listdrv.c
    'list':  (['-O1', '-fsanitize=address', '-fno-omit-frame-pointer'], []),
    'listchk': (['-O2'], ['CHECKS']),
    'checks': (['-O2'], ['CHECKS']),
    # the Fortran names of mpiP.h, for builds without config.h
    'f_':    (['-O2'], []),
    'f2c':   (['-O2'], []),
    'fsame': (['-O2'], []),
    'fcaps': (['-O2'], []),
    # configure --enable-test-internal
    'tint':  (['-O2'], ['TEST_INTERNAL']),
    'tcasan': (['-O1', '-fsanitize=address', '-ftrivial-auto-var-init=zero'],
               ['TYPE_CHECKING', 'INFO']),
}

# the compiler options that give Fortran the configured sizes ('r16' has none in gfortran: C start only)
FFLAGS = {'f2c': ['-fsecond-underscore'], 'fsame': ['-fno-underscoring'], 'xdef': ['-fdefault-real-8'], 'all': ['-fdefault-real-8'], 'r8': ['-fdefault-real-8'], 'd4': ['-freal-8-real-4']}
FSIZES = {'all': (8, 16), 'r8': (8, 16), 'r16': (16, 32), 'd4': (4, 4), 'x84': (8, 8), 'x44': (4, 4)}
XSIZES = ['x84', 'x44', 'xdef', 'r16']

# variant -> what mpiP.h wants defined, and how one of its names becomes gfortran's usual one
NAMES = {'f_': ('FORTRANUNDERSCORE', None), 'f2c': ('FORTRAN_GNUF2C', lambda n: n[:-1] if n.endswith('__') else n),
         'fsame': ('FORTRAN_SAME', lambda n: n + '_'),
         'fcaps': ('FORTRAN_CAPS_', lambda n: n.lower() + '_' if n.isupper() else n)}

def _rename(variant, d):
    """gives the Fortran entry points the names that the driver calls"""
    how = NAMES[variant][1]
    def syms(f):
        o = subprocess.run(['nm', '-g', f], stdout=subprocess.PIPE, text=True).stdout
        return {x.split()[-1] for x in o.splitlines() if x.strip()}
    want = {x for x in syms(d + '/driver.c.o') if x.endswith('_')}
    if variant == 'fcaps':                   # gfortran has no option for these
        want |= {x for f in glob.glob(d + '/*.F90.o') for x in syms(f)}
    for o in glob.glob(d + '/*.o'):
        m = [(x, how(x)) for x in sorted(syms(o)) if how(x) in want and how(x) != x]
        if m and not o.endswith('driver.c.o'):
            c = ['objcopy'] + ['--redefine-sym=%s=%s' % x for x in m] + [o]
            p = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                raise BuildError('%s\n%s' % (' '.join(c), p.stdout.decode(errors='replace')))

def _files():
    src = sorted(glob.glob(REPO + '/*.c'))
    hdr = sorted(glob.glob(REPO + '/*.h'))
    f90 = sorted(glob.glob(REPO + '/*.F90'))
    har = sorted(glob.glob(HARN + '/*'))
    return src, hdr, f90, har

def tree_hash(variant):
    h = hashlib.sha256(variant.encode())
    h.update(repr((VARIANTS[variant], FFLAGS.get(variant))).encode())
    for group in _files():
        for f in group:
            h.update(os.path.basename(f).encode() + b'\0')
            h.update(open(f, 'rb').read())
    return h.hexdigest()[:20]

def build(variant):
    """Path of the driver for this variant; BuildError if /repo does not build so."""
    os.makedirs(BUILD, exist_ok=True)
    key = tree_hash(variant)
    out = os.path.join(BUILD, '%s-%s' % (variant, key))
    with open(os.path.join(BUILD, '.lock-' + variant), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out
        for old in glob.glob(os.path.join(BUILD, variant + '-*')):
            try:
                if time.time() - os.path.getmtime(old) > 3600:
                    os.unlink(old)
            except OSError:
                pass
        d = tempfile.mkdtemp(prefix='tmp-', dir=BUILD)
        try:
            _build(variant, d, os.path.join(d, 'driver'))
            os.rename(os.path.join(d, 'driver'), out)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return out

def _build(variant, d, exe, rest=False):
    cflags, defs = VARIANTS[variant]
    # what configure writes for gfortran on Linux, plus the option's define
    with open(d + '/config.h', 'w') as f:
        f.write('#define FC_FUNC(name,NAME) name ## _\n#define FC_FUNC_(name,NAME) name ## _\n'
                '#define HAVE_INTTYPES_H 1\n#define HAVE_STDINT_H 1\n#define HAVE_STDIO_H 1\n'
                '#define HAVE_STDLIB_H 1\n#define HAVE_STRINGS_H 1\n#define HAVE_STRING_H 1\n'
                '#define HAVE_SYS_STAT_H 1\n#define HAVE_SYS_TYPES_H 1\n#define HAVE_UNISTD_H 1\n'
                '#define PACKAGE "mpi-serial"\n#define PACKAGE_VERSION "2.5.0"\n#define VERSION "2.5.0"\n'
                '#define SIZEOF_LONG 8\n#define STDC_HEADERS 1\n')
        defs = [x for x in defs if x != 'CHECKS']          # list.c does not read config.h
        for x in defs:
            f.write('#define %s\n' % x)
    src, hdr, f90, har = _files()
    main = HARN + '/driver.c'
    if variant.startswith('list'):
        if not rest:
            src, f90 = [REPO + '/list.c'], None
        main = HARN + '/listdrv.c'
    inc = ['-I' + d, '-I' + REPO, '-DHAVE_CONFIG_H'] + (['-DCHECKS'] if 'CHECKS' in VARIANTS[variant][1] else [])
    cinc = ['-I' + REPO, '-D' + NAMES[variant][0]] if variant in NAMES else inc
    cmds = []
    for s in src + [main]:
        cmds.append(['gcc', *BASE, *(['-fno-strict-aliasing'] if s.startswith(HARN) else []), *cflags, *(inc if s == main else cinc), '-I' + HARN, '-c', s, '-o',
                     d + '/' + os.path.basename(s) + '.o'])
    ffl = FFLAGS.get(variant, [])
    san = [x for x in cflags if x.startswith('-fsanitize') or x.startswith('-O')]
    ff = ['-ffree-line-length-none', '-fallow-argument-mismatch', '-w', '-J' + d]
    for s in f90 + ([] if rest else [HARN + '/fhelp.F90']) if f90 is not None else []:
        cmds.append(['gfortran', '-g', *san, *ff, *ffl, *inc, '-c', s, '-o',
                     d + '/' + os.path.basename(s) + '.o'])
    procs = []
    for c in cmds:
        procs.append((c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=d)))
    bad = []
    for c, p in procs:
        o = p.communicate()[0].decode(errors='replace')
        if p.returncode:
            bad.append('%s\n%s' % (' '.join(c), o))
    if bad:
        raise BuildError('\n'.join(bad))
    if NAMES.get(variant, (0, 0))[1]:
        _rename(variant, d)
    objs = sorted(glob.glob(d + '/*.o'))
    wrap = [] if variant.startswith('list') else [
        '-Wl,' + ','.join('--wrap=' + x for x in ('malloc', 'free', 'calloc', 'realloc'))]
    c = ['gcc', *san, *wrap, *objs, '-o', exe, '-lgfortran', '-lm']
    p = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=d)
    if p.returncode and variant.startswith('list') and not rest:   # list.c needs other files by now
        for o in objs:
            os.unlink(o)
        return _build(variant, d, exe, True)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(c), p.stdout.decode(errors='replace')))

if __name__ == '__main__':
    for v in sys.argv[1:] or VARIANTS:
        print(v, build(v))
