"""C16: every constant that mpif.h and mpi.h both define has one value."""
import os, re, subprocess, tempfile, shutil
from . import build as B

# the names mpif.h had when this was written, without the ones that have no C counterpart
NAMES = open(os.path.join(B.VERIF, 'harness', 'constants.txt')).read().split()
INDEX = ['MPI_SOURCE', 'MPI_TAG', 'MPI_ERROR']

def fortran_names():
    s = open(os.path.join(B.REPO, 'mpif.h')).read()
    s = re.sub(r'!.*', '', s)
    out = []
    for m in re.finditer(r'parameter\s*\(((?:[^()]|\([^()]*\))*)\)', s, re.I):
        out += re.findall(r'(\w+)\s*=', m.group(1))
    return sorted({x.upper() for x in out if x.upper().startswith('MPI_')})

def fortran(names, d, how='include "mpif.h"'):
    f = os.path.join(d, 'c.F90')
    with open(f, 'w') as h:
        h.write('program c\n %s\n' % how)
        for n in names:
            h.write(' print *, "%s", " ", %s\n' % (n, n))
        h.write('end program\n')
    p = subprocess.run(['gfortran', '-ffree-line-length-none', '-I' + B.REPO, '-J' + d, f, '-o', d + '/cf'], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT)
    if p.returncode:
        return None
    o = subprocess.run([d + '/cf'], stdout=subprocess.PIPE).stdout.decode().split()
    return {o[i]: int(o[i+1]) for i in range(0, len(o), 2)}

def cvals(names, d):
    """a constant of C: macro, enumerator or variable"""
    f = os.path.join(d, 'c.c')
    with open(f, 'w') as h:
        h.write('#include <stdio.h>\n#include <stddef.h>\n#include "mpi.h"\nint main(void){\n')
        for n in names:
            if n in INDEX:
                h.write('printf("%s %%ld\\n", (long)(offsetof(MPI_Status,%s)/sizeof(int))+1);\n' % (n, n))
            else:
                h.write('printf("%s %%ld\\n", (long)(%s));\n' % (n, n))
        h.write('return 0;}\n')
    p = subprocess.run(['gcc', '-w', '-I' + B.REPO, f, '-o', d + '/cc'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        return None
    o = subprocess.run([d + '/cc'], stdout=subprocess.PIPE).stdout.decode().split()
    return {o[i]: int(o[i+1]) for i in range(0, len(o), 2)}

def module(names, d):
    """as fortran(), through the module"""
    return fortran(names, d, 'use mpi')

DECLARED = open(os.path.join(B.VERIF, 'harness', 'functions.txt')).read().split()

def declared(d):
    """the supported calls that mpi.h does not declare"""
    f = os.path.join(d, 'd.c')
    def ok(names):
        with open(f, 'w') as h:
            h.write('#include "mpi.h"\ntypedef void (*fn)(void);\nint used(fn);\nint main(void){int n=0;\n')
            for n in names:
                h.write('#ifndef %s\nn+=used((fn)%s);\n#endif\n' % (n, n))
            h.write('return n;}\n')
        return not subprocess.run(['gcc', '-w', '-I' + B.REPO, '-c', f, '-o', d + '/d.o'], stdout=subprocess.PIPE,
                                  stderr=subprocess.STDOUT).returncode
    return [] if ok(DECLARED) else [n for n in DECLARED if not ok([n])]

def each(fn, names, d):
    v = fn(names, d)
    if v is not None:
        return v
    out = {}
    for n in names:
        out.update(fn([n], d) or {})
    return out

def compare():
    d = tempfile.mkdtemp(prefix='consts-', dir=B.BUILD)
    try:
        names = sorted(set(NAMES) | set(fortran_names()))
        f, c = each(fortran, names, d), each(cvals, names, d)
        bad = ['mpi.h does not declare %s' % n for n in declared(d)]
        m = subprocess.run(['gfortran', '-w', '-ffree-line-length-none', '-I' + B.REPO, '-J' + d, '-c', B.REPO + '/mpif.F90',
                            '-o', d + '/m.o'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if m.returncode:
            bad.append('the Fortran module does not compile: ' + m.stdout.decode(errors='replace')[-300:])
        else:
            u = each(module, names + ['MPI_ADDRESS_KIND'], d)
            bad += ['%s is %s in the module mpi and %d in mpif.h' % (n, u.get(n, 'missing'), f[n])
                    for n in names if n in f and u.get(n) != f[n]]
            if u.get('MPI_ADDRESS_KIND') != 8:
                bad.append('MPI_ADDRESS_KIND is %s, an address has 8 bytes' % u.get('MPI_ADDRESS_KIND', 'missing'))
        for n in names:
            if n in NAMES and (n not in f or n not in c):
                bad.append('%s is missing from %s' % (n, 'mpif.h' if n not in f else 'mpi.h'))
            elif n in f and n in c and f[n] != c[n]:
                bad.append('%s is %d in mpif.h and %d in mpi.h' % (n, f[n], c[n]))
        return '; '.join(bad), len(set(f) & set(c)) + len(DECLARED)
    finally:
        shutil.rmtree(d, ignore_errors=True)

if __name__ == '__main__':
    import sys
    d = tempfile.mkdtemp()
    n = fortran_names()
    f, c = each(fortran, n, d), each(cvals, n, d)
    shutil.rmtree(d)
    print('\n'.join(x for x in n if x in f and x in c))
