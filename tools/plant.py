"""plant.py new ID PROP FILE OLD NEW ... | verify ID | run ID [PROP...]
   works in a copy of /repo under /tmp/plant; never touches /repo itself"""
import sys, os, subprocess, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get('PLANT', '/tmp/plant')
R = os.environ.get('PLANT_REPO', '/repo')

def sh(c, **k):
    return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def fresh():
    """W/repo: as /repo's HEAD, with W/vp its build and test scripts"""
    if os.path.isdir(W + '/vp'):
        sh('git -C %s/repo checkout -q -- . && git -C %s/repo fetch -q %s HEAD && git -C %s/repo reset -q --hard FETCH_HEAD' % (W, W, R, W))
        return
    os.makedirs(W, exist_ok=True)
    print(sh('cp -a %s %s/repo && cp -a /opt/vp %s/vp' % (R, W, W)).stdout)
    print(sh("grep -rlE '/repo|/opt/vp' %s/vp | xargs sed -i 's#/opt/vp#%s/vp#g; s#/repo\\b#%s/repo#g'" % (W, W, W)).stdout)
    sh('rm -rf %s/repo/_build' % W)

def build():
    p = sh('bash %s/vp/build.sh' % W)
    return p.returncode, p.stdout

def tests():
    p = sh('bash %s/vp/test.sh %s/out.json' % (W, W))
    o = json.load(open(W + '/out.json'))
    return o

def demo(i):
    d = W + '/demo'
    sh('rm -rf ' + d)
    shutil.copytree(V + '/seeded/' + i, d)
    p = sh('bash %s/demo.sh' % d, cwd=W + '/repo', timeout=300)
    return p.returncode, p.stdout

def passing(o):
    if isinstance(o, dict):
        for k in ('passed', 'pass'):
            if k in o:
                return set(o[k])
    return None

def verify(i):
    fresh()
    print(build()[0], end=' ')
    rc, out = demo(i)
    ok = rc == 0
    print('clean demo', rc, out[-300:] if rc else '')
    a = sh('git -C %s/repo apply %s/seeded/%s/patch.diff' % (W, V, i))
    if a.returncode:
        print('does not apply', a.stdout)
        return False
    rc, out = build()
    if rc:
        print('does not build', out[-2000:])
        ok = False
    base = json.load(open('/opt/vp/BASELINE.json'))
    t = tests()
    b = set(base.get('stable') or base.get('tests') or [])
    pt = passing(t)
    if b and pt is not None:
        lost = b - pt
        if lost:
            print('tests lost', sorted(lost)[:8])
            ok = False
    else:
        print('cannot read test results', list(base)[:5], list(t)[:5])
    rc, out = demo(i)
    print('patched demo', rc, out[-300:])
    if rc == 0:
        ok = False
    print(i, 'COUNTS' if ok else 'DOES NOT COUNT')
    sh('git -C %s/repo checkout -q -- .' % W)
    return ok

def run(i, props):
    fresh()
    a = sh('git -C %s/repo apply %s/seeded/%s/patch.diff' % (W, V, i))
    assert not a.returncode, a.stdout
    res = {}
    for p in props or [json.load(open('%s/seeded/%s/meta.json' % (V, i)))['property']]:
        r = sh([V + '/check', p, 'quick'], env=dict(os.environ, VERIF_REPO=W + '/repo'))
        lines = r.stdout.strip().splitlines()
        print(i, p, r.returncode, lines[-2] if len(lines) > 1 else lines, flush=True)
        res[p] = r.returncode
    sh('git -C %s/repo checkout -q -- .' % W)
    return res

def new(i, prop, needs, what, edits):
    fresh()
    for f, old, nw in edits:
        s = open('%s/repo/%s' % (W, f)).read()
        assert s.count(old) == 1, (f, old, s.count(old))
        open('%s/repo/%s' % (W, f), 'w').write(s.replace(old, nw))
    d = sh('git -C %s/repo diff' % W).stdout
    os.makedirs('%s/seeded/%s' % (V, i), exist_ok=True)
    open('%s/seeded/%s/patch.diff' % (V, i), 'w').write(d)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what},
              open('%s/seeded/%s/meta.json' % (V, i), 'w'), indent=1)
    sh('git -C %s/repo checkout -q -- .' % W)

if __name__ == '__main__':
    c = sys.argv[1]
    if c == 'verify':
        for i in sys.argv[2:]:
            verify(i)
    elif c == 'run':
        run(sys.argv[2], sys.argv[3:])
    elif c == 'runall':
        for i in sorted(os.listdir(V + '/seeded')):
            run(i, [])
    elif c == 'verifyall':
        print([i for i in sorted(os.listdir(V + '/seeded')) if not verify(i)])
