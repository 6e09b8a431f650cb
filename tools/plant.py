#!/usr/bin/env python3
"""Create and validate planted bugs (seeded/<id>/).

usage: plant.py SPEC.py [id ...]      build seeded/<id> from the specs and validate them
       plant.py --recheck [id ...]    run the checks against the seeded bugs again

SPEC.py defines BUGS, a list of dicts: id, property, needs, breaks, edits=[(file, old, new)], demo (python source).
Works only in scratch copies of /repo under /tmp.
"""
import concurrent.futures as cf, json, os, runpy, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '17b0a8c'
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, HOME='/root', LANG='C.UTF-8', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg',
           MKL_THREADING_LAYER='SEQUENTIAL', MKL_NUM_THREADS='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
STABLE = [s.replace('tests.', 'tests/', 1).replace('.Test', '.py::Test', 1).replace('tests/test_nonlinear_solvers.py', 'tests/test_nonlinear_solvers.py')
          for s in json.load(open('/opt/vp/BASELINE.json'))['stable']]

def sh(cmd, cwd, env=None, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode('utf8', 'replace')

def base_only(copy, patch):
    """every removed line must stem from the original repository"""
    mine = set(subprocess.run(['git', 'log', '--format=%H', BASE + '..HEAD'], cwd='/repo', capture_output=True, text=True).stdout.split())
    cur = None; ln = 0; bad = []
    blame = {}
    for l in patch.splitlines():
        if l.startswith('--- a/'):
            cur = l[6:]
            b = subprocess.run(['git', 'blame', '-l', '-s', '--root', cur], cwd='/repo', capture_output=True, text=True).stdout.splitlines()
            blame[cur] = [x.split()[0].lstrip('^') for x in b]
        elif l.startswith('@@'):
            ln = int(l.split()[1].split(',')[0][1:])
        elif l.startswith('+++'):
            pass
        elif l.startswith('-'):
            if blame[cur][ln - 1] in mine: bad.append('%s:%d' % (cur, ln))
            ln += 1
        elif l.startswith(' '):
            ln += 1
    return bad

def check(copy, prop, tier='quick'):
    env = dict(ENV, VT_REPO=copy, VERIF_SEED='1', VERIF_TIER=tier)
    rc, out = sh([os.path.join(VERIF, 'check'), prop, '--noev'], VERIF, env, 1200)
    v = [l for l in out.splitlines() if l.startswith('VIOLATION property=%s' % prop)]
    return rc, v, out

def do(b):
    copy = tempfile.mkdtemp(prefix='bug.', dir='/tmp')
    log = []
    try:
        subprocess.run(['cp', '-a', '/repo/.', copy], check=True)
        d = os.path.join(VERIF, 'seeded', b['id'])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'demo.py'), 'w').write(b['demo'])
        open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/sh\n# run in the repository, after the build\n'
             'here=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONPATH="$PWD" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 '
             'MKL_THREADING_LAYER=SEQUENTIAL MKL_NUM_THREADS=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1\n'
             'exec /opt/venv/bin/python "$here/demo.py" 2>/dev/null\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        rc0, o0 = sh(['sh', os.path.join(d, 'demo.sh')], copy, timeout=300)
        for f, old, new, *k in b['edits']:
            p = os.path.join(copy, f); s = open(p).read()
            if k:           # the k-th occurrence
                parts = s.split(old)
                if len(parts) <= k[0] + 1: return b['id'], 'BADEDIT %s count %d' % (f, s.count(old)), ''
                s = old.join(parts[:k[0] + 1]) + new + old.join(parts[k[0] + 1:])
            else:
                if s.count(old) != 1: return b['id'], 'BADEDIT %s count %d' % (f, s.count(old)), ''
                s = s.replace(old, new)
            open(p, 'w').write(s)
        patch = subprocess.run(['git', 'diff'], cwd=copy, capture_output=True, text=True).stdout
        open(os.path.join(d, 'patch.diff'), 'w').write(patch)
        bad = base_only(copy, patch)
        rc1, o1 = sh(['sh', os.path.join(d, 'demo.sh')], copy, timeout=300)
        rct, ot = sh([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider'] + STABLE, copy, dict(ENV, PYTHONPATH=copy))
        rcc, v, oc = check(copy, b['property'])
        st = 'demo clean=%d bug=%d  tests=%s  mylines=%s  CHECK rc=%d %s' % (rc0, rc1, 'ok' if rct == 0 else 'FAIL', bad, rcc, 'CAUGHT' if rcc == 1 and v else 'MISSED')
        ok = rc0 == 0 and rc1 != 0 and rct == 0 and not bad
        info = '' if ok and rcc == 1 else '\n'.join(['-- clean: ' + o0[-600:], '-- bug: ' + o1[-600:], '-- tests: ' + ot[-800:], '-- check: ' + oc[-600:]])
        return b['id'], ('VALID ' if ok else 'INVALID ') + st, info
    finally:
        shutil.rmtree(copy, ignore_errors=True)

def recheck(i, tier='quick'):
    d = os.path.join(VERIF, 'seeded', i); m = json.load(open(os.path.join(d, 'meta.json')))
    copy = tempfile.mkdtemp(prefix='bug.', dir='/tmp')
    try:
        subprocess.run(['cp', '-a', '/repo/.', copy], check=True)
        rc, o = sh(['git', 'apply', os.path.join(d, 'patch.diff')], copy)
        if rc: return i, 'NOAPPLY ' + o, ''
        rcc, v, oc = check(copy, m['property'], tier)
        return i, '%s rc=%d %s' % (m['property'], rcc, 'CAUGHT' if rcc == 1 and v else 'MISSED'), '' if v else oc[-600:]
    finally:
        shutil.rmtree(copy, ignore_errors=True)

if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == '--recheck':
        ids = a[1:] or sorted(os.listdir(os.path.join(VERIF, 'seeded')))
        fn, jobs = recheck, ids
    else:
        bugs = runpy.run_path(a[0])['BUGS']
        jobs = [b for b in bugs if not a[1:] or b['id'] in a[1:]]
        fn = do
    with cf.ThreadPoolExecutor(5) as ex:
        for i, s, info in ex.map(fn, jobs):
            print(i, s, flush=True)
            if info: print(info, flush=True)
