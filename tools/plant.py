"""Confirm planted changes in scratch copies and store them in seeded/.

usage: plant.py SPEC.py [id ...]     (SPEC.py calls bug(...) )
       plant.py --recheck [id ...]   (run the checks of the stored ones)
"""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(ROOT, 'seeded')
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
BUGS = []


def bug(id, prop, file, old, new, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, file=file, old=old, new=new, demo=demo, needs=needs, breaks=breaks))


def scratch(id):
    d = '/tmp/plant/' + id
    if os.path.exists(d):
        shutil.rmtree(d)
    os.makedirs('/tmp/plant', exist_ok=True)
    subprocess.check_call(['cp', '-a', '/repo', d])
    return d


def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=dict(ENV, PYTHONPATH=cwd, **k), capture_output=True, text=True, timeout=1500)


def tests(d):
    bad = None
    for k in range(3):                      # (a few tests draw unseeded random numbers)
        new = tests1(d)
        bad = set(new) if bad is None else bad & set(new)
        if not bad:
            break
    return sorted(bad)


def tests1(d):
    x = d + '.xml'
    run([PY, '-m', 'pytest', '-q', '-n', '4', '-p', 'no:cacheprovider', '--timeout=300', '--tb=no', '--disable-warnings',
         '--continue-on-collection-errors', '--basetemp=' + d + '.tmp', '-o', 'junit_family=xunit2', '--junitxml=' + x], d)
    run([PY, '/opt/vp/results.py', d + '.json', 'junit:' + x], d)
    got = set(json.load(open(d + '.json'))['passed'])
    base = json.load(open('/opt/vp/BASELINE.json'))
    base = base if isinstance(base, list) else base.get('passed') or base.get('tests') or base.get('stable')
    for f in (x, d + '.json'):
        os.path.exists(f) and os.remove(f)
    shutil.rmtree(d + '.tmp', ignore_errors=True)
    return sorted(set(base) - got)


def check(d, prop):
    if not os.path.exists(os.path.join(ROOT, 'contracts', prop.lower() + '.py')):
        return 'no check yet'
    r = subprocess.run([PY, '-m', 'marxsvc.run', prop, '--tier', 'quick'], cwd=ROOT,
                       env=dict(os.environ, MARXSVC_REPO=d, MARXSVC_EVIDENCE=d + '.ev'), capture_output=True, text=True, timeout=1500)
    v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    return 'rc=%d %s %s' % (r.returncode, (v or [''])[0][:200], '' if r.returncode in (0, 1) else r.stderr[-400:])


def store(b):
    d = scratch(b['id'])
    try:
        p = os.path.join(d, b['file'])
        s = open(p).read()
        if s.count(b['old']) != 1:
            return b['id'] + ': old text occurs %d times' % s.count(b['old'])
        open(p, 'w').write(s.replace(b['old'], b['new']))
        diff = subprocess.run(['git', 'diff'], cwd=d, capture_output=True, text=True).stdout
        out = os.path.join(SEED, b['id'])
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, 'demo.py'), 'w').write(b['demo'])
        open(os.path.join(out, 'demo.sh'), 'w').write('#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\nPYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg PYTHONPATH="$PWD" exec /opt/venv/bin/python "$here/demo.py"\n')
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        sh = ['bash', os.path.join(out, 'demo.sh')]
        r0, r1 = run(sh, '/repo'), run(sh, d)
        if r0.returncode != 0 or r1.returncode == 0:
            shutil.rmtree(out)
            return b['id'] + ': DEMO clean=%d patched=%d\n%s\n%s' % (r0.returncode, r1.returncode, r0.stderr[-600:], r1.stdout[-300:])
        bad = tests(d)
        if bad:
            shutil.rmtree(out)
            return b['id'] + ': TESTS fail: %s' % bad[:4]
        return b['id'] + ' (%s): kept; check: %s' % (b['prop'], check(d, b['prop']))
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(d + '.ev', ignore_errors=True)


def recheck(id):
    m = json.load(open(os.path.join(SEED, id, 'meta.json')))
    d = scratch(id)
    try:
        subprocess.check_call(['git', 'apply', os.path.join(SEED, id, 'patch.diff')], cwd=d)
        return id + ' (%s): ' % m['property'] + check(d, m['property'])
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(d + '.ev', ignore_errors=True)


if __name__ == '__main__':
    if sys.argv[1] == '--recheck':
        ids = sys.argv[2:] or sorted(os.listdir(SEED))
        f = recheck
    else:
        exec(open(sys.argv[1]).read())
        ids = [b for b in BUGS if not sys.argv[2:] or b['id'] in sys.argv[2:]]
        f = store
    with ThreadPoolExecutor(2) as ex:
        for r in ex.map(f, ids):
            print(r, flush=True)
