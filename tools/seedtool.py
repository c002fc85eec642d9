"""Planted bugs: writing of seeded/<id> from text edits and verification of them in scratch copies of /repo.
   python3 tools/seedtool.py verify [id ...]   (applies, tests pass, demo fails/passes, which checks catch it)
Never used by checks."""
import glob, json, os, shutil, subprocess, sys, concurrent.futures as cf
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')
DEMO = '''#!/bin/bash
# exit 0 when the code behaves, nonzero when the planted bug shows; run with cwd = repository root
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1
scratch=$(mktemp -d) || exit 3
trap 'rm -rf "$scratch"' EXIT
repo=$PWD
cd "$scratch" && BGEM_SRC="$repo/src" timeout 120 /opt/venv/bin/python "$here/demo.py"
'''


def make(id, prop, edits, needs, breaks, demo):
    d = os.path.join(SEEDED, id)
    os.makedirs(d, exist_ok=True)
    tmp = '/tmp/seedmk_' + id
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    out = ''
    files = {}
    for f, old, new in edits:
        f = 'src/bgem/' + f
        if f not in files:
            t = open(os.environ.get('SEED_REPO', '/repo') + '/' + f, newline='').read()
            files[f] = [t, t]
        if '\r\n' in files[f][0]:
            old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
        assert files[f][1].count(old) == 1, (id, f, files[f][1].count(old), old)
        files[f][1] = files[f][1].replace(old, new)
    for f, (a, b) in files.items():
        for side, text in (('a', a), ('b', b)):
            p = os.path.join(tmp, side, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, 'w', newline='').write(text)
        out += 'diff --git a/%s b/%s\n' % (f, f)
        out += subprocess.run(['diff', '-u', 'a/' + f, 'b/' + f], cwd=tmp, capture_output=True).stdout.decode()
    lines = [l.split('\t')[0] if l.startswith(('--- ', '+++ ')) else l for l in out.split('\n')]
    open(os.path.join(d, 'patch.diff'), 'w', newline='').write('\n'.join(lines))
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    head = "import os, sys\nsys.path.insert(0, os.environ['BGEM_SRC'])\n"
    open(os.path.join(d, 'demo.py'), 'w').write(head + demo.lstrip('\n'))
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    shutil.rmtree(tmp)


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def verify(id, tests=True, checks=None):
    d = os.path.join(SEEDED, id)
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    copy = '/tmp/seedcp_' + id
    shutil.rmtree(copy, ignore_errors=True)
    subprocess.check_call(['cp', '-a', os.environ.get('SEED_REPO', '/repo'), copy])
    res = {}
    try:
        rc0, out0 = sh('bash %s/demo.sh' % d, copy, timeout=300)
        res['demo_clean'] = rc0
        rc, out = sh('git checkout -q -- . ; git apply %s/patch.diff' % d, copy)
        res['apply'] = rc
        if rc:
            res['out'] = out
            return id, res
        rc1, out1 = sh('bash %s/demo.sh' % d, copy, timeout=300)
        res['demo_patched'] = rc1
        res['demo_out'] = out1[-300:]
        if rc0:
            res['demo_clean_out'] = out0[-600:]
        if tests:
            t = open('/opt/vp/test.sh').read().replace('/repo', copy).replace('/opt/vp/work', copy + '/_work')
            open(copy + '/_test.sh', 'w').write(t)
            sh('bash _test.sh %s/_out.json' % copy, copy)
            stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            try:
                passed = set(json.load(open(copy + '/_out.json'))['passed'])
            except Exception as e:
                passed = set()
            res['tests_lost'] = sorted(stable - passed)[:4]
        for c in (checks or [prop]):
            sc = '/tmp/seedev_' + id
            rc, out = sh('./run.sh %s quick' % c, HERE, {'VERIF_REPO': copy, 'VERIF_EVIDENCE': sc})
            res['check_' + c] = (rc, [l[:150] for l in out.splitlines() if 'VIOLATION' in l][:2])
            shutil.rmtree(sc, ignore_errors=True)
    finally:
        shutil.rmtree(copy, ignore_errors=True)
    return id, res


if __name__ == '__main__':
    args = sys.argv[2:]
    tests = '--notests' not in args
    checks = None
    ids = []
    for a in args:
        if a.startswith('--checks='):
            checks = a[9:].split(',')
        elif not a.startswith('--'):
            ids.append(a)
    ids = ids or sorted(os.listdir(SEEDED))
    with cf.ThreadPoolExecutor(3) as ex:
        for id, r in ex.map(lambda i: verify(i, tests, checks), ids):
            ok = r.get('demo_clean') == 0 and r.get('demo_patched', 0) != 0 and not r.get('tests_lost')
            print('OK ' if ok else 'BAD', id, json.dumps(r), flush=True)
