"""
Common machinery of all checks: seeding, worker pool, CPU budgets, known findings, replay files, evidence.

A check is a module checks/<id>.py with
    LEVEL, RULE, ASSUMPTIONS        evidence texts
    REQUIRED = {event: minimum}     monitor events that must have been observed (otherwise: inconclusive, exit 2)
    cases(tier, rng) -> list        JSON-able dicts, one per execution
    run(case, mon)                  drives the real code; the monitor raises/records violations
A violation is (key, message); key names the mechanism and is what the known-findings file matches.
"""
import collections
import contextlib
import hashlib
import importlib
import io
import json
import os
import random
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
EVID = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
N_WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))
CASE_CPU_S = 60          # CPU budget of one execution; usual cost is well below a second


class Violation(Exception):
    def __init__(self, key, msg):
        super().__init__('%s: %s' % (key, msg))
        self.key = key
        self.msg = msg


class HarnessError(Exception):
    """the check itself is at fault (never counted as a violation)"""


class CaseTimeout(BaseException):
    pass


class Monitor:
    """Counts what the monitors observed and collects violations of one execution."""

    def __init__(self):
        self.events = collections.Counter()
        self.sigs = set()
        self.violations = []

    def ev(self, name, n=1):
        self.events[name] += n

    def state(self, *sig):
        """Remember a distinct observed state"""
        h = hashlib.blake2b(repr(sig).encode(), digest_size=8).hexdigest()
        self.sigs.add(h)

    def fail(self, key, msg):
        self.violations.append((key, str(msg)[:2000]))

    def need(self, cond, key, msg, *args):
        if not cond:
            raise Violation(key, msg.format(*args) if args else msg)


def where(exc):
    """innermost frame in the code under test: file:function (no line numbers: stable under edits)"""
    best = None
    for f in traceback.extract_tb(exc.__traceback__):
        if '/bgem/' in f.filename:
            best = '%s:%s' % (f.filename.split('/bgem/')[-1], f.name)
    if best is None:
        f = traceback.extract_tb(exc.__traceback__)[-1]
        best = '(harness) %s:%s' % (os.path.basename(f.filename), f.name)
    return best


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def _on_cpu(signum, frame):
    raise CaseTimeout()


def execute(mod, case, mon):
    """Run one case under a CPU budget; every escape of the code under test is a violation."""
    budget = getattr(mod, 'CPU_S', CASE_CPU_S)
    signal.signal(signal.SIGPROF, _on_cpu)
    signal.setitimer(signal.ITIMER_PROF, budget)
    try:
        if getattr(mod, 'VERBOSE', False):
            mod.run(case, mon)
        else:
            with quiet():
                mod.run(case, mon)
    except Violation as e:
        mon.fail(e.key, e.msg)
    except CaseTimeout:
        mon.fail('hang', 'no result within %d s of CPU time' % budget)
    except (KeyboardInterrupt, SystemExit) as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        mon.fail('exit', 'the code under test called exit(%r)' % (e.code,))
    except BaseException as e:
        w = where(e)
        if isinstance(e, HarnessError):
            mon.harness_error = traceback.format_exc()
        else:
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exc()
            mon.fail('exception %s at %s' % (type(e).__name__, w), '%s: %s' % (type(e).__name__, str(e)[:300]))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def _worker(mod, cases, idxs, wpath, deadline):
    """Child process: runs its cases, appends one JSON line per case to wpath."""
    import resource
    if not getattr(mod, 'NO_RLIMIT', False):
        lim = 6 << 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get('VERIF_DEBUG'):
        os.dup2(devnull, 2)
    with open(wpath, 'a', buffering=1) as out:
        for i in idxs:
            if time.time() > deadline:
                out.write(json.dumps({'i': i, 'skip': 1}) + '\n')
                continue
            out.write(json.dumps({'i': i, 'start': 1}) + '\n')
            mon = Monitor()
            mon.harness_error = None
            t = time.time()
            execute(mod, cases[i], mon)
            out.write(json.dumps({'i': i, 'ev': mon.events, 'sig': sorted(mon.sigs), 'v': mon.violations,
                                  'err': mon.harness_error, 't': round(time.time() - t, 4)}) + '\n')
    os._exit(0)


def run_pool(mod, cases, wall_s, scratch):
    """Fork workers (the parent has imported everything); a worker that dies is a violation of its current case."""
    deadline = time.time() + wall_s
    n = max(1, min(N_WORKERS, len(cases)))
    results = {}
    pending = [list(range(k, len(cases), n)) for k in range(n)]
    procs = {}

    def spawn(k, idxs):
        path = os.path.join(scratch, 'w%d' % k)
        open(path, 'w').close()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                _worker(mod, cases, idxs, path, deadline)
            except BaseException:
                traceback.print_exc()
                os._exit(77)
        procs[pid] = (k, idxs, path)
    for k, idxs in enumerate(pending):
        if idxs:
            spawn(k, idxs)
    while procs:
        pid, status = os.waitpid(-1, 0)
        if pid not in procs:
            continue
        k, idxs, path = procs.pop(pid)
        cur, done = None, set()
        with open(path) as f:
            for line in f:
                try:
                    r = json.loads(line)
                except ValueError:
                    continue
                if 'start' in r:
                    cur = r['i']
                    continue
                results[r['i']] = r
                done.add(r['i'])
                cur = None
        if status != 0:
            if cur is not None and cur not in done:
                if os.WIFSIGNALED(status):
                    what = 'killed by signal %d' % os.WTERMSIG(status)
                else:
                    what = 'ended with exit code %d' % os.WEXITSTATUS(status)
                sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else 0
                if sig == 9 or (not sig and os.WEXITSTATUS(status) == 77):
                    results[cur] = {'i': cur, 'ev': {}, 'sig': [], 'v': [], 'err': 'worker ' + what, 't': 0}
                else:
                    results[cur] = {'i': cur, 'ev': {}, 'sig': [], 'v': [('process died', what)], 'err': None, 't': 0}
                done.add(cur)
            rest = [i for i in idxs if i not in done]
            if rest and len(rest) < len(idxs):
                spawn(k, rest)
    return results


def load_known(pid):
    """key -> description of the recorded (unrepaired) findings of this property"""
    known = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: property=%s ' % pid):
                key, _, desc = line[len('known: property=%s ' % pid):].partition(' :: ')
                known[key.strip()] = desc.strip()
    return known


def shrink(mod, case, key, limit_s=40):
    """Greedy removal of operations from case['ops'] while the same mechanism still fails (bounded)."""
    ops = case.get('ops')
    if not isinstance(ops, list) or len(ops) < 2 or getattr(mod, 'NO_SHRINK', False):
        return case
    end = time.time() + limit_s

    def fails(c):
        pid = os.fork()
        if pid == 0:
            d = os.open(os.devnull, os.O_WRONLY)
            os.dup2(d, 1)
            os.dup2(d, 2)
            m = Monitor()
            m.harness_error = None
            execute(mod, c, m)
            os._exit(3 if any(k == key for k, _ in m.violations) else 0)
        while True:
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                return os.WIFEXITED(st) and os.WEXITSTATUS(st) == 3
            if time.time() > end + 5:
                os.kill(pid, 9)
                os.waitpid(pid, 0)
                return False
            time.sleep(0.002)
    step = max(1, len(ops) // 2)
    while step >= 1 and time.time() < end:
        i = 0
        while i < len(ops) and time.time() < end:
            cand = ops[:i] + ops[i + step:]
            if cand and fails(dict(case, ops=cand)):
                ops = cand
            else:
                i += step
        step //= 2
    return dict(case, ops=ops)


def setup_paths():
    src = os.path.join(REPO, 'src')
    sys.path.insert(0, src)
    sys.path.insert(0, VERIF)


def check_origin():
    import bgem
    p = os.path.abspath(list(bgem.__path__)[0])
    assert p.startswith(os.path.abspath(REPO) + '/'), 'bgem imported from %s' % p


def main(pid, tier, replay=None):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    setup_paths()
    check_origin()
    mod = importlib.import_module('checks.' + pid)
    known = load_known(pid)
    import tempfile
    import shutil
    scratch = tempfile.mkdtemp(prefix='vb_%s_' % pid)
    os.environ['VERIF_SCRATCH'] = scratch
    if replay:
        data = json.load(open(replay))
        try:
            r = run_pool(mod, [data['case']], 900, scratch)[0]
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        for k, m in r['v']:
            print('%s: %s' % (k, m))
        if r['err']:
            print(r['err'])
            return 2
        if [v for v in r['v'] if v[0] not in known]:
            print('VIOLATION property=%s replay=%s' % (pid, replay))
            return 1
        return 0

    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    try:
        rng = random.Random('%s/%s/%d' % (pid, tier, seed))
        cases = mod.cases(tier, rng)
        wall = getattr(mod, 'WALL', {}).get(tier, 240 if tier == 'quick' else 780)
        if os.environ.get('VERIF_WALL'):
            wall = float(os.environ['VERIF_WALL'])
        results = run_pool(mod, cases, wall, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    events = collections.Counter()
    sigs = set()
    viol = []
    errs = []
    nrun = 0
    slow = 0.0
    seen_known = {}
    for i in sorted(results):
        r = results[i]
        if r.get('skip'):
            continue
        nrun += 1
        slow = max(slow, r['t'])
        events.update(r['ev'])
        sigs.update(r['sig'])
        if r['err']:
            errs.append((i, r['err']))
        for k, m in r['v']:
            if k in known:
                seen_known.setdefault(k, m)
            else:
                viol.append((i, k, m))
    for k in sorted(seen_known):
        print('KNOWN-FINDING: property=%s %s (%s)' % (pid, known[k], k))
    by_key = {}
    for i, k, m in viol:
        by_key.setdefault(k, []).append((i, m))
    rc = 0
    shown = 0
    for k, lst in sorted(by_key.items(), key=lambda kv: (kv[1][0][0])):
        i, m = min(lst, key=lambda im: len(json.dumps(cases[im[0]])))
        case = cases[i]
        if shown < 3:
            case = shrink(mod, case, k)
        h = hashlib.blake2b(k.encode(), digest_size=5).hexdigest()
        path = os.path.join(EVID, 'replay', '%s-%s.json' % (pid, h))
        with open(path, 'w') as f:
            json.dump({'property': pid, 'key': k, 'message': m, 'seed': seed, 'tier': tier, 'case': case}, f, indent=1)
        print('%s [%d executions]: %s' % (k, len(lst), m))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        rc = 1
        shown += 1
        if shown >= 10:
            break
    missing = {e: (events.get(e, 0), n) for e, n in getattr(mod, 'REQUIRED', {}).items()
               if events.get(e, 0) < (n[tier] if isinstance(n, dict) else n)}
    samples = [cases[i] for i in (0, len(cases) // 2, len(cases) - 1) if i in results][:3]
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': mod.LEVEL,
          'coverage': {'evaluations': nrun, 'distinct_nontrivial': len(sigs), 'rule': mod.RULE,
                       'samples': json.loads(json.dumps(samples))[:3],
                       'observed_events': dict(sorted(events.items())),
                       'cases_generated': len(cases), 'slowest_case_s': slow,
                       'known_findings_seen': sorted(seen_known)},
          'assumptions': getattr(mod, 'ASSUMPTIONS', []),
          'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d executions, %d distinct observed states, %d violations, %.1f s' %
          (pid, tier, nrun, len(sigs), len(viol), time.time() - t0))
    print('  events: ' + ', '.join('%s=%d' % kv for kv in sorted(events.items())))
    if rc == 0 and errs:
        print('INCONCLUSIVE: harness error in %d executions; first (case %d):\n%s' % (len(errs), errs[0][0], errs[0][1]))
        print(json.dumps(cases[errs[0][0]])[:2000])
        return 2
    if rc == 0 and missing:
        print('INCONCLUSIVE: monitors observed too little: %s' % missing)
        return 2
    return rc
