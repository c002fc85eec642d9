"""Mutation of single expressions and statements of the code, to find what the checks do not see (development only, never used by checks).
   python3 tools/mutate.py FILE(rel. to src/bgem) CHECK,CHECK,... [--n N] [--seed S] [--jobs J] [--lines a-b]
Each mutant which keeps the tests of its package is given to the checks in order until one reports a violation; survivors are printed."""
import ast, concurrent.futures as cf, json, os, random, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = os.environ.get('SEED_REPO', '/repo')
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<'], ast.Gt: ['>=', '<'], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/'], ast.Div: ['*'], ast.FloorDiv: ['/'], ast.Mod: ['+'], ast.BitXor: ['|'], ast.BitAnd: ['|'], ast.BitOr: ['&'], ast.MatMult: []}


class Collect(ast.NodeVisitor):
    def __init__(self, src):
        self.src, self.out = src, []
        self.starts = [0]
        for l in src.splitlines(keepends=True):
            self.starts.append(self.starts[-1] + len(l))
        self.bytes_lines = src.splitlines(keepends=True)

    def pos(self, line, col):
        l = self.bytes_lines[line - 1]
        return self.starts[line - 1] + len(l.encode()[:col].decode())

    def span(self, n):
        return self.pos(n.lineno, n.col_offset), self.pos(n.end_lineno, n.end_col_offset)

    def add(self, a, b, new, line):
        self.out.append((a, b, new, line))

    def seg(self, n):
        a, b = self.span(n)
        return self.src[a:b]

    def visit_Call(self, n):
        f = self.seg(n.func)
        if f == 'print' or f.endswith('.format'):
            return
        if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            a0, b0 = self.span(n.args[0])
            a1, b1 = self.span(n.args[1])
            x, y = self.src[a0:b0], self.src[a1:b1]
            if x != y:
                self.add(a0, b1, y + self.src[b0:a1] + x, n.lineno)
        self.generic_visit(n)

    def visit_Assert(self, n):
        pass

    def visit_Raise(self, n):
        pass

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            l, r = n.left, n.comparators[0]
            a, b = self.span(l)[1], self.span(r)[0]
            for new in CMP.get(type(n.ops[0]), []):
                self.add(a, b, ' %s ' % new, n.lineno)
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        a, b = self.span(n.values[0])[1], self.span(n.values[1])[0]
        self.add(a, b, ' or ' if isinstance(n.op, ast.And) else ' and ', n.lineno)
        for v in n.values:          # drop one
            rest = [x for x in n.values if x is not v]
            s = (' and ' if isinstance(n.op, ast.And) else ' or ').join('(%s)' % self.seg(x) for x in rest)
            a, b = self.span(n)
            self.add(a, b, s, n.lineno)
        self.generic_visit(n)

    def visit_BinOp(self, n):
        a, b = self.span(n.left)[1], self.span(n.right)[0]
        mid = self.src[a:b]
        if ')' not in mid and '(' not in mid and not (isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant)):
            for new in BIN.get(type(n.op), []):
                self.add(a, b, ' %s ' % new, n.lineno)
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        a, b = self.span(n)
        if isinstance(n.op, (ast.USub, ast.Not)):
            self.add(a, b, '(%s)' % self.seg(n.operand), n.lineno)
        self.generic_visit(n)

    def visit_Constant(self, n):
        a, b = self.span(n)
        if n.value is True or n.value is False:
            self.add(a, b, str(not n.value), n.lineno)
        elif isinstance(n.value, int):
            self.add(a, b, str(n.value + 1), n.lineno)
            if n.value > 0:
                self.add(a, b, str(n.value - 1), n.lineno)
        elif isinstance(n.value, float) and n.value:
            self.add(a, b, '(%s*1.5)' % self.src[a:b], n.lineno)

    def visit_If(self, n):
        a, b = self.span(n.test)
        self.add(a, b, 'True', n.lineno)
        self.add(a, b, 'False', n.lineno)
        self.generic_visit(n)

    def visit_IfExp(self, n):
        a, b = self.span(n.test)
        self.add(a, b, 'True', n.lineno)
        self.add(a, b, 'False', n.lineno)
        self.generic_visit(n)

    def body(self, n):
        for s in n.body + getattr(n, 'orelse', []):
            if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                if isinstance(s, ast.Expr) and self.seg(s).startswith('print'):
                    continue
                if isinstance(s, ast.Assign) and isinstance(s.targets[0], (ast.Name, ast.Tuple)):
                    continue
                a, b = self.span(s)
                self.add(a, b, 'pass', s.lineno)
            elif isinstance(s, (ast.Continue, ast.Break)):
                a, b = self.span(s)
                self.add(a, b, 'pass', s.lineno)

    def visit_FunctionDef(self, n):
        if 'plot' in n.name or n.name in ('__repr__', '__str__', '_print_history'):
            return
        for s in n.body:
            self.visit(s)

    def generic_visit(self, n):
        if hasattr(n, 'body') and isinstance(n.body, list):
            self.body(n)
        super().generic_visit(n)

    def visit(self, n):
        if isinstance(n, ast.FunctionDef) and not ('plot' in n.name):
            self.body(n)
        return super().visit(n)


def mutants(path):
    src = open(path, newline='').read()
    c = Collect(src)
    c.visit(ast.parse(src))
    seen, out = set(), []
    for a, b, new, line in c.out:
        m = src[:a] + new + src[b:]
        if m in seen or m == src:
            continue
        seen.add(m)
        try:
            ast.parse(m)
        except SyntaxError:
            continue
        out.append((line, src[a:b], new, m))
    return out


def run(job):
    i, file, pkg, line, old, new, text, checks, tests = job
    d = '/tmp/mut_%d_%d' % (os.getpid(), i)
    shutil.rmtree(d, ignore_errors=True)
    subprocess.check_call(['cp', '-a', BASE, d])
    try:
        p = d + '/src/bgem/' + file
        open(p, 'w', newline='').write(text)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONPATH=d + '/src', MPLBACKEND='Agg', BROWSER='/bin/true', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', LC_ALL='C.UTF-8')
        try:
            r = subprocess.run('ulimit -v 8000000; timeout -k 5 200 /opt/venv/bin/python -m pytest -x -q -p no:cacheprovider --timeout=100 -c tests/pytest.ini --rootdir=%s --tb=no --show-capture=no --deselect "%s" tests/%s'
                               % (d, tests, pkg), shell=True, cwd=d, env=env, capture_output=True, text=True)
        except Exception as e:
            return i, 'test error %s' % e
        if r.returncode:
            return i, 'tests' if r.returncode == 1 else 'tests rc %d' % r.returncode
        for c in checks:
            env2 = dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d + '/_ev', VERIF_WORKERS='3')
            r = subprocess.run(['timeout', '600', './run.sh', c, 'quick'], cwd=HERE, env=env2, capture_output=True, text=True)
            if r.returncode == 1 and 'VIOLATION' in r.stdout:
                return i, c
            if r.returncode not in (0, 1):
                return i, c + ' rc %d' % r.returncode
        return i, 'SURVIVED'
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('file'); ap.add_argument('checks')
    ap.add_argument('--n', type=int, default=60); ap.add_argument('--seed', type=int, default=1); ap.add_argument('--jobs', type=int, default=4); ap.add_argument('--lines', default='')
    ap.add_argument('--log', default='/tmp/mutlog')
    a = ap.parse_args()
    ms = mutants(BASE + '/src/bgem/' + a.file)
    if a.lines:
        lo, hi = map(int, a.lines.split('-'))
        ms = [m for m in ms if lo <= m[0] <= hi]
    total = len(ms)
    random.Random(a.seed).shuffle(ms)
    ms = ms[:a.n]
    pkg = a.file.split('/')[0]
    jobs = [(i, a.file, pkg, *m, a.checks.split(','), 'tests/bspline/test_isec.py::TestIsecx::test') for i, m in enumerate(ms)]
    print('%s: %d mutants of %d' % (a.file, len(ms), total), flush=True)
    count = {}
    with cf.ProcessPoolExecutor(a.jobs) as ex:
        for f in cf.as_completed([ex.submit(run, j) for j in jobs]):
            i, res = f.result()
            count[res] = count.get(res, 0) + 1
            line, old, new = ms[i][:3]
            if res == 'SURVIVED' or ' rc ' in res:
                print('%s %s:%d  [%s] -> [%s]' % (res, a.file, line, old.strip()[:150], new[:150]), flush=True)
    print('TOTAL', a.file, json.dumps(count), flush=True)
