"""B05: point grids: detection of the grid, rejection of irregular ones, interpolation and transforms of the grid surface."""
import os
import random
import numpy as np
from vlib.core import Violation
from bgem.bspline import bspline as bs

LEVEL = 'exploration'
RULE = ('One execution = one regular grid of points over an affine parallelogram (with offsets up to 1e6 times the step and jitter below the tolerance), read from an array or a file, '
        'compared with exact piecewise bilinear interpolation at nodes, cell edges and inside, before and after a history of transforms; '
        'or one spoiled grid, which must be refused. Distinct = (grid shape, spoiling, number of transforms).')
ASSUMPTIONS = ['spoiled grids deviate by at least 1e-3 of a step']
REQUIRED = {'grids': 300, 'node values': 5000, 'cell values': 3000, 'transforms': 200, 'refused': 150, 'files': 30, 'function grids': 60}


def cases(tier, rng):
    out = []
    for _ in range(700 if tier == 'quick' else 8000):
        nu, nv = rng.choice([2, 2, 3, 4, 5, 7]), rng.choice([2, 2, 3, 4, 6])
        sc = rng.choice([1, 1, .01, 250.])
        off = rng.choice([0, 0, 10, 1e4])
        while True:
            u, v = ([rng.uniform(-1, 1) * sc for _ in range(2)] for _ in range(2))
            if rng.random() < .3:
                u[1] = v[0] = 0
            if abs(u[0] * v[1] - u[1] * v[0]) > .15 * sc * sc:
                break
        r = rng.random()
        spoil = None
        if r < .3:
            spoil = rng.choice(['drop', 'extra', 'shift', 'shift', 'swap', 'row'])
            if spoil in ('drop', 'extra') and nu * nv < 6:
                spoil = 'shift'
            if nu * nv == 4 and spoil in ('swap', 'row'):
                spoil = 'shift'
        ops = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            xy = None
            while xy is None and rng.random() < .75:
                M = [[rng.choice([1, 0, 2, -1, rng.uniform(-2, 2)]) for _ in range(2)] + [rng.uniform(-3, 3) * sc] for _ in range(2)]
                if abs(M[0][0] * M[1][1] - M[0][1] * M[1][0]) > .2:
                    xy = M
            ops.append([xy, [rng.choice([1, 2, -1.5, .3]), rng.choice([0, 1, -7.25])] if rng.random() < .65 else None])
        out.append({'n': [nu, nv], 'o': [off * sc * rng.uniform(-1, 1) for _ in range(2)], 'u': u, 'v': v, 'spoil': spoil, 'ops': ops, 'seed': rng.randrange(10 ** 9),
                    'file': rng.random() < .15, 'jitter': rng.choice([0, 0, 1e-8])})
    return out


def grid(case, rng):
    nu, nv = case['n']
    o, u, v = (np.array(case[k]) for k in 'ouv')
    h = min(np.linalg.norm(u), np.linalg.norm(v))
    P = np.empty((nu, nv, 3))
    for i in range(nu):
        for j in range(nv):
            P[i, j, :2] = o + u * i / (nu - 1) + v * j / (nv - 1)
            if case['jitter']:
                P[i, j, :2] += case['jitter'] * h / max(nu, nv) * np.array([rng.uniform(-1, 1), rng.uniform(-1, 1)])
            P[i, j, 2] = rng.uniform(-1, 1)
    return P


def spoiled(P, how, rng):
    nu, nv = P.shape[:2]
    L = P.reshape(-1, 3).copy()
    step = min(np.linalg.norm(P[1, 0, :2] - P[0, 0, :2]), np.linalg.norm(P[0, 1, :2] - P[0, 0, :2]))
    if how == 'drop':
        return np.delete(L, rng.randrange(len(L)), axis=0)
    if how == 'extra':
        k = rng.randrange(len(L))
        return np.insert(L, k, L[k] + [.37 * step, .41 * step, 0], axis=0)
    if how == 'shift':
        k = rng.randrange(len(L))
        a = rng.uniform(0, 2 * np.pi)
        L[k, :2] += step * rng.choice([.002, .05, .3, 5.]) * np.array([np.cos(a), np.sin(a)])
        return L
    if how == 'swap':
        i, j = rng.sample(range(len(L)), 2)
        L[[i, j]] = L[[j, i]]
        return L
    i = rng.randrange(1, nu)                    # a row shifted along itself
    L = L.reshape(nu, nv, 3)
    L[i, :, :2] += .2 * (P[0, 1, :2] - P[0, 0, :2])
    return L.reshape(-1, 3)


def run(case, mon):
    rng = random.Random(case['seed'])
    P = grid(case, rng)
    nu, nv = case['n']
    if case['spoil']:
        L = spoiled(P, case['spoil'], rng)
        if nu == 2 and case['spoil'] == 'row':
            return                              # still a parallelogram grid
        try:
            bs.GridSurface(L)
        except (bs.GridNotInShapeExc, bs.IrregularGridExc, AssertionError):
            mon.ev('refused')
            mon.state('spoil', case['spoil'], nu, nv)
            return
        raise Violation('irregular grid', 'grid %dx%d spoiled by %s was accepted' % (nu, nv, case['spoil']))
    seq = P.reshape(-1, 3).copy()
    keep = seq.copy()
    if case['file']:
        path = os.path.join(os.environ.get('VERIF_SCRATCH', '/tmp'), 'grid%d.txt' % os.getpid())
        np.savetxt(path, seq, fmt='%.17g')
        s = bs.GridSurface.load(path)
        os.remove(path)
        mon.ev('files')
    else:
        s = bs.GridSurface(seq)
    mon.ev('grids')
    mon.need(tuple(s.shape) == (nu, nv), 'shape', 'grid {}x{} detected as {}', nu, nv, s.shape)
    o, u, v = (np.array(case[k]) for k in 'ouv')
    M, S = np.array([[1., 0, 0], [0, 1, 0]]), (1., 0.)
    c = o + .5 * u + .5 * v
    Z = P[:, :, 2]

    def base(a, b):
        i, j = min(int(a * (nu - 1)), nu - 2), min(int(b * (nv - 1)), nv - 2)
        x, y = a * (nu - 1) - i, b * (nv - 1) - j
        return (1 - x) * (1 - y) * Z[i, j] + x * (1 - y) * Z[i + 1, j] + (1 - x) * y * Z[i, j + 1] + x * y * Z[i + 1, j + 1]
    zc = base(.5, .5)
    for op in [None] + case['ops']:
        if op is not None:
            s.transform(op[0], op[1])
            mon.ev('transforms')
            if op[0] is not None:
                M = np.array(op[0], dtype=float)
            if op[1] is not None:
                S = op[1]
        XY = lambda a, b: M[:, :2] @ (o + a * u + b * v - c) + c + M[:, 2]
        ZZ = lambda a, b: S[0] * (base(a, b) - zc) + zc + S[1]
        nodes = [(i / (nu - 1), j / (nv - 1)) for i in range(nu) for j in range(nv)]
        inner = [(rng.random(), rng.random()) for _ in range(5)] + [(rng.randrange(nu) / (nu - 1), rng.random()), (rng.random(), rng.randrange(nv) / (nv - 1))]
        UV = np.array(nodes + inner)
        want = np.array([list(XY(a, b)) + [ZZ(a, b)] for a, b in UV])
        sxy = np.max(np.abs(want[:, :2])) + np.max(np.abs([o, u, v]))
        sz = np.max(np.abs(want[:, 2])) + 1
        rel = 1e-9 + 1e-13 * sxy / min(np.linalg.norm(u), np.linalg.norm(v)) + 30 * case['jitter']
        mon.ev('node values', len(nodes))
        mon.ev('cell values', len(inner))
        mon.state(nu, nv, len(case['ops']), case['file'])
        ztol = rel * 50 * max(nu, nv) * (abs(S[0]) + 1)
        xyt = (1e-10 + case['jitter']) * sxy
        got = s.eval_array(UV)
        mon.need(got.shape == want.shape and np.all(np.abs(got - want)[:, :2] <= xyt) and np.all(np.abs(got - want)[:, 2] <= ztol), 'eval_array',
                 'eval_array {} expected {} after {}', got.tolist()[-7:], want.tolist()[-7:], op)
        g2 = s.z_eval_array(UV)
        mon.need(g2.shape == (len(UV),) and np.all(np.abs(g2 - want[:, 2]) <= ztol), 'z_eval_array', 'z_eval_array {} expected {} after {}', g2.tolist()[-7:], want[-7:, 2].tolist(), op)
        g3 = s.z_eval_xy_array(want[:, :2])
        mon.need(np.all(np.abs(g3 - want[:, 2]) <= ztol), 'z_eval_xy_array', 'z_eval_xy_array {} expected {} after {}', g3.tolist()[-7:], want[-7:, 2].tolist(), op)
        uv = s.xy_to_uv(want[:, :2])
        mon.need(np.all(np.abs(uv - UV) <= ztol), 'xy_to_uv', 'xy_to_uv {} expected {}', uv.tolist()[-7:], UV.tolist()[-7:])
        mon.need(np.all(np.abs(s.uv_to_xy(UV) - want[:, :2]) <= xyt), 'uv_to_xy', 'uv_to_xy wrong after {}', op)
        mon.need(np.all(np.abs(s.center() - np.array(list(XY(.5, .5)) + [ZZ(.5, .5)])) <= np.array([xyt, xyt, ztol])), 'center', 'center {}', s.center())
        quad = np.array([XY(0, 1), XY(0, 0), XY(1, 0), XY(1, 1)])
        mon.need(np.all(np.abs(s.quad - quad) <= xyt), 'quad', 'quad {} expected {}', s.quad.tolist(), quad.tolist())
        box = s.aabb()
        mon.need(np.all(box[0] <= want.min(axis=0) + [xyt, xyt, ztol]) and np.all(box[1] >= want.max(axis=0) - [xyt, xyt, ztol]), 'aabb', 'box {} does not contain {} {}',
                 box.tolist(), want.min(axis=0), want.max(axis=0))
    mon.need(np.array_equal(seq, keep), 'input changed', 'the passed points were changed')
    # grids of functions
    f = [lambda p: 0 if p[0] < .5 else p[1], lambda p: p[0] + 10 * p[1], lambda p: int(3 * p[1])][rng.randrange(3)]
    G = bs.make_function_grid(f, nu, nv)
    mon.ev('function grids')
    mon.need(G.shape == (nu, nv, 3), 'function grid', 'shape {}', G.shape)
    for i in range(nu):
        for j in range(nv):
            p = (i / (nu - 1), j / (nv - 1))
            mon.need(abs(G[i, j, 0] - p[0]) < 1e-12 and abs(G[i, j, 1] - p[1]) < 1e-12 and abs(G[i, j, 2] - f(G[i, j, :2])) < 1e-12, 'function grid', 'node {} {}: {}', i, j, G[i, j])
