"""B07: planes, bilinear surfaces, lines and their overhang are exact; a curve through a sequence of points has its ends and stays within tolerance."""
import numpy as np
import scipy.interpolate
from bgem.bspline import bspline_approx as ba

LEVEL = 'exploration'
RULE = ('One execution = one plane/bilinear surface/line in 1-4 dimensions (integer, float, list, tuple or array vertices, with or without overhang) compared in random and border '
        'parameters with the exact (bi)linear map, or one curve fitted to a point sequence checked for exact ends and distance of every input point. '
        'Distinct = (kind, dimension, overhang, input type / degree, tolerance, number of points).')
ASSUMPTIONS = ['overhang of a bilinear surface is specified for parallelograms only', 'curve points are distinct and more than degree + 1']
REQUIRED = {'plane points': 1000, 'bilinear points': 500, 'line points': 500, 'overhang': 200, 'curve points': 2000, 'curves': 60}


def cases(tier, rng):
    out = []
    for _ in range(700 if tier == 'quick' else 8000):
        kind = rng.choice(['plane', 'bilinear', 'line', 'curve'])
        if kind == 'curve':
            out.append({'kind': kind, 'n': rng.randint(7, 40), 'dim': rng.choice([2, 2, 3]), 'seed': rng.randrange(10 ** 9), 'noise': rng.choice([0, .01, .1]),
                        'kw': {k: v for k, v in (('degree', rng.choice([1, 2, 3, 3, 5])), ('tol', rng.choice([1e-6, 1e-3, .05]))) if rng.random() < .7}})
            continue
        d = rng.choice([3, 3, 2]) if kind != 'line' else rng.choice([1, 2, 3, 4])
        ints = rng.random() < .4
        n = {'plane': 3, 'bilinear': 4, 'line': 2}[kind]
        V = [[rng.randint(-9, 9) if ints else rng.uniform(-5, 5) for _ in range(d)] for _ in range(n)]
        far = [rng.choice([0, 0, 0, rng.randint(-10 ** 6, 10 ** 6)]) for _ in range(d)]         # map coordinates
        V = [[a + b for a, b in zip(v, far)] for v in V]
        oh = rng.choice([0, 0., .1, .5, 2.])
        if kind == 'bilinear' and oh and rng.random() < .9:
            V[2] = [a + b - c for a, b, c in zip(V[1], V[3], V[0])]
        out.append({'kind': kind, 'V': V, 'oh': oh, 'type': rng.choice(['list', 'tuples', 'array']), 't': [[rng.choice([0, 1, .5, rng.random()]) for _ in range(2)] for _ in range(6)]})
    return out


def run(case, mon):
    if case['kind'] == 'curve':
        return curve(case, mon)
    V, oh, kind = case['V'], case['oh'], case['kind']
    arg = {'list': V, 'tuples': [tuple(v) for v in V], 'array': np.array(V)}[case['type']]
    keep = np.array(arg)
    fn = {'plane': ba.plane_surface, 'bilinear': ba.bilinear_surface, 'line': ba.line}[kind]
    s = fn(arg, overhang=oh) if oh or case['t'][0][0] == .5 else fn(arg)
    mon.need(np.array_equal(keep, np.array(arg)), 'input changed', 'vertices passed to {} were changed', kind)
    mon.state(kind, len(V[0]), oh, case['type'], isinstance(V[0][0], int))
    if oh:
        mon.ev('overhang')
    X = [np.array(v, dtype=float) for v in V]
    sc = max(1, np.abs(X).max()) * (1 + oh) ** 2
    lo, hi = -oh, 1 + oh
    bases = [s.basis] if kind == 'line' else [s.u_basis, s.v_basis]
    for b in bases:
        mon.need(np.allclose(b.domain, (lo, hi), rtol=1e-12, atol=1e-14), 'domain', 'domain {} for overhang {}', b.domain, oh)
    for a, b in case['t'] + [[0, 0], [1, 0], [0, 1], [1, 1]]:
        for mapped in (True, False):
            u, v = (lo + (hi - lo) * a, lo + (hi - lo) * b) if mapped else (a, b)
            if kind == 'line':
                want = X[0] + u * (X[1] - X[0])
                got = s.eval(u)
            else:
                got = s.eval(u, v)
                if kind == 'plane':
                    want = X[0] + u * (X[1] - X[0]) + v * (X[2] - X[0])
                else:
                    if oh and np.abs(X[0] - X[1] + X[2] - X[3]).max() > 1e-9:
                        continue
                    want = (1 - u) * (1 - v) * X[0] + u * (1 - v) * X[1] + u * v * X[2] + (1 - u) * v * X[3]
            mon.ev(kind + ' points')
            mon.need(np.shape(got) == want.shape and np.all(np.abs(got - want) <= 1e-11 * sc), kind, '{} {} overhang {} at {}: {} expected {}', kind, V, oh, (u, v), got, want)


def curve(case, mon):
    r = np.random.default_rng(case['seed'])
    n, dim = case['n'], case['dim']
    t = np.sort(r.uniform(0, 1, n)) + np.arange(n) * .01
    c = r.normal(size=(dim, 4))
    P = np.stack([c[d, 0] * t * 3 + np.sin(c[d, 1] * 3 * t + c[d, 2]) + case['noise'] * r.normal(size=n) for d in range(dim)], axis=1)
    P += r.choice([0, 0, 0, 1e3, 1e6]) * c[:, 3]
    keep = P.copy()
    crv = ba.curve_from_grid(P, **case['kw'])
    mon.need(np.array_equal(keep, P), 'input changed', 'points passed to curve_from_grid were changed')
    deg, tol = case['kw'].get('degree', 3), case['kw'].get('tol', .01)
    mon.ev('curves')
    mon.state('curve', deg, tol, n, dim, crv.basis.size)
    mon.need(crv.basis.degree == deg and crv.dim == dim, 'curve', 'degree {} dim {}', crv.basis.degree, crv.dim)
    a, b = crv.basis.domain
    eps = 1e-12 * max(1., np.abs(P).max())
    mon.need(np.abs(crv.eval(a) - P[0]).max() <= eps and np.abs(crv.eval(b) - P[-1]).max() <= eps, 'curve ends', 'ends {} {} expected {} {}', crv.eval(a), crv.eval(b), P[0], P[-1])
    # FITPACK says itself when it did not reach the tolerance
    w = np.ones(n)
    w[0] = w[-1] = 1000.
    (_, fp, ier, _) = scipy.interpolate.splprep(P.T, k=deg, s=tol, w=w, full_output=True, quiet=True)
    if ier > 0:
        mon.ev('tolerance not reached')
        return
    T = np.linspace(a, b, 1500)
    X = np.array(crv.eval_array(T))
    gap = np.max(np.linalg.norm(np.diff(X, axis=0), axis=1))
    lim = 1.02 * np.sqrt(tol * 1.01) + .002 * np.sqrt(tol) + gap
    for p in P:
        d = np.min(np.linalg.norm(X - p, axis=1))
        mon.ev('curve points')
        mon.need(d <= lim, 'curve distance', 'point {} is {} from the curve, tolerance {} allows {}', p, d, tol, lim)
