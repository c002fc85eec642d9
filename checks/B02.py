"""B02: curves and surfaces (also rational) evaluate to the exact spline of their poles and knots; objects do not share data."""
import numpy as np
from vlib import bsref
from bgem.bspline import bspline as bs

LEVEL = 'exploration'
RULE = ('One execution = one curve or surface (degree 0-4 per direction, dimension 1-4, rational or not, poles as lists or arrays, raw or from bases), evaluated at '
        'ends, knots and random parameters one by one and as arrays, compared with the exact rational spline point; plus box, copy and aliasing monitors. '
        'Distinct = (kind, degrees, dimension, rational, number of poles).')
ASSUMPTIONS = ['positive weights with ratio at most 70']
REQUIRED = {'curve points': 3000, 'surface points': 3000, 'rational points': 1500, 'copies': 100, 'snapped': 300}


def cases(tier, rng):
    out = []
    for _ in range(1400 if tier == 'quick' else 14000):
        surf = rng.random() < .5
        degs = [rng.choice([0, 1, 2, 2, 2, 3, 3, 4]) for _ in range(2 if surf else 1)]
        ks = [bsref.gen_knots(rng, d, 4) for d in degs]
        rat = rng.random() < .4
        dim = rng.choice([1, 2, 3, 3, 3, 4])
        out.append({'deg': degs, 'knots': [k[0] for k in ks], 'rat': rat, 'dim': dim,
                    'poles': bsref.gen_poles(rng, [len(k[0]) - d - 1 for k, d in zip(ks, degs)], dim, rat, True),
                    't': [list(x) for x in zip(*[bsref.probes(rng, k[2], 6) for k in ks])],
                    'how': rng.choice(['list', 'array', 'raw', 'rawlist'])})
        for t in out[-1]['t'][-4:]:
            rng.shuffle(t) if not surf else None
    return out


def run(case, mon):
    degs, ks, rat, dim, P = case['deg'], case['knots'], case['rat'], case['dim'], case['poles']
    how = case['how']
    surf = len(degs) == 2
    poles = P if how in ('list', 'rawlist') else np.array(P)
    cls = bs.Surface if surf else bs.Curve
    if how.startswith('raw'):
        obj = cls.make_raw(poles, ks if surf else ks[0], rational=rat, degree=tuple(degs) if surf else degs[0])
    else:
        B = [bs.SplineBasis(d, k) for d, k in zip(degs, ks)]
        obj = cls(B if surf else B[0], poles, rational=rat)
    mon.state(surf, degs, dim, rat, [len(k) for k in ks])
    mon.need(obj.dim == dim, 'dimension', 'dim {} expected {}', obj.dim, dim)
    flat = np.array(P).reshape(-1, dim + rat)[:, :dim]
    sc = np.max(np.abs(flat)) + 1e-300
    lo, hi = flat.min(axis=0), flat.max(axis=0)
    T = [[min(max(x, k[0]), k[-1]) for x, k in zip(t, ks)] for t in case['t']]
    R = []
    for t in T:
        x = bsref.surface_point(ks[0], degs[0], ks[1], degs[1], P, t[0], t[1], rat) if surf else bsref.curve_point(ks[0], degs[0], P, t[0], rat)
        R.append([float(v) for v in x])

    def compare(o, key):
        V = [o.eval(*t) for t in T]
        for t, v, r in zip(T, V, R):
            mon.ev('surface points' if surf else 'curve points')
            if rat:
                mon.ev('rational points')
            v = np.asarray(v)
            mon.need(v.shape == (dim,) and np.all(np.abs(v - r) <= 1e-10 * sc), key, 'at {}: {} expected {}', t, v, r)
        A = o.eval_array(np.array(T) if surf else [t[0] for t in T])
        mon.need(A.shape == (len(T), dim) and np.all(np.abs(A - np.array(R)) <= 1e-10 * sc), key, 'array evaluation differs: {} expected {}', A.tolist(), R)
    compare(obj, 'evaluation')
    # excess within rounding of the ends
    for e in range(2):
        ends = [k[-e] for k in ks]
        t = [x + (1 if e else -1) * .4 * (abs(x) + 1e-4) * 1e-10 for x in ends]
        r = np.array(P)
        r = r[(-e,) * len(ks)][:dim]
        v = np.asarray(obj.eval(*t))
        mon.ev('snapped')
        mon.need(np.all(np.abs(v - r) <= 1e-10 * sc), 'evaluation', 'just behind the end {}: {} expected {}', t, v, r)
    box = np.asarray(obj.aabb())
    mon.need(box.shape == (2, dim), 'aabb', 'box of shape {}', box.shape)
    Ra = np.array(R)
    mon.need(np.all(box[0] <= Ra.min(axis=0) + 1e-12 * sc) and np.all(box[1] >= Ra.max(axis=0) - 1e-12 * sc), 'aabb',
             'box {} does not contain the points, poles in {} {}', box.tolist(), lo, hi)
    mon.need(np.all(box[0] >= lo - 1e-12 * sc) and np.all(box[1] <= hi + 1e-12 * sc), 'aabb', 'box {} exceeds the box of poles {} {}', box.tolist(), lo, hi)
    if surf:
        c = obj.deep_copy()
        mon.ev('copies')
        mon.need(c.dim == dim and bool(c.rational) == rat, 'copy', 'copy has dim {} rational {}', c.dim, c.rational)
        compare(c, 'copy')
        c.poles += 1.0
        c.u_basis.knots = c.u_basis.knots + 1.0
        compare(obj, 'copy')
        c = obj.deep_copy()
        obj.poles *= 2.0
        compare(c, 'copy')
        obj.poles *= 0.5
    if how in ('array', 'raw'):
        poles += 3.0
        compare(obj, 'aliasing')
