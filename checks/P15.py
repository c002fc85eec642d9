"""P15: crowded drawings: features closer than the tolerance are merged, but nothing that was drawn is lost and existing drawing stays in place."""
import math
import random
import numpy as np
from vlib import pddrive
from vlib.core import Violation
from vlib.pddrive import gen_map, make_map, bp
from vlib.pdutil import fresh, pick

LEVEL = 'exploration'
RULE = ('One execution = a drawing whose lines cross, meet and run next to each other closer than the snapping tolerance (nearly concurrent lines, small angles, clusters of end points, short segments). '
        'After every line: sampled locations of the new line and of every segment existing before are looked up in the new drawing (distance to the nearest segment), every existing point has a point nearby, '
        'the structure is recomputed exactly. Distinct = (points, segments) profiles.')
ASSUMPTIONS = ['ends of a line are points of the drawing (snapped before); existing segments may move by 3 tolerances, the new line is followed within 6 tolerances (repeated snapping adds up)']
REQUIRED = {'lines': 2500, 'samples of lines': 20000, 'samples of segments': 100000, 'bent lines': 100, 'crowded lines': 500}


def knot(rng, tol):
    """Lines crossing in a few tolerances from one place, mixed with short segments there."""
    c = (rng.random(), rng.random())
    w = tol * rng.choice([1, 1.5, 2, 3, 4])
    only_lines = rng.random() < .85
    ops = []
    for _ in range(rng.randint(5, 12)):
        q = [c[k] + rng.uniform(-w, w) for k in (0, 1)]
        a = rng.uniform(0, 6.3)
        if only_lines or rng.random() < .6:
            L = rng.uniform(.05, .5)
            M = rng.uniform(.05, .5) if rng.random() < .7 else tol * rng.uniform(1, 3)
        else:
            L, M = 0, tol * rng.uniform(1.5, 6)
        ops.append(['L', q[0] - L * math.cos(a), q[1] - L * math.sin(a), q[0] + M * math.cos(a), q[1] + M * math.sin(a)])
    return ops


def cases(tier, rng):
    n = 4000 if tier == 'quick' else 60000
    out = []
    for _ in range(n):
        tol = rng.choice([.003, .01, .01, .03])
        ops = []
        if rng.random() < .75:
            ops = knot(rng, tol)
            out.append({'map': gen_map(rng), 'tol': tol, 'ops': ops})
            continue
        P = [(rng.random(), rng.random()) for _ in range(rng.randint(1, 3))]
        for _ in range(rng.randint(6, 16)):
            r = rng.random()
            e = tol * rng.choice([.3, 1, 2, 5])
            if r < .35:         # through (almost) one place
                c, a, L = rng.choice(P), rng.uniform(0, 6.3), rng.uniform(.1, .7)
                c = [c[k] + rng.uniform(-e, e) for k in (0, 1)]
                ops.append(['L', c[0] - L * math.cos(a), c[1] - L * math.sin(a), c[0] + L * math.cos(a), c[1] + L * math.sin(a)])
            elif r < .5 and ops:        # next to an existing line
                o = rng.choice([o for o in ops if o[0] == 'L'] or [['L', 0, 0, 1, 1]])
                ops.append(['L'] + [x + rng.uniform(-e, e) for x in o[1:]])
            elif r < .62 and ops:       # from the end of an existing line
                o = rng.choice([o for o in ops if o[0] == 'L'] or [['L', 0, 0, 1, 1]])
                ops.append(['L', o[1] + rng.uniform(-e, e), o[2] + rng.uniform(-e, e), rng.random(), rng.random()])
            elif r < .68:
                ops.append(['D', round(rng.random(), 6)])
            elif r < .74:
                ops.append(['P', rng.random(), rng.random()])
            else:
                ops.append(['L', rng.random(), rng.random(), rng.random(), rng.random()])
        out.append({'map': gen_map(rng), 'tol': tol, 'ops': ops})
    return out


def distances(X, U, V):
    D = V - U
    L2 = (D ** 2).sum(1)
    t = np.clip(((X[:, None] - U) * D).sum(2) / np.where(L2 > 0, L2, 1), 0, 1)
    return np.sqrt(((U + t[:, :, None] * D - X[:, None]) ** 2).sum(2)).min(1)


def samples(a, b, n=9):
    t = np.linspace(0, 1, n)[:, None]
    return np.asarray(a) + t * (np.asarray(b) - np.asarray(a))


def run(case, mon):
    fresh()
    m = make_map(case['map'])
    tol = case['tol'] * m.scale
    pd = bp.PolygonDecomposition(tol)
    merged = 0
    if hasattr(pd, 'merge_points'):         # only counted
        orig = pd.merge_points

        def count(*a, **k):
            mon.ev('merge_points')
            return orig(*a, **k)
        pd.merge_points = count
    for op in case['ops']:
        if op[0] == 'D':
            s = pick(pd.segments, op[1])
            if s is not None:
                pd.delete_segment(s)
            continue
        pts = {i: p.xy.copy() for i, p in pd.points.items()}
        segs = {i: (s.vtxs[0].xy.copy(), s.vtxs[1].xy.copy()) for i, s in pd.segments.items()}
        if op[0] == 'P':
            q = m(op[1:3])
            p = pd.add_point(q)
            mon.need(pd.points.get(p.id) is p, 'lost point', 'the point returned for {} is not in the decomposition', q)
        else:
            ends = [pd.add_point(np.array(m(op[k:k + 2]))) for k in (1, 3)]
            for p in ends:
                mon.need(pd.points.get(p.id) is p, 'lost point', 'the point returned for an end of {} is not in the decomposition', op)
            a, b = (p.xy.copy() for p in ends)
            if ends[0] is ends[1]:
                continue
            pts.update({p.id: p.xy.copy() for p in ends})
            pd.add_line(a, b)
            mon.ev('lines')
            if len(pd.segments) - len(segs) > 4:
                mon.ev('crowded lines')
        U = np.array([s.vtxs[0].xy for s in pd.segments.values()]).reshape(-1, 2)
        V = np.array([s.vtxs[1].xy for s in pd.segments.values()]).reshape(-1, 2)
        Q = np.array([p.xy for p in pd.points.values()]).reshape(-1, 2)
        if op[0] == 'L':
            X = samples(a, b)
            mon.need(len(U), 'lost line', 'no segment after drawing {} {}', a, b)
            d = distances(X, U, V) / tol
            mon.ev('samples of lines', len(X))
            if d.max() > .5:
                mon.ev('bent lines')
            mon.need(d.max() <= 6, 'lost line', 'line {} - {}: its location {} is {} tolerances away from all segments', a, b, X[d.argmax()], d.max())
        if segs:
            X = np.vstack([samples(*s) for s in segs.values()])
            d = distances(X, U, V) / tol
            mon.ev('samples of segments', len(X))
            mon.need(d.max() <= 3, 'lost segment', '{}: location {} of a segment drawn before is {} tolerances away from all segments', op, X[d.argmax()], d.max())
        for i, x in pts.items():
            p = pd.points.get(i)
            if p is None or np.any(p.xy != x):
                mon.ev('merged points')
                merged += 1
                d = np.linalg.norm(Q - x, axis=1).min() / tol
                mon.need(d <= 3, 'lost point', '{}: point {} is gone, the nearest is {} tolerances away', op, x, d)
        pddrive.structure(pd)
        mon.state(len(pd.points), len(pd.segments), merged)
