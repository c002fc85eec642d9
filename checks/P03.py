"""P03: snapping within the tolerance: to the nearest point, else to the nearest line, else a free point exactly there."""
import math
import random
from fractions import Fraction as Fr
from vlib import pdcheck, pdmodel
from vlib.core import Violation
from vlib.pddrive import Drive, gen_map, gen_ops, make_map, TOL
from vlib.pdutil import fresh, build, seg_dist, snapshot, diff
from vlib.pdmodel import Map, Model

LEVEL = 'exploration'
RULE = ('One execution = a drawing followed by probe points and probe lines placed relative to its actual vertices and segments '
        '(inside 0.9 of the tolerance, outside 1.1 of it, on both sides of acute corners, beyond segment ends), and changes of the tolerance. '
        'Oracle: exact distances; the exact arrangement of the snapped line. Distinct = (probe class, drawing size, outcome) tuples.')
ASSUMPTIONS = ['probes keep 10 % clear of the tolerance boundary itself; a line probe is used when its exact snapped result has '
               'all features at least 2.2 tolerances apart']
REQUIRED = {'probe vertex': 500, 'probe segment': 500, 'probe free': 300, 'line through vertex': 200, 'line clear': 100,
            'idempotent': 1000, 'tolerance changed': 100, 'probe corner': 40}


def cases(tier, rng):
    n = 900 if tier == 'quick' else 18000
    return [{'map': gen_map(rng), 'ops': gen_ops(rng, rng.randint(4, 16), rng.choice([4, 6, 8, 12]), dels=.1, points=.2),
             'n_probe': 14, 'seed': rng.randrange(10 ** 9)} for _ in range(n)]


def xy(p):
    return (float(p.xy[0]), float(p.xy[1]))


def model_of(pd):
    m = Model()
    for p in pd.points.values():
        m.pts[(Fr(float(p.xy[0])), Fr(float(p.xy[1])))] = None
    for s in pd.segments.values():
        m.edges[frozenset((Fr(float(v.xy[0])), Fr(float(v.xy[1]))) for v in s.vtxs)] = None
    return m


def gen_probe(rng, pd, tol, size):
    """a point placed relative to the geometry"""
    k = rng.random()
    pts = [xy(pd.points[i]) for i in sorted(pd.points)]
    segs = [tuple(xy(v) for v in pd.segments[i].vtxs) for i in sorted(pd.segments)]
    rad = tol * (rng.choice([0.0, 1e-6, rng.uniform(.05, .9), .89, 1.12, rng.uniform(1.1, 2.5), rng.uniform(2, 30)]))
    if k < .4 and pts:
        p = rng.choice(pts)
        a = rng.uniform(0, 2 * math.pi)
        return (p[0] + rad * math.cos(a), p[1] + rad * math.sin(a))
    if k < .85 and segs:
        a, b = rng.choice(segs)
        L = math.dist(a, b)
        t = rng.choice([rng.random(), rng.uniform(.45, .55), 2.0 * tol / L, 1 - 2.0 * tol / L, 1.5 * tol / L, 1 - 1.2 * tol / L])
        n = ((a[1] - b[1]) / L, (b[0] - a[0]) / L)
        s = rng.choice([1, -1]) * rad
        return (a[0] + t * (b[0] - a[0]) + s * n[0], a[1] + t * (b[1] - a[1]) + s * n[1])
    p = rng.choice(pts) if pts else (0.0, 0.0)
    return (p[0] + rng.uniform(-1, 1) * size, p[1] + rng.uniform(-1, 1) * size)


def classify(pd, p, tol):
    """-> ('vertex', point) / ('segment', seg) / ('free', None) / ('corner', segs) / None (ambiguous)"""
    dv = sorted((math.dist(p, xy(q)), i) for i, q in pd.points.items())
    ds = sorted((seg_dist(p, *[xy(v) for v in s.vtxs])[0], i) for i, s in pd.segments.items())
    near = [(d, i) for d, i in dv if d < 1.1 * tol]
    if near:
        if len(near) == 1 and near[0][0] <= .9 * tol:
            return 'vertex', pd.points[near[0][1]]
        return None
    near = [(d, i) for d, i in ds if d < 1.1 * tol]
    if not near:
        return 'free', None
    if any(d > .9 * tol for d, i in near):
        return None
    if len(near) == 1:
        return 'segment', pd.segments[near[0][1]]
    if len(near) == 2 and near[1][0] - near[0][0] > 1e-3 * tol:
        # common vertex and an angle which leaves room for the answer on the nearest segment
        return 'corner', [pd.segments[i] for d, i in near]
    return None


def point_probe(pd, p, mon, tol, eps):
    cl = classify(pd, p, tol)
    if cl is None:
        mon.ev('probe ambiguous')
        return
    kind, obj = cl
    s0 = snapshot(pd)
    if kind == 'corner':
        a, b = obj
        va, vb = a.vector, b.vector
        sin = abs(va[0] * vb[1] - va[1] * vb[0]) / (math.hypot(*va) * math.hypot(*vb))
        common = [v for v in a.vtxs if v in list(b.vtxs)]
        if not common or not .2 < sin < .9 or min(math.hypot(*va), math.hypot(*vb)) < 12 * tol:
            mon.ev('probe ambiguous')
            return
        ends = [xy(v) for v in a.vtxs]
        b_ends = [xy(v) for v in b.vtxs]
        r = pd.add_point(p)
        mon.ev('probe corner')
        q = xy(r)
        mon.need(r.id not in s0['points'], 'corner snap', 'point {} between two segments snapped to far point {}', p, q)
        mon.need(seg_dist(q, *ends)[0] < eps, 'corner snap', 'point {}: result {} is not on the nearest segment', p, q)
        mon.need(seg_dist(q, *b_ends)[0] > .95 * tol, 'corner snap', 'point {}: result {} too close to the other segment', p, q)
    elif kind == 'vertex':
        r = pd.add_point(p)
        mon.ev('probe vertex')
        mon.need(r is obj, 'vertex snap', 'point {} at distance {} of point {} gave point {} at {}', p, math.dist(p, xy(obj)), obj.id,
                 r.id, xy(r))
        d = diff(s0, snapshot(pd))
        mon.need(not d, 'vertex snap', 'snapping to a vertex changed the drawing: {}', d[:3])
    elif kind == 'segment':
        a, b = [xy(v) for v in obj.vtxs]
        dist, t = seg_dist(p, a, b)
        pids = {v.id for v in obj.vtxs}
        want = (a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]))
        # splitting too close to an end gives that end
        dend = [(math.dist(want, xy(v)), v) for v in obj.vtxs]
        if any(.9 * tol < de < 1.1 * tol for de, _ in dend):
            mon.ev('probe ambiguous')
            return
        sid = obj.id
        r = pd.add_point(p)
        mon.ev('probe segment')
        close = [v for de, v in dend if de <= .9 * tol]
        if close:
            mon.need(r is close[0], 'segment snap', 'point {} projected within tolerance of point {} gave {}', p, close[0].id, r)
            return
        q = xy(r)
        mon.need(math.dist(q, want) < eps, 'segment snap', 'point {} at distance {} of segment {} gave {} expected {}', p, dist, (a, b), q, want)
        mon.need(r.id not in s0['points'] and len(pd.points) == len(s0['points']) + 1
                 and len(pd.segments) == len(s0['segments']) + 1, 'segment snap', 'segment was not split into two')
        ends = {frozenset(v.id for v in s.vtxs) for k, s in pd.segments.items()
                if s0['segments'].get(k, (None, None))[:2] != (s.vtxs[0].id, s.vtxs[1].id)}
        mon.need(ends == {frozenset((x, r.id)) for x in pids}, 'segment snap', 'split of segment {}: pieces {}', sid, ends)
        d = [x for x in diff(s0, snapshot(pd)) if x.startswith('points') and not x.startswith('points %d:' % r.id)]
        mon.need(not d, 'segment snap', 'splitting a segment changed points: {}', d[:3])
    else:
        pts, edges = pdcheck.geometry(pd)
        F, poly_of, _ = pdcheck.check(pd)
        want = poly_of[F.locate(p)]
        r = pd.add_point(p)
        mon.ev('probe free')
        mon.need(xy(r) == (float(p[0]), float(p[1])) and r.id not in s0['points'], 'free point', 'point {} far of everything became {}', p, xy(r))
        mon.need(r.is_free() and r.poly is pd.polygons.get(want), 'free point', 'new free point {} lies in polygon {} not {}', p, want, r.poly)
        mon.need(len(pd.points) == len(s0['points']) + 1 and len(pd.segments) == len(s0['segments']), 'free point', 'more than a point was added')
    mon.state('pt', kind, len(s0['points']), len(s0['segments']))
    if any(q is not r and math.dist(xy(q), xy(r)) < 1.1 * tol for q in pd.points.values()):
        return      # a corner snap may end just at the tolerance of the corner itself
    # repeat: the same object, no change
    s1 = snapshot(pd)
    r2 = pd.add_point(r.xy.copy())
    mon.need(r2 is r and not diff(s1, snapshot(pd)), 'idempotence', 'adding a point at an existing point again gave {} (had {})', r2, r)
    mon.ev('idempotent')


def snapped_polyline(m, a, b, tol):
    """exact vertices the straight line has to pass, or None when ambiguous"""
    fa, fb = [tuple(map(float, p)) for p in (a, b)]
    through = []
    for p in m.pts:
        if p == a or p == b:
            continue
        d, t = seg_dist(tuple(map(float, p)), fa, fb)
        if d < .9 * tol:
            through.append((t, p))
        elif d < 2.3 * tol:
            return None
    if len(through) > 1 and any(seg_dist(tuple(map(float, p)), fa, fb)[0] > .4 * tol for t, p in through):
        return None     # passing one vertex may move the line away of the other
    through.sort()
    return [a] + [p for t, p in through] + [b]


def line_probe(pd, a, b, mon, tol, eps):
    m = model_of(pd)
    ends = []
    for p in (a, b):
        cl = classify(pd, p, tol)
        if cl is None or cl[0] == 'corner':
            mon.ev('line ambiguous')
            return
        kind, obj = cl
        if kind == 'vertex':
            q = tuple(Fr(c) for c in xy(obj))
        elif kind == 'segment':
            u, v = [tuple(Fr(c) for c in xy(w)) for w in obj.vtxs]
            e = (v[0] - u[0], v[1] - u[1])
            t = ((Fr(p[0]) - u[0]) * e[0] + (Fr(p[1]) - u[1]) * e[1]) / (e[0] ** 2 + e[1] ** 2)
            if not 0 < t < 1:
                mon.ev('line ambiguous')
                return
            q = (u[0] + t * e[0], u[1] + t * e[1])
        else:
            q = (Fr(p[0]), Fr(p[1]))
        ends.append(q)
        m.add_point(q)
    if ends[0] == ends[1]:
        return
    poly = snapped_polyline(m, ends[0], ends[1], tol)
    if poly is None:
        mon.ev('line ambiguous')
        return
    path = []
    for u, v in zip(poly[:-1], poly[1:]):
        path += m.add_line(u, v)
    if m.separation() < 2.2 * tol:
        mon.ev('line ambiguous')
        return
    got = pd.add_line(a, b)
    try:
        pt_of, seg_of = pdmodel.match(m, pd, Map(), eps)
    except pdmodel.Mismatch as e:
        raise Violation('line snap: ' + e.key, 'line %s %s should pass %s: %s' % (a, b, [tuple(map(float, p)) for p in poly], e))
    mon.ev('line through vertex' if len(poly) > 2 else 'line clear')
    mon.ev('line crossings', len(path) - len(poly) + 1)
    mon.state('line', len(poly), len(path), len(m.edges))
    got = [seg_of[s.id] for s in got]
    mon.need(got == path, 'line snap: returned chain', 'line {} {} returned {} pieces, expected {}', a, b, len(got), len(path))
    s1 = snapshot(pd)
    if rngbit(a):
        again = pd.add_line(b, a)
        again = again[::-1] if isinstance(again, list) else again
    else:
        again = pd.add_line(a, b)
    d = diff(s1, snapshot(pd))
    mon.need(not d, 'idempotence', 'drawing the same line again changed {}', d[:3])
    mon.need(isinstance(again, list) and [seg_of.get(s.id) for s in again] == path, 'idempotence', 'drawing the same line again returned other segments')
    mon.ev('idempotent')


def rngbit(a):
    return int(abs(a[0]) * 1e6) % 2


def run(case, mon):
    stack = fresh(enable=True)
    d = build(case['map'], case['ops'], mon)
    pd = d.pd
    rng = random.Random(case['seed'])
    size = d.map.scale * 6
    tol = d.tol
    last = None
    for k in range(case['n_probe']):
        if rng.random() < .12:
            tol = d.tol * rng.choice([.3, .6, 1.0, 1.0])
            pd.set_tolerance(tol)
            mon.ev('tolerance changed')
        # probes may bring features together: stop when they are no longer clearly separated
        m = model_of(pd)
        if m.separation() < 2.2 * tol:
            if not stack.canundo() or last is None:
                mon.ev('stopped: too close')
                break
            while stack.undocount() > last:
                stack.undo()
            mon.ev('probe taken back')
            d.structure()
        last = stack.undocount()
        eps = 1e-4 * tol
        if rng.random() < .5:
            p = gen_probe(rng, pd, tol, size)
            point_probe(pd, p, mon, tol, eps)
        else:
            a = gen_probe(rng, pd, tol, size)
            b = gen_probe(rng, pd, tol, size)
            if rng.random() < .4 and pd.points:
                # aim the line close to a vertex
                v = xy(pd.points[rng.choice(sorted(pd.points))])
                ang = rng.uniform(0, 2 * math.pi)
                rad = tol * rng.choice([.2, .5, .85, 0.0])
                v = (v[0] + rad * math.cos(ang), v[1] + rad * math.sin(ang))
                f = rng.uniform(.3, 1.5)
                b = (v[0] + f * (v[0] - a[0]), v[1] + f * (v[1] - a[1]))
            if math.dist(a, b) < 4 * tol:
                continue
            line_probe(pd, a, b, mon, tol, eps)
        d.structure()
