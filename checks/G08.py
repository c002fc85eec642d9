"""G08: mesh size fields have the described values at each point and entity."""
import math
import random
import numpy as np
from vlib import geomodel as gm, gmshutil
from vlib.core import Violation, Monitor
from checks.G05 import World, faces_touch
from bgem.gmsh import gmsh as G, field, options

LEVEL = 'exploration'
RULE = ('One execution = fragmented boxes and rectangles in a random placement and a random expression of fields (box, constant, distance from points and curves, linear and sigmoid threshold, '
        'min, max, restriction to sets with or without boundaries). A size callback of GMSH observes the value of the background field at each point where the mesher asks and compares it with '
        'own evaluation of the expression; then a mesh with a constant field must have its step. Distinct = shape of the expression.')
ASSUMPTIONS = ['threshold without the upper bound: only values up to the lower bound and the minimum are specified', 'curves in distance_edges are sampled: a value may be larger by the distance of samples']
REQUIRED = {'values': 20000, 'field box': 50, 'field constant': 30, 'field distance_nodes': 30, 'field distance_edges': 20, 'field threshold': 30, 'field min': 20, 'field max': 20, 'field restrict': 20,
            'unlimited': 100, 'meshes': 40}
NO_RLIMIT = True
NO_SHRINK = True
CPU_S = 120
BIG = 1e22


def cases(tier, rng):
    return [{'seed': rng.getrandbits(40), 'shapes': rng.choice([1, 2, 2, 3]), 'plain': rng.random() < .4, 'dims': rng.choice(['3', '3', '2', '23']), 'depth': rng.choice([0, 1, 2, 3])}
            for _ in range(900 if tier == 'quick' else 30000)]


def run(case, mon):
    gm.retry_frames(run_once, case, mon, Monitor, Violation)


def run_once(case, mon):
    gmshutil.quiet()
    w = World(case, mon)
    try:
        model(w, case, mon)
    finally:
        gmshutil.close(w.f)


class Expr:
    """field: its number in GMSH, interval of values at a point of an entity"""

    def __init__(self, fid, fn, text):
        self.fid, self.fn, self.text = fid, fn, text


def build(w, objs, depth, mon):
    rng, gmsh, k = w.rng, G.gmsh, w.frame.k
    kinds = ['box', 'constant', 'distance_nodes', 'distance_edges'] if depth == 0 else ['min', 'max', 'threshold', 'threshold', 'restrict', 'box']
    kind = rng.choice(kinds)
    mon.ev('field ' + kind)

    def number():
        v = round(rng.uniform(.1, 3) * k, 6)
        return np.float64(v) if rng.random() < .2 else v
    def distance(fn, *args):
        # GMSH keeps the fields of coordinates, its distance does not depend on them
        if rng.random() > .15:
            return fn(*args)
        fields = rng.choice([tuple, list])(build(w, objs, 0, mon).fid for _ in range(3))
        fid = fn(*args, coordinate_fields=fields)
        got = [gmsh.model.mesh.field.getNumber(fid, 'Field' + x) for x in 'XYZ']
        mon.need(got == list(fields), 'coordinate fields', '{} of field {}, given {}', got, fid, fields)
        mon.ev('coordinate fields')
        return fid
    if kind == 'box':
        c = w.frame.point([rng.uniform(0, 4) for _ in range(3)])
        h = [rng.uniform(.3, 4) * k for _ in range(3)]
        a, b = [x - y for x, y in zip(c, h)], [x + y for x, y in zip(c, h)]
        vi, vo = number(), number()
        if rng.random() < .2:
            vi = -vi    # meaningful as an argument of other fields
        if rng.random() < .3:
            vo = 1e300
            fid = field.box(a, b, vi)
        else:
            fid = field.box(np.array(a), tuple(b), vi, vo) if rng.random() < .5 else field.box(pt_min=a, pt_max=b, v_out=vo, v_in=vi)

        def fn(dt, p):
            m = min(min(x - y, z - x) for x, y, z in zip(p, a, b))
            if abs(m) < 1e-9 * (k + abs(m)):
                return min(vi, vo), max(vi, vo)
            v = vi if m > 0 else vo
            return v, v
        return Expr(fid, fn, 'box')
    if kind == 'constant':
        v = number()
        r = 3 * max(max(abs(x) for x in w.frame.point([i, j, l])) for i in (0, 4) for j in (0, 4) for l in (0, 4)) + k
        return Expr(field.constant(v, r), lambda dt, p: (v, v), 'constant')
    if kind == 'distance_nodes':
        pts = [t for d, t in gmsh.model.getEntities(0)]
        tags = rng.sample(pts, rng.randint(1, min(4, len(pts))))
        xyz = [gmsh.model.getValue(0, t, []) for t in tags]

        def fn(dt, p):
            v = min(math.dist(p, q) for q in xyz)
            return v, v
        return Expr(distance(field.distance_nodes, tags), fn, 'nodes')
    if kind == 'distance_edges':
        cur = [t for d, t in gmsh.model.getEntities(1)]
        tags = rng.sample(cur, rng.randint(1, min(3, len(cur))))
        n = rng.choice([None, 4, 8, 20, 50])
        ends = [[np.array(gmsh.model.getValue(0, t, [])) for d, t in gmsh.model.getBoundary([(1, c)], oriented=False)] for c in tags]

        def fn(dt, p):
            lo, hi = math.inf, math.inf
            for a, b in ends:
                t = min(max((p - a) @ (b - a) / ((b - a) @ (b - a)), 0), 1)
                d = float(np.linalg.norm(a + t * (b - a) - p))
                lo = min(lo, d)
                hi = min(hi, d + np.linalg.norm(b - a) / ((n or 8) - 1))
            return lo, hi
        return Expr(distance(field.distance_edges, tags, *([] if n is None else [n])), fn, 'edges')
    if kind in ('min', 'max'):
        subs = [build(w, objs, rng.randint(0, depth - 1), mon) for _ in range(rng.randint(1, 3))]
        op = min if kind == 'min' else max

        def fn(dt, p):
            v = [s.fn(dt, p) for s in subs]
            return op(x[0] for x in v), op(x[1] for x in v)
        return Expr(getattr(field, kind)([s.fid for s in subs]), fn, kind + '(' + ','.join(s.text for s in subs) + ')')
    sub = build(w, objs, rng.randint(0, depth - 1), mon)
    if kind == 'threshold':
        d0 = round(rng.uniform(0, 2) * k, 5)
        d1 = d0 + round(rng.uniform(.2, 3) * k, 5)
        s0, s1 = number(), number()
        u = rng.random()
        if u < .15:
            d0, d1 = round(d0 - d1, 5), rng.choice([0, 0.])
        elif u < .25:
            s1 = 0
        elif u < .3:
            s0 = 0
        sig = rng.random() < .4
        upper = rng.random() < .8
        if upper:
            fid = field.threshold(sub.fid, (d0, s0), (d1, s1), sig) if rng.random() < .5 else field.threshold(sub.fid, lower_bound=[d0, s0], upper_bound=[d1, s1], sigmoid=sig)
        else:
            fid = field.threshold(sub.fid, (d0, s0))

        def one(v):
            if v <= d0:
                return s0
            if not upper:
                return None
            if v >= d1:
                return s1
            r = (v - d0) / (d1 - d0)
            if sig:
                r = 1 / (1 + math.exp(6 - 12 * r))
            return (1 - r) * s0 + r * s1

        def fn(dt, p):
            lo, hi = sub.fn(dt, p)
            a, b = one(lo), one(hi)
            if not upper:
                return (0, math.inf) if b is None else (s0, s0)
            x = .003 * abs(s1 - s0) if sig else 0    # the sigmoid function of GMSH has not exactly the limit values
            return min(a, b) - x, max(a, b) + x
        return Expr(fid, fn, 'threshold%d%d(%s)' % (sig, upper, sub.text))
    # restrict
    some = rng.sample(objs, rng.randint(1, min(2, len(objs))))
    if rng.random() < .3:
        some.append(some[0].get_boundary(combined=rng.random() < .5))
    ab = rng.random() < .5
    tags = {tuple(t) for o in some for t in o.dim_tags}
    if ab:
        tags |= {tuple(t) for o in some for x in o.dim_tags for t in (gmsh.model.getBoundary([x], oriented=False) if x[0] else [])}
    fid = field.restrict(sub.fid, *some, add_boundary=True) if ab else field.restrict(sub.fid, *some)
    return Expr(fid, lambda dt, p: sub.fn(dt, p) if dt in tags else (BIG, BIG), 'restrict%d%s(%s)' % (ab, sorted({t[0] for t in tags}), sub.text))


def model(w, case, mon):
    rng, f, gmsh = w.rng, w.f, G.gmsh
    raw = [w.shape(case['dims']) for _ in range(case['shapes'])]
    while faces_touch([e for s in raw for e in s.ents]):
        raw.pop()
    objs = f.fragment(*[s.obj for s in raw])
    f.synchronize()
    k = w.frame.k
    m = options.Mesh()
    m.CharacteristicLengthFromPoints = False
    m.CharacteristicLengthFromCurvature = False
    m.CharacteristicLengthExtendFromBoundary = 0
    m.CharacteristicLengthMin = 0.
    m.CharacteristicLengthMax = BIG
    m.MinimumCurvePoints = 2
    e = build(w, objs, case['depth'], mon)
    if rng.random() < .3:
        build(w, objs, rng.randint(0, 1), mon)    # another field, not used
    field.set_mesh_step_field(e.fid)
    seen = []
    step = rng.choice([.6, 1.]) * k

    def callback(d, t, x, y, z, lc):
        seen.append((d, t, x, y, z, lc))
        return step
    gmsh.model.mesh.setSizeCallback(callback)
    top = max(d for o in objs for d, t in o.dim_tags)
    f.make_mesh(objs, top, False)
    gmsh.model.mesh.removeSizeCallback()
    mon.need(seen, 'no values', 'the mesher did not ask')
    eps = 1e-7
    odd = set()    # GMSH takes embedded entities and what bounds them with their volume
    for v in gmsh.model.getEntities():
        if v[0] > 1:
            for x in gmsh.model.mesh.getEmbedded(*v):
                odd |= {tuple(x)} | {tuple(y) for y in gmsh.model.getBoundary([x], oriented=False)} | {tuple(y) for y in gmsh.model.getBoundary([x], oriented=False, recursive=True)}
    for d, t, x, y, z, lc in (seen if len(seen) < 400 else rng.sample(seen, 400)):
        p = np.array([x, y, z])
        lo, hi = e.fn((d, t), p)
        lo, hi = min(lo, BIG), min(hi, BIG)
        if lo < 1e-6 * k or ('restrict' in e.text and (d, t) in odd):
            continue    # GMSH refuses zero size
        mon.need(lo * (1 - eps) - 1e-7 * k <= lc <= hi * (1 + eps) + 1e-7 * k, 'value of a field', '{} at {} of entity {}: {} should be {} to {}', e.text, p, (d, t), lc, lo, hi)
        mon.ev('values')
        if lc == BIG:
            mon.ev('unlimited')
    mon.state(e.text, case['dims'])
    if rng.random() < .3:
        h = rng.choice([.35, .5, .8]) * k
        gmsh.model.mesh.clear()
        field.set_mesh_step_field(field.constant(h, 1e4 * k))
        gmsh.model.mesh.generate(top)
        nodes, els = gmshutil.api_mesh(gmsh)
        for t, ns, d, en in els.values():
            if d == 1:
                l = math.dist(nodes[ns[0]], nodes[ns[1]])
                mon.need(.5 * h <= l <= 1.6 * h, 'step of a constant field', 'segment {} for the step {}', l, h)
        mon.ev('meshes')
