"""G06: shapes made, transformed, copied and grouped by the geometry wrapper have the exact geometry: points, measures, centres, boundaries."""
import gc
import math
import random
import types
import numpy as np
from vlib import geomodel as gm, gmshutil
from vlib.core import Violation
from bgem.gmsh import gmsh as G

LEVEL = 'exploration'
RULE = ('One execution = one to four shapes of every constructor (rectangle, box, cylinder, polygon, simplex of each dimension, make_rectangle) with random numbers given in any container, '
        'moved by random sequences of translations, rotations and scalings (not uniform, with centres), copied, grouped; or fractures made from a base shape. Masses, centres of mass, '
        'corners, curves, boundaries and random points are compared with the affine image of the definition. Distinct = (shapes, transforms).')
ASSUMPTIONS = ['non-degenerate shapes and scalings (factors 0.2 to 5)', 'planar polygons without self-intersections']
REQUIRED = {'shapes': 800, 'corners': 2000, 'points': 4000, 'transforms': 800, 'copies': 100, 'fractures': 100, 'crossings': 20}
NO_RLIMIT = True
NO_SHRINK = True
CPU_S = 120
KINDS = ['rectangle', 'rectangle', 'box', 'box', 'cylinder', 'polygon', 'polygon', 'simplex', 'make_rectangle', 'default']


def cases(tier, rng):
    return [{'seed': rng.getrandbits(40), 'n': rng.choice([1, 1, 2, 4]), 'kind': 'fractures' if i % 8 == 0 else 'shapes', 'geo': i % 40 == 1} for i in range(1600 if tier == 'quick' else 60000)]


class Shape:
    """set of corners / local description and its affine map: p -> A p + b"""

    def __init__(self, obj, dim, corners, measure, inside, outside, center=None, curves=None):
        self.obj, self.dim, self.corners, self.inside, self.outside = obj, dim, np.array(corners, float).reshape(-1, 3), inside, outside
        self.base = measure
        self.center0 = np.array(center, float)
        self.A, self.b = np.eye(3), np.zeros(3)
        self.frame = None
        self.stretched = self.micro = False

    def clone(self, obj):
        s = Shape(obj, self.dim, self.corners, self.base, self.inside, self.outside, self.center0)
        s.A, s.b, s.frame, s.stretched, s.micro = self.A.copy(), self.b.copy(), self.frame, self.stretched, self.micro
        return s

    def map(self, p):
        return np.array(p, float) @ self.A.T + self.b

    def measure(self):
        if self.dim == 3:
            return self.base * abs(np.linalg.det(self.A))
        if self.dim == 2:
            u, v = self.A @ self.frame[0], self.A @ self.frame[1]
            return self.base * np.linalg.norm(np.cross(u, v))
        if self.dim == 1:
            return self.base * np.linalg.norm(self.A @ self.frame[0])
        return 0.

    def tol(self):
        return 3e-2 if self.stretched and self.kind == 'cylinder' else 1e-5

    def center(self):
        return self.map(self.center0)


def numbers(rng, v):
    """the same vector as a list, tuple or array"""
    k = rng.randrange(4)
    return [float(x) for x in v] if k == 0 else tuple(v) if k == 1 else np.array(v) if k == 2 else [x for x in v]


def vec(rng, s=2.):
    if rng.random() < .3:
        return [rng.randint(-2, 2) for _ in range(3)]
    return [round(rng.uniform(-s, s), 4) for _ in range(3)]


def side(rng):
    return rng.choice([1, 2, 3, .5, round(rng.uniform(.2, 4), 4)])


def make(f, rng, kind):
    R = np.random.RandomState(rng.getrandbits(30))
    if kind == 'default':
        kind = rng.choice(['rectangle', 'cylinder'])
        o = getattr(f, kind)()
        if kind == 'rectangle':
            a, c = np.array([1, 1, 0.]), np.zeros(3)
        else:
            ax, r, c = np.array([0, 0, 1.]), 1, np.zeros(3)
    elif kind == 'rectangle':
        a = [side(rng), side(rng)]
        c = vec(rng)
        arg, keep = numbers(rng, a), numbers(rng, c)
        before = list(arg)
        o = f.rectangle(arg, keep) if rng.random() < .8 else f.rectangle(xy_sides=arg, center=keep)
        if list(arg) != before:
            raise Violation('argument changed', 'rectangle: %s was %s' % (arg, before))
        a = np.array(list(a) + [0.])
    elif kind == 'box':
        a = np.array([side(rng) for _ in range(3)], float)
        c = vec(rng)
        o = f.box(numbers(rng, a), numbers(rng, c)) if rng.random() < .8 else f.box(numbers(rng, a))
        if o is None:
            raise Violation('result', 'box')
        got = None
    elif kind == 'cylinder':
        r, ax, c = side(rng), vec(rng), vec(rng)
        if np.linalg.norm(ax) < .3:
            ax = [0, 0, 2]
        o = f.cylinder(r, numbers(rng, ax), numbers(rng, c))
        ax = np.array(ax, float)
    if kind in ('rectangle', 'box'):
        if kind == 'box':
            # the default centre is the origin: the shape tells which call was made
            bb = np.array(f.model.getBoundingBox(*o.dim_tags[0]))
            if np.allclose((bb[:3] + bb[3:]) / 2, 0, atol=1e-6):
                c = [0, 0, 0]
        c = np.array(c, float)
        sg = [(x, y, z) for x in (-1, 1) for y in (-1, 1) for z in ((-1, 1) if kind == 'box' else (0,))]
        corners = [c + a / 2 * np.array(s) for s in sg]
        ins = [c + a * (R.rand(3) * .98 - .49) for _ in range(4)]
        out = [c + a / 2 * np.where(np.arange(3) == R.randint(2), R.choice([-1, 1]) * R.uniform(1.03, 2), R.uniform(-1, 1, 3)) for _ in range(4)]
        s = Shape(o, 3 if kind == 'box' else 2, corners, a[0] * a[1] * (a[2] if kind == 'box' else 1), ins, out, c)
        s.frame = (np.array([1, 0, 0.]), np.array([0, 1, 0.]))
    elif kind == 'cylinder':
        c = np.array(c, float)
        h = np.linalg.norm(ax)
        u = np.cross(ax, [1, 0, 0] if abs(ax[0]) < .8 * h else [0, 1, 0])
        u = u / np.linalg.norm(u)
        v = np.cross(ax, u) / h

        def at(rho, t, phi):
            return c + ax * t + r * rho * (u * math.cos(phi) + v * math.sin(phi))
        ins = [at(R.uniform(0, .97), R.uniform(.03, .97), R.uniform(0, 7)) for _ in range(4)]
        out = [at(R.uniform(1.03, 2), R.uniform(0, 1), R.uniform(0, 7)) for _ in range(2)] + [at(R.uniform(0, 1), R.choice([-.1, 1.1]), R.uniform(0, 7)) for _ in range(2)]
        s = Shape(o, 3, [], math.pi * r * r * h, ins, out, c + ax / 2)
    elif kind == 'polygon':
        n = rng.choice([3, 3, 4, 5, 8])
        phi = 2 * math.pi * (np.arange(n) + R.uniform(-.2, .2, n)) / n      # below 180 degrees between vertices
        rad = R.uniform(.5, 2, n) if rng.random() < .6 else np.full(n, 1.5)
        Q = gm.rotation(R.uniform(-1, 1, 3), R.uniform(0, 3)) if rng.random() < .7 else np.eye(3)
        c = np.array(vec(rng), float)
        loc = np.stack([rad * np.cos(phi), rad * np.sin(phi)], axis=1)
        if rng.random() < .5:
            loc = loc[::-1]
        P = loc @ Q[:, :2].T + c
        how = rng.randrange(6)
        arg = P if how % 2 else [list(p) for p in P]
        st = rng.choice([.1, 1, .5, 2])
        o = f.make_polygon(arg) if how < 3 else f.make_polygon(arg, st) if how == 3 else f.make_polygon(arg, mesh_step=np.float64(st)) if how == 4 else f.make_polygon(arg, [st] * n)
        x, y = loc[:, 0], loc[:, 1]
        cr = x * np.roll(y, -1) - y * np.roll(x, -1)
        area = cr.sum() / 2
        cen = np.array([((x + np.roll(x, -1)) * cr).sum(), ((y + np.roll(y, -1)) * cr).sum()]) / (6 * area)
        ins, out = [], []
        for k in range(n):
            m = (loc[k] + loc[(k + 1) % n]) / 2         # star shaped around the origin
            ins.append((m * .97) @ Q[:, :2].T + c)
            out.append((m * 1.03) @ Q[:, :2].T + c)
        s = Shape(o, 2, P, abs(area), ins, out, cen @ Q[:, :2].T + c)
        s.frame = (Q[:, 0], Q[:, 1])
    elif kind == 'simplex':
        d = rng.choice([0, 1, 2, 3, 3])
        o = f.make_simplex(d) if d != 3 or rng.random() < .5 else f.make_simplex()
        pts = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)][:d + 1]
        w = R.dirichlet([2] * (d + 1), 4)
        ins = [x @ np.array(pts, float) for x in np.maximum(w, .02)] if d else []
        ins = [x / (1 + .1) + .01 * 0 for x in ins]
        out = [np.array([[1.1, 0, 0], [.6, .6, 0], [.4, .4, .4]][d - 1], float)] if d else []
        s = Shape(o, d, pts, [0, 1, .5, 1 / 6][d], ins if d == 3 else [np.mean(np.array(pts, float), axis=0)] if d else [], out, np.mean(np.array(pts, float), axis=0))
        s.frame = (np.array([1, 0, 0.]), np.array([0, 1, 0.]))
    elif kind == 'make_rectangle':
        sc = np.array([side(rng), side(rng), 1.])
        t = f.make_rectangle(sc)
        o = f.object(2, t) if not isinstance(t, G.ObjectSet) else t
        corners = [sc * np.array(x) for x in ((1, 1, 0), (1, -1, 0), (-1, -1, 0), (-1, 1, 0))]
        ins = [sc * np.append(R.uniform(-.97, .97, 2), 0) for _ in range(4)]
        out = [sc * np.array([R.choice([-1, 1]) * R.uniform(1.03, 2), R.uniform(-1, 1), 0]), sc * np.array([R.uniform(-1, 1), R.choice([-1, 1]) * R.uniform(1.03, 2), 0])]
        s = Shape(o, 2, corners, 4 * sc[0] * sc[1], ins, out, [0, 0, 0])
        s.frame = (np.array([1, 0, 0.]), np.array([0, 1, 0.]))
    s.kind = kind
    return s


def transform(s, rng, mon):
    kind = rng.choice(['translate', 'rotate', 'scale'])
    c = vec(rng)
    use_c = rng.random() < .5
    if kind == 'translate':
        v = vec(rng)
        r = s.obj.translate(numbers(rng, v))
        s.b = s.b + np.array(v)
    else:
        if kind == 'rotate':
            ax = vec(rng)
            ax = ax if np.linalg.norm(ax) > .2 else [0, 0, 1]
            ang = rng.choice([math.pi / 2, -math.pi / 3, rng.uniform(-4, 4)])
            M = gm.rotation(ax, ang)
            args = (numbers(rng, ax), ang)
        else:
            k = [rng.choice([1, 2, .5, round(rng.uniform(.3, 3), 3), -1 if rng.random() < .2 else 1]) for _ in range(3)]
            M = np.diag(np.array(k, float))
            s.stretched = True
            args = (numbers(rng, k),)
        r = getattr(s.obj, kind)(*args, numbers(rng, c)) if use_c else getattr(s.obj, kind)(*args)
        if not use_c:
            c = [0, 0, 0]
        s.A = M @ s.A
        s.b = M @ (s.b - np.array(c)) + np.array(c)
    mon.need(r is s.obj, 'result of transform', '{}', kind)
    mon.ev('transforms')
    return kind


def corners_of(obj):
    """positions of end points of curves, found by the wrapper's own boundaries"""
    o = obj
    pts = []
    for d, t in obj.dim_tags:
        for _, v in ([(0, t)] if d == 0 else G.gmsh.model.getBoundary([(d, t)], combined=False, oriented=False, recursive=True)):
            pts.append(G.gmsh.model.getValue(0, v, []))
    return np.array(sorted({tuple(np.round(p, 9)) for p in pts}))


def observe(s, mon, what):
    f = s.obj.factory
    o = s.obj
    mon.need(len(o.dim_tags) == 1 and o.dim_tags[0][0] == s.dim and o.size == 1 and o.tags == [o.dim_tags[0][1]], 'entity', '{}: {}', what, o.dim_tags)
    f.synchronize()
    mon.ev('shapes')
    local = np.linalg.norm(s.A, 2) * (1 + np.linalg.norm(s.corners) + np.linalg.norm(s.center0))
    size = local + 1e-4 * np.linalg.norm(s.b) if s.micro else 1 + local + np.linalg.norm(s.b)
    m = G.gmsh.model
    if s.dim:
        mass, c = s.measure(), s.center()
        # OCC integrates stretched cylinders (spline surfaces) only roughly
        tol = s.tol()
        mon.need(abs(o.mass() - mass) <= tol * mass, 'mass', '{}: {} should be {}', what, o.mass(), mass)
        cm, tot = o.center_of_mass()
        mon.need(abs(tot - mass) <= tol * mass and np.linalg.norm(cm - c) <= tol * size, 'centre of mass', '{}: {} {} should be {} {}', what, cm, tot, c, mass)
    d, t = o.dim_tags[0]
    if len(s.corners):
        if d == 0:
            got = np.array([m.getValue(0, t, [])])
        else:
            got = np.array([m.getValue(0, v, []) for v in sorted({v for _, v in m.getBoundary([(d, t)], combined=False, oriented=False, recursive=True)})])
        want = s.map(s.corners)
        mon.need(len(got) == len(want), 'corners', '{}: {} corners, should be {}', what, len(got), len(want))
        D = np.linalg.norm(got[:, None] - want[None], axis=2)
        mon.need(D.min(axis=0).max() < 1e-6 * size and D.min(axis=1).max() < 1e-6 * size, 'corners', '{}: corners {} should be {}', what, got.tolist(), want.tolist())
        mon.ev('corners', len(want))
    for pts, yes in ((s.inside, True), (s.outside, False)) if not s.micro else ():
        for p in pts:
            q = s.map(p)
            r = bool(m.isInside(d, t, q.tolist()))
            if d < 3 and r:
                r = np.linalg.norm(np.array(m.getClosestPoint(d, t, q.tolist())[0]) - q) < 1e-5 * size
            mon.need(r == yes, 'points', '{}: point {} should be {}', what, q.tolist(), 'inside' if yes else 'outside')
            mon.ev('points')


def boundary(s, mon, what, rng):
    nb = {'rectangle': 4, 'make_rectangle': 4, 'box': 6, 'cylinder': 3, 'polygon': len(s.corners), 'simplex': s.dim + 1}[s.kind]
    comb = rng.random() < .5
    b = s.obj.get_boundary(combined=comb)
    mon.need(len(b.dim_tags) == nb and all(d == s.dim - 1 for d, t in b.dim_tags), 'boundary', '{}: {}', what, b.dim_tags)
    mon.need([r.name for r in b.regions] == ['default_%dd' % (s.dim - 1)] * nb, 'boundary', '{}: regions {}', what, b.regions)
    # divergence theorem free check: mass of the boundary of known shapes
    if s.kind in ('rectangle', 'make_rectangle', 'polygon') or (s.kind == 'simplex' and s.dim == 2):
        c = s.map(s.corners)
        if s.kind == 'rectangle':
            c = c[[0, 1, 3, 2]]
        per = np.linalg.norm(c - np.roll(c, -1, axis=0), axis=1).sum()
        mon.need(abs(b.mass() - per) < 1e-5 * per, 'boundary', '{}: length {} should be {}', what, b.mass(), per)
    if s.kind == 'box':
        c = s.map(s.corners)
        e = [c[4] - c[0], c[2] - c[0], c[1] - c[0]]
        a = 2 * sum(np.linalg.norm(np.cross(e[i], e[i - 1])) for i in range(3))
        mon.need(abs(b.mass() - a) < 1e-5 * a, 'boundary', '{}: area {} should be {}', what, b.mass(), a)
    mon.ev('boundaries')


def run(case, mon):
    rng = random.Random(case['seed'])
    f = G.GeometryOCC('m', 'geo' if case['geo'] else 'occ')
    try:
        if case['geo']:
            geo(f, rng, mon)
        elif case['kind'] == 'fractures':
            fractures(f, rng, mon)
        else:
            shapes(f, rng, mon, case)
    finally:
        gmshutil.close(f)


def geo(f, rng, mon):
    """the same interface over the built-in kernel of GMSH"""
    d = rng.randrange(4)
    o = f.make_simplex(d)
    v = vec(rng)
    o.translate(v)
    f.synchronize()
    got = sorted(tuple(np.round(G.gmsh.model.getValue(0, t, []), 6)) for _, t in ([o.dim_tags[0]] if d == 0 else G.gmsh.model.getBoundary(o.dim_tags, recursive=True, oriented=False, combined=False)))
    want = sorted(tuple(np.round(np.array(p) + v, 6)) for p in [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)][:d + 1])
    mon.need(np.allclose(got, want, atol=1e-5), 'corners', 'geo simplex {}: {} should be {}', d, got, want)


def shapes(f, rng, mon, case):
    all_ = []
    for _ in range(case['n']):
        kind = rng.choice(KINDS)
        s = make(f, rng, kind)
        mon.need(isinstance(s.obj, G.ObjectSet) and s.obj.factory is f, 'result', kind)
        if rng.random() < .1:
            # far smaller or greater than the unit
            k = 10 ** rng.choice([rng.uniform(-4, -2), rng.uniform(2, 4)])
            s.obj.scale([k] * 3)
            s.A = s.A * k
            s.stretched = s.micro = True
            mon.ev('other magnitude')
        if rng.random() < .5:
            observe(s, mon, kind)
        all_.append(s)
    hist = []
    for _ in range(rng.choice([0, 1, 2, 4])):
        s = rng.choice(all_)
        k = rng.random()
        if k < .25:
            c = s.clone(s.obj.copy())
            c.kind = s.kind
            mon.need(c.obj.dim_tags != s.obj.dim_tags, 'copy', 'the same entity')
            if rng.random() < .7:
                transform(c, rng, mon)
            observe(s, mon, 'original of a copy of ' + s.kind)
            all_.append(c)
            mon.ev('copies')
        else:
            hist.append(transform(s, rng, mon))
    for s in all_:
        observe(s, mon, s.kind)
    for s in all_:
        if s.dim and rng.random() < .5:
            boundary(s, mon, s.kind, rng)
    mon.state(sorted(s.kind for s in all_), hist)
    # groups: transforms, measures
    g = [s for s in all_ if s.dim == all_[0].dim and s.dim]
    if len(g) > 1:
        o = f.group(*[s.obj for s in g])
        M = sum(s.measure() for s in g)
        C = sum(s.measure() * s.center() for s in g) / M
        cm, tot = o.center_of_mass()
        tol = max(s.tol() for s in g)
        mon.need(abs(o.mass() - M) < tol * M and abs(tot - M) < tol * M and np.linalg.norm(cm - C) < 3 * tol * (1 + max(np.linalg.norm(s.center()) for s in g)), 'centre of mass', 'group: {} {} should be {} {}', cm, tot, C, M)
        t = Shape(o, g[0].dim, [], 1, [], [], [0, 0, 0])
        transform(t, rng, mon)
        for s in g:
            s.A = t.A @ s.A
            s.b = t.A @ s.b + t.b
            s.stretched |= t.stretched
            s.micro |= any(x.micro for x in g)
        for s in all_:
            observe(s, mon, 'group ' + s.kind)
        mon.ev('groups')
        ms = [s.measure() for s in g]
        lim = rng.choice([0.] + ms) * 1.1
        if all(abs(x - lim) > .05 * lim for x in ms):
            keep = [s.obj.dim_tags[0] for s, x in zip(g, ms) if x > lim]
            r = o.remove_small_mass(lim)
            mon.need(list(r.dim_tags) == keep and len(r.regions) == len(keep), 'remove_small_mass', 'limit {}: {} of {}', lim, r.dim_tags, [(s.obj.dim_tags, s.measure()) for s in g])


def fractures(f, rng, mon):
    """every fracture becomes the scaled, rotated and moved base shape, cut by the others along their common lines"""
    R = np.random.RandomState(rng.getrandbits(30))
    n = rng.choice([1, 2, 3, 5])
    base = f.rectangle([1, 1]) if rng.random() < .7 else f.make_polygon([[-.5, -.5, 0], [.5, -.5, 0], [.5, .5, 0], [-.5, .5, 0]])
    fr = []
    for i in range(n):
        x = types.SimpleNamespace(rx=R.uniform(1, 3), ry=R.uniform(1, 3), rotation_axis=R.uniform(-1, 1, 3), rotation_angle=R.uniform(-3, 3), centre=R.uniform(-.7, .7, 3), region='fr_%d' % i)
        if rng.random() < .3:
            x.region = G.Region.get('fr_%d' % i)
        x.A = gm.rotation(x.rotation_axis, x.rotation_angle) @ np.diag([x.rx, x.ry, 1])
        fr.append(x)
    res = f.make_fractures(fr, base)
    mon.need(len(res) == n, 'fractures', '{} results of {}', len(res), n)
    f.synchronize()
    m = G.gmsh.model
    for i, (x, o) in enumerate(zip(fr, res)):
        mon.ev('fractures')
        mon.need(all(r.name == 'fr_%d' % i for r in o.regions) and all(d == 2 for d, t in o.dim_tags), 'fracture region', '{}: {}', i, o.regions)
        mon.need(abs(o.mass() - x.rx * x.ry) < 1e-5 * x.rx * x.ry, 'fracture area', '{}: {} should be {}', i, o.mass(), x.rx * x.ry)
        cm, tot = o.center_of_mass()
        mon.need(np.linalg.norm(cm - x.centre) < 1e-5, 'fracture centre', '{}: {} should be {}', i, cm, x.centre)
        for _ in range(4):
            p = x.A @ np.append(R.uniform(-.5, .5, 2), 0) + x.centre
            k = sum(1 for d, t in o.dim_tags if m.isInside(d, t, p.tolist()) and np.linalg.norm(np.array(m.getClosestPoint(d, t, p.tolist())[0]) - p) < 1e-6)
            mon.need(k >= 1, 'fracture points', '{}: point {} in no fragment', i, p.tolist())
            mon.ev('points')
    mine = {tuple(x) for o in res for x in o.dim_tags}
    curves = [c for _, c in m.getEntities(1) if mine & {(2, x) for x in m.getAdjacencies(1, c)[0]} or not len(m.getAdjacencies(1, c)[0])]
    # on the crossing line of two fractures each piece has a curve
    for i in range(n):
        for j in range(i):
            a, b = fr[i], fr[j]
            na, nb = a.A[:, 2] / np.linalg.norm(a.A[:, 2]), b.A[:, 2] / np.linalg.norm(b.A[:, 2])
            d = np.cross(na, nb)
            if np.linalg.norm(d) < .2:
                continue
            d = d / np.linalg.norm(d)
            p0 = np.linalg.solve(np.array([na, nb, d]), [na @ a.centre, nb @ b.centre, d @ a.centre])
            ts = np.linspace(-5, 5, 201)
            pts = p0 + ts[:, None] * d
            ok = np.ones(len(ts), bool)
            for x in (a, b):
                loc = np.linalg.solve(x.A, (pts - x.centre).T)[:2].T
                ok &= (np.abs(loc) < .47).all(axis=1)
            for p in pts[ok][::7]:
                mon.ev('crossings')
                for o, q in ((res[i], i), (res[j], j)):
                    near = [np.linalg.norm(np.array(m.getClosestPoint(1, c, p.tolist())[0]) - p) for c in curves]
                    mon.need(min(near) < 1e-5, 'fractures not fragmented', 'fracture {}: no curve at the crossing point {} (distance {})', q, p.tolist(), min(near))
    mon.state('fractures', n, [o.size for o in res])
