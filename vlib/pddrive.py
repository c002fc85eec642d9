"""Drives a real PolygonDecomposition and the exact model side by side."""
import math
from fractions import Fraction
from .core import Violation
from . import planar, pdcheck, pdmodel
from .pdmodel import Map, Model

from bgem.polygons import polygons as bp
from bgem.polygons.decomp import PolygonChange

TOL = 0.01          # snapping tolerance in model units
SEP = 3.0 * TOL     # inputs keep all features of the drawing further apart than this


def make_map(d):
    return Map(d['scale'], d['angle'], d['shift'])


def gen_map(rng):
    k = rng.random()
    if k < 0.25:
        return {'scale': 1.0, 'angle': 0.0, 'shift': [0.0, 0.0]}
    if k < 0.4:
        return {'scale': 1.0, 'angle': rng.choice([math.pi / 2, math.pi, -math.pi / 2, math.pi / 4]), 'shift': [0.0, 0.0]}
    if k < 0.6:
        return {'scale': 1.0, 'angle': rng.uniform(0, 6.28), 'shift': [rng.uniform(-20, 20), rng.uniform(-20, 20)]}
    sc = 10 ** rng.uniform(-3, 4)
    far = sc * 10 ** rng.choice([3, 3, 3, 4, 5, 6])      # map coordinates (UTM, S-JTSK)
    return {'scale': sc, 'angle': rng.uniform(0, 6.28), 'shift': [far * rng.uniform(-1, 1), far * rng.uniform(-1, 1)]}


def structured_lines(rng, N):
    """Line lists with nesting, combs, islands, touching cycles: shapes random lines seldom produce."""
    out = []
    kind = rng.choice(['nest', 'comb', 'islands', 'touch', 'grid', 'star', 'chain', 'zigzag', 'spiral'])

    def box(x0, y0, x1, y1):
        c = [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]
        if rng.random() < 0.5:
            c.reverse()
        k = rng.randrange(4)
        c = c[k:] + c[:k]
        return [(c[i], c[(i + 1) % 4]) for i in range(4)]
    if kind == 'nest':
        n = min(N // 2, rng.randint(2, 4))
        for i in range(n):
            out += box(i, i, N - i, N - i)
        if rng.random() < 0.5:
            rng.shuffle(out)
        out.append(((0, 0), (n - 1, n - 1)))
        if rng.random() < 0.5:
            out.append(((N, N), (N - n + 1, N - n + 1)))
        out.append(((N // 2, N // 2), (N // 2, N)))
    elif kind == 'comb':
        out.append(((0, 0), (N, 0)))
        for i in range(0, N + 1, rng.choice([1, 2])):
            out.append(((i, 0), (i, rng.randint(1, N))))
        out.append(((0, N), (N, N)))
        if rng.random() < 0.6:
            out.append(((0, 0), (0, N)))
            out.append(((N, 0), (N, N)))
    elif kind == 'islands':
        out += box(0, 0, N, N)
        for _ in range(rng.randint(1, 3)):
            x, y = rng.randint(1, N - 2), rng.randint(1, N - 2)
            if rng.random() < 0.5:
                out += box(x, y, x + 1, y + 1)
            else:
                out += [((x, y), (x + 1, y)), ((x + 1, y), (x, y + 1)), ((x, y + 1), (x, y))]
        out.append(((0, 0), (1, 1)))
        if rng.random() < 0.5:
            rng.shuffle(out)
    elif kind == 'touch':
        out += box(0, 0, N, N)
        m = N // 2
        out += [((0, 0), (m, 1)), ((m, 1), (1, m)), ((1, m), (0, 0))]
        out += [((N, N), (m, N - 1)), ((m, N - 1), (N - 1, m)), ((N - 1, m), (N, N))]
        if rng.random() < 0.5:
            rng.shuffle(out)
    elif kind == 'grid':
        k = rng.choice([1, 2])
        for i in range(0, N + 1, k):
            out.append(((0, i), (N, i)))
            out.append(((i, 0), (i, N)))
        rng.shuffle(out)
    elif kind == 'star':
        c = (N // 2, N // 2)
        for _ in range(rng.randint(4, 9)):
            out.append((c, (rng.randint(0, N), rng.randint(0, N))))
        out += box(0, 0, N, N)
    elif kind == 'chain':
        p = (rng.randint(0, N), rng.randint(0, N))
        for _ in range(rng.randint(5, 12)):
            q = (rng.randint(0, N), rng.randint(0, N))
            out.append((p, q))
            p = q
    elif kind == 'zigzag':
        # deeply nonconvex polygon
        pts = [(i, (i % 2) * (N - 1) + (0 if i % 2 else 1)) for i in range(N + 1)]
        for a, b in zip(pts[:-1], pts[1:]):
            out.append((a, b))
        out += [((0, 1), (0, N + 1)), ((0, N + 1), (N, N + 1)), ((N, N + 1), pts[-1])]
    else:
        x0, y0, x1, y1 = 0, 0, N, N
        p = (0, 0)
        while x1 - x0 >= 2 and y1 - y0 >= 2:
            path = [(x1, y0), (x1, y1), (x0, y1), (x0, y0 + 2)]
            for q in path:
                out.append((p, q))
                p = q
            x0, y0, x1, y1 = x0 + 2, y0 + 2, x1 - 2, y1 - 2
            out.append((p, (x0, y0)))
            p = (x0, y0)
        out += box(-1, -1, N + 1, N + 1)
    return [['L', a[0], a[1], b[0], b[1]] for a, b in out]


def multiscale_ops(rng, n, dels=0.15, points=0.05):
    """Long lines with details thousands of times shorter: near ends of the lines, near other vertices, next to each other."""
    L = rng.choice([40, 300, 2000, 2000])
    h = rng.choice([1 / 16, 1 / 16, 1 / 8, 1 / 2])
    centers = [(rng.randint(0, 10) * L // 10, rng.randint(0, 10) * L // 10) for _ in range(rng.randint(2, 4))]
    if rng.random() < .6:
        centers[1] = (centers[0][0], centers[1][1])

    def near():
        c = rng.choice(centers)
        return [c[0] + h * rng.randint(-4, 4), c[1] + h * rng.randint(-4, 4)] if rng.random() < .8 else list(c)
    ops = []
    for _ in range(n):
        r = rng.random()
        if r < dels:
            ops.append(['D', round(rng.random(), 6)])
        elif r < dels + points:
            ops.append(['P'] + near())
        elif len(ops) == 0 and rng.random() < .5:
            # a ladder across a long line
            (x, y), w = rng.choice(centers), rng.randint(2, 4)
            t = rng.random() < .5
            ladder = [[x + i * h, y - w * h, x + i * h, y + w * h] for i in range(-rng.randint(0, 2), 3)]
            ladder += [[x - L / 2, y, x + rng.choice([w * h, L / 2]), y]]
            ops += [['L'] + (l[:] if t else [l[1] - y + x, l[0] - x + y, l[3] - y + x, l[2] - x + y]) for l in ladder]
        elif r < .5:
            ops.append(['L'] + near() + near())
        else:
            a = near()
            ops.append(['L'] + a + [a[0] + h * rng.randint(-8, 8), a[1] + h * rng.randint(-8, 8)])
    return ops


def gen_ops(rng, n, N, dels=0.25, points=0.1, structured=0.4, undo=0.0, attr=0.0, dense=0.0):
    ops = []
    if rng.random() < structured:
        ops += structured_lines(rng, N)
    while len(ops) < n:
        r = rng.random()
        if r < dels * 0.8:
            ops.append(['D', round(rng.random(), 6)])
        elif r < dels:
            ops.append(['Q', round(rng.random(), 6)])
        elif r < dels + points:
            ops.append(['P', rng.randint(0, N), rng.randint(0, N)])
        elif r < dels + points + undo:
            ops.append(['U'] if rng.random() < 0.6 else ['R'])
        elif r < dels + points + undo + attr:
            ops.append(['A', rng.choice('psw'), round(rng.random(), 6), rng.randrange(1000)])
        else:
            a = (rng.randint(0, N), rng.randint(0, N))
            if rng.random() < dense:
                b = (a[0] + rng.randint(-2, 2), a[1] + rng.randint(-2, 2))
            else:
                b = (rng.randint(0, N), rng.randint(0, N))
            ops.append(['L', a[0], a[1], b[0], b[1]])
    return ops


class Drive:
    """
    One decomposition + one model.  apply(op) performs the operation on both (or skips it when the exact drawing
    would get features closer than SEP) and leaves the correspondence in self.pt_of / self.seg_of.
    """

    def __init__(self, fmap=None, mon=None, tol=TOL):
        self.map = fmap or Map()
        self.tol = tol * self.map.scale
        self.pd = bp.PolygonDecomposition(self.tol)
        self.m = Model()
        self.mon = mon
        self.pt_of, self.seg_of = {}, {}
        self.result = None

    @property
    def eps(self):
        return 1e-4 * TOL * self.map.scale

    def seg(self, e):
        for sid, ee in self.seg_of.items():
            if ee == e:
                return self.pd.segments[sid]
        raise Violation('lost segment', 'edge %r has no segment' % (e,))

    def point(self, p):
        for pid, pp in self.pt_of.items():
            if pp == p:
                return self.pd.points[pid]
        raise Violation('lost point', 'vertex %r has no point' % (p,))

    def plan(self, op):
        """-> (new model, action, info) or None when skipped"""
        m2 = self.m.copy()
        k = op[0]
        if k == 'L':
            a, b = (Fraction(op[1]), Fraction(op[2])), (Fraction(op[3]), Fraction(op[4]))
            path = m2.add_line(a, b)
            act = lambda: self.pd.add_line(self.map(a), self.map(b))
            info = ('L', a, b, path)
        elif k == 'P':
            a = (Fraction(op[1]), Fraction(op[2]))
            m2.add_point(a)
            act = lambda: self.pd.add_point(self.map(a))
            info = ('P', a)
        elif k == 'D':
            e = self.m.pick_edge(op[1])
            if e is None:
                return None
            m2.del_edge(e)
            act = lambda: self.pd.delete_segment(self.seg(e))
            info = ('D', e)
        elif k == 'Q':
            p = self.m.pick_point(op[1])
            if p is None:
                return None
            m2.del_point(p)
            act = lambda: self.pd.delete_point(self.point(p))
            info = ('Q', p)
        else:
            raise ValueError(op)
        if k in 'LP' and m2.separation() < SEP:
            return None
        return m2, act, info

    def apply(self, op):
        pl = self.plan(op)
        if pl is None:
            if self.mon:
                self.mon.ev('op skipped')
            return None
        m2, act, info = pl
        self.result = act()
        self.m = m2
        if self.mon:
            self.mon.ev('op ' + op[0])
        return info

    def rematch(self):
        try:
            self.pt_of, self.seg_of = pdmodel.match(self.m, self.pd, self.map, self.eps)
        except pdmodel.Mismatch as e:
            raise Violation(e.key, str(e))

    def structure(self):
        try:
            return pdcheck.check(self.pd)
        except pdcheck.Broken as e:
            raise Violation('structure ' + e.key, str(e))

    def sig(self):
        return (len(self.m.pts), sorted(tuple(sorted((str(x), str(y)) for x, y in e)) for e in self.m.edges))


def structure(pd):
    try:
        return pdcheck.check(pd)
    except pdcheck.Broken as e:
        raise Violation('structure ' + e.key, str(e))
