"""
Exact executable model of a drawing made of points and lines (Fractions, no tolerance), operated in parallel with a
PolygonDecomposition.  Model coordinates are lattice points; the code under test gets them through a similarity map
(rotation, scale, shift), so that exact incidences reach it with rounding noise.
"""
from fractions import Fraction
import math
from . import planar

Fr = Fraction


class Map:
    """model (x, y) -> float coordinates"""

    def __init__(self, scale=1.0, angle=0.0, shift=(0.0, 0.0)):
        self.scale, self.angle, self.shift = scale, angle, tuple(shift)
        self.c, self.s = (1.0, 0.0) if angle == 0.0 else (math.cos(angle), math.sin(angle))

    def __call__(self, p):
        x, y = float(p[0]), float(p[1])
        return (self.scale * (self.c * x - self.s * y) + self.shift[0],
                self.scale * (self.s * x + self.c * y) + self.shift[1])


class Model:
    def __init__(self):
        self.pts = {}        # (x, y) -> attr
        self.edges = {}      # frozenset(p, q) -> attr
        self.sep = None

    def copy(self):
        m = Model()
        m.pts = dict(self.pts)
        m.edges = dict(self.edges)
        return m

    def add_point(self, p):
        p = (Fr(p[0]), Fr(p[1]))
        if p in self.pts:
            return p
        hit = [e for e in self.edges if planar.on_segment(*tuple(e), p)]
        self.pts[p] = None
        for e in hit:
            attr = self.edges.pop(e)
            for q in e:
                self.edges[frozenset((p, q))] = attr
        return p

    def add_line(self, a, b):
        """Returns the list of edges along the line (in order) or None for a point."""
        a, b = self.add_point(a), self.add_point(b)
        if a == b:
            return None
        on = {a, b}
        for p in self.pts:
            if p not in on and planar.on_segment(a, b, p):
                on.add(p)
        for e in list(self.edges):
            c, d = tuple(e)
            den = (b[0] - a[0]) * (d[1] - c[1]) - (b[1] - a[1]) * (d[0] - c[0])
            if den == 0:
                continue
            t = ((c[0] - a[0]) * (d[1] - c[1]) - (c[1] - a[1]) * (d[0] - c[0])) / den
            u = ((c[0] - a[0]) * (b[1] - a[1]) - (c[1] - a[1]) * (b[0] - a[0])) / den
            if 0 < t < 1 and 0 < u < 1:
                on.add(self.add_point((a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]))))
        dx, dy = b[0] - a[0], b[1] - a[1]
        order = sorted(on, key=lambda p: (p[0] - a[0]) * dx + (p[1] - a[1]) * dy)
        path = [frozenset(pq) for pq in zip(order[:-1], order[1:])]
        for e in path:
            self.edges.setdefault(e, None)
        return path

    def del_edge(self, e):
        del self.edges[e]

    def del_point(self, p):
        for e in [e for e in self.edges if p in e]:
            del self.edges[e]
        del self.pts[p]

    # -- deterministic selection, independent of ids of the code under test
    def pick_edge(self, r):
        es = sorted(tuple(sorted(e)) for e in self.edges)
        return frozenset(es[min(int(r * len(es)), len(es) - 1)]) if es else None

    def pick_point(self, r):
        ps = sorted(self.pts)
        return ps[min(int(r * len(ps)), len(ps) - 1)] if ps else None

    def separation(self):
        """smallest distance of two points / of a point and a non incident edge (float, numpy)"""
        import numpy as np
        ps = list(self.pts)
        if len(ps) < 2:
            return math.inf
        P = np.array([(float(x), float(y)) for x, y in ps])
        D = np.hypot(P[:, None, 0] - P[None, :, 0], P[:, None, 1] - P[None, :, 1])
        np.fill_diagonal(D, np.inf)
        best = D.min()
        if self.edges:
            ix = {p: i for i, p in enumerate(ps)}
            E = np.array([[ix[p] for p in e] for e in self.edges])
            A, B = P[E[:, 0]], P[E[:, 1]]
            U = B - A
            L2 = (U ** 2).sum(1)
            W = P[None, :, :] - A[:, None, :]
            T = np.clip((W * U[:, None, :]).sum(2) / L2[:, None], 0, 1)
            R = W - T[:, :, None] * U[:, None, :]
            d = np.hypot(R[:, :, 0], R[:, :, 1])
            d[np.arange(len(E)), E[:, 0]] = np.inf
            d[np.arange(len(E)), E[:, 1]] = np.inf
            best = min(best, d.min())
        return float(best)

    def faces(self):
        pts = {i: p for i, p in enumerate(self.pts)}
        ix = {p: i for i, p in pts.items()}
        edges = {e: tuple(ix[p] for p in sorted(e)) for e in self.edges}
        return planar.build_faces(pts, edges, check=False)


class Mismatch(Exception):
    def __init__(self, key, msg):
        super().__init__(msg)
        self.key = key


def match(model, pd, fmap, eps):
    """
    Pair the model with the decomposition. eps: allowed coordinate error (in code coordinates).
    Returns (point id -> model point, segment id -> model edge); raises Mismatch.
    """
    grid = {}
    cell = max(8 * eps, 1e-300)
    loc = {}
    for p in model.pts:
        x, y = fmap(p)
        loc[p] = (x, y)
        grid.setdefault((math.floor(x / cell), math.floor(y / cell)), []).append(p)
    pt_of = {}
    used = {}
    for pid, pt in pd.points.items():
        x, y = float(pt.xy[0]), float(pt.xy[1])
        cx, cy = math.floor(x / cell), math.floor(y / cell)
        best = None
        for i in (cx - 1, cx, cx + 1):
            for j in (cy - 1, cy, cy + 1):
                for p in grid.get((i, j), ()):
                    d = math.hypot(loc[p][0] - x, loc[p][1] - y)
                    if d <= eps and (best is None or d < best[0]):
                        best = (d, p)
        if best is None:
            raise Mismatch('extra point', 'point %d at (%r, %r) is no vertex of the drawing' % (pid, x, y))
        p = best[1]
        if p in used:
            raise Mismatch('duplicate point', 'points %d and %d are the same vertex (%r, %r)' % (used[p], pid, x, y))
        used[p] = pid
        pt_of[pid] = p
    for p in model.pts:
        if p not in used:
            raise Mismatch('lost point', 'vertex at %r is missing' % (fmap(p),))
    seg_of, seen = {}, {}
    for sid, s in pd.segments.items():
        e = frozenset(pt_of[v.id] for v in s.vtxs)
        if e not in model.edges:
            raise Mismatch('extra segment', 'segment %d %s is not part of the drawing' % (sid, [tuple(v.xy) for v in s.vtxs]))
        if e in seen:
            raise Mismatch('duplicate segment', 'segments %d and %d are the same edge' % (seen[e], sid))
        seen[e] = sid
        seg_of[sid] = e
    for e in model.edges:
        if e not in seen:
            raise Mismatch('lost segment', 'edge %r of the drawing is missing' % ([fmap(p) for p in e],))
    return pt_of, seg_of
