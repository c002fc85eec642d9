"""Helpers shared by the checks of the polygon package (plain data only, no knowledge of the algorithms)."""
import math
from fractions import Fraction as Fr
from bgem import undo
from bgem.polygons import polygons as bp
from . import pdcheck, pddrive, planar


def fresh(enable=False):
    undo.setstack(undo.Stack())
    if enable:
        bp.enable_undo()
    else:
        bp.disable_undo()
    return undo.stack()


def pick(d, r):
    ks = sorted(d)
    return d[ks[min(int(r * len(ks)), len(ks) - 1)]] if ks else None


def inner_point(F, edges, f):
    """(width, exact interior point) of the bounded face f of the oracle: scanline through the widest gap"""
    cyc = [h for c in [F.outer_cycle[f]] + sorted(F.holes[f]) for h in F.cycles[c]]
    ys = sorted({F.P[v][1] for h in cyc for v in edges[h[0]]})
    best = None
    for y0, y1 in zip(ys[:-1], ys[1:]):
        y = Fr(y0 + y1, 2)
        xs = []
        for h in cyc:
            a, b = edges[h[0]]
            pa, pb = F.P[a], F.P[b]
            if (pa[1] < y) != (pb[1] < y):
                xs.append(pa[0] + (pb[0] - pa[0]) * (y - pa[1]) / Fr(pb[1] - pa[1]))
        xs.sort()
        for x0, x1 in zip(xs[0::2], xs[1::2]):
            w = min(x1 - x0, (y1 - y0))
            if best is None or w > best[0]:
                best = (w, ((x0 + x1) / 2 / F.den, y / F.den))
    return float(best[0] / F.den), best[1]


def walk(F, edges, cyc):
    """vertices along a boundary cycle (end vertex of every half edge)"""
    out = []
    for e, d in cyc:
        a, b = edges[e]
        out.append(a if d else b)
    return out


def rotations_equal(a, b):
    if len(a) != len(b):
        return False
    if not a:
        return True
    return any(list(b) == list(a[k:]) + list(a[:k]) for k in range(len(a)))


def seg_dist(p, a, b):
    ux, uy = b[0] - a[0], b[1] - a[1]
    l2 = ux * ux + uy * uy
    t = ((p[0] - a[0]) * ux + (p[1] - a[1]) * uy) / l2 if l2 else 0.0
    t = min(1.0, max(0.0, t))
    return math.hypot(a[0] + t * ux - p[0], a[1] + t * uy - p[1]), t


def snapshot(pd):
    """Everything observable: ids, coordinates, end points, boundary vertices, free points, attributes"""
    return {'points': {k: (float(p.xy[0]), float(p.xy[1]), p.attr) for k, p in pd.points.items()},
            'segments': {k: (s.vtxs[0].id, s.vtxs[1].id, s.attr) for k, s in pd.segments.items()},
            'polygons': {k: (tuple(sorted(v.id for v in p.vertices())),
                             tuple(sorted(q.id for q in p.free_points)), p.attr) for k, p in pd.polygons.items()}}


def diff(a, b):
    out = []
    for kind in a:
        for k in sorted(set(a[kind]) | set(b[kind])):
            if a[kind].get(k) != b[kind].get(k):
                out.append('%s %s: %s -> %s' % (kind, k, a[kind].get(k), b[kind].get(k)))
    return out


def build(case_map, ops, mon, after=None):
    """Drive a decomposition through ops (kept in exact correspondence with the model)."""
    d = pddrive.Drive(pddrive.make_map(case_map), mon)
    for op in ops:
        if d.apply(op) is not None:
            d.rematch()
            if after:
                after(d)
    return d
