"""
Independent exact planar-subdivision oracle.

Everything here works on plain data (dicts of coordinates and pairs of vertex keys) with exact
integer arithmetic; nothing is imported from the code under test.

build_faces(points, edges) computes the cyclic order around every vertex, the boundary cycles,
which cycle is the outer boundary of which face, and the nesting of the connected components.
"""
from fractions import Fraction
from functools import cmp_to_key
import math


class NotPlanar(Exception):
    pass


def scale_points(points):
    """dict key -> (x, y) floats/Fractions  ->  dict key -> (int, int) with common power-of-two scale."""
    fr = {k: (Fraction(x), Fraction(y)) for k, (x, y) in points.items()}
    den = 1
    for x, y in fr.values():
        den = den * x.denominator // math.gcd(den, x.denominator)
        den = den * y.denominator // math.gcd(den, y.denominator)
    return {k: (int(x * den), int(y * den)) for k, (x, y) in fr.items()}, den


def orient(a, b, c):
    v = (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
    return (v > 0) - (v < 0)


def on_segment(a, b, p):
    """p on closed segment ab (exact)"""
    if orient(a, b, p) != 0:
        return False
    return min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])


def segments_cross(a, b, c, d):
    """True when open segments ab, cd share a point which is not a shared endpoint position."""
    o1, o2, o3, o4 = orient(a, b, c), orient(a, b, d), orient(c, d, a), orient(c, d, b)
    if o1 * o2 < 0 and o3 * o4 < 0:
        return True
    for p, (u, v) in ((c, (a, b)), (d, (a, b)), (a, (c, d)), (b, (c, d))):
        if p != u and p != v and on_segment(u, v, p):
            return True
    # identical segments
    if {a, b} == {c, d}:
        return True
    return False


def _half(v):
    return 0 if (v[1] > 0 or (v[1] == 0 and v[0] > 0)) else 1


def angle_cmp(u, v):
    hu, hv = _half(u), _half(v)
    if hu != hv:
        return -1 if hu < hv else 1
    cr = u[0] * v[1] - u[1] * v[0]
    return -1 if cr > 0 else (1 if cr < 0 else 0)


def check_planar(P, edges):
    """Raise NotPlanar on crossing edges, vertex inside an edge or coinciding vertices."""
    pos = {}
    for k, p in P.items():
        if p in pos:
            raise NotPlanar("points %s and %s coincide" % (pos[p], k))
        pos[p] = k
    el = []
    for ek, (a, b) in edges.items():
        if a == b:
            raise NotPlanar("edge %s has zero length" % (ek,))
        pa, pb = P[a], P[b]
        el.append((min(pa[0], pb[0]), max(pa[0], pb[0]), min(pa[1], pb[1]), max(pa[1], pb[1]), ek, pa, pb))
    el.sort(key=lambda t: t[:4])
    for i, (x0, x1, y0, y1, ek, a, b) in enumerate(el):
        for j in range(i + 1, len(el)):
            u0, u1, v0, v1, fk, c, d = el[j]
            if u0 > x1:
                break
            if v0 > y1 or v1 < y0:
                continue
            if segments_cross(a, b, c, d):
                raise NotPlanar("edges %s and %s cross or overlap" % (ek, fk))
    for k, p in P.items():
        for x0, x1, y0, y1, ek, a, b in el:
            if x0 <= p[0] <= x1 and y0 <= p[1] <= y1 and p != a and p != b and on_segment(a, b, p):
                raise NotPlanar("point %s lies inside edge %s" % (k, ek))


def cycle_area2(P, edges, cyc):
    s = 0
    for ek, d in cyc:
        a, b = edges[ek]
        if d:
            a, b = b, a
        pa, pb = P[a], P[b]
        s += pa[0] * pb[1] - pa[1] * pb[0]
    return s


def crossings_right(P, edges, halfedges, p):
    """Parity of crossings of the ray from p to +x with the half edges (edge used twice counts twice).
    p is a pair of Fractions/ints; half open rule."""
    n = 0
    for ek, _ in halfedges:
        a, b = edges[ek]
        ya, yb = P[a][1], P[b][1]
        if (ya <= p[1]) == (yb <= p[1]):
            continue
        pa, pb = P[a], P[b]
        if ya > yb:
            pa, pb = pb, pa
        # pa below, pb above; p left of the edge?
        o = (pb[0] - pa[0]) * (p[1] - pa[1]) - (pb[1] - pa[1]) * (p[0] - pa[0])
        if o > 0:
            n += 1
    return n % 2


class Faces:
    """
    nxt[(edge, d)]   next half edge with the face on the left (d=0 : a->b, d=1 : b->a)
    cycles           list of lists of half edges
    cyc_of[(edge,d)] index of the cycle
    face_of_cycle    face index; face 0 is the unbounded one
    outer_cycle[f]   cycle index (None for face 0)
    holes[f]         set of cycle indices
    point_face       isolated point -> face
    comp_hole_of_cycle[c]  for an outer (positive) cycle: the outside (non positive) cycle of its component
    """


def build_faces(points, edges, check=True):
    P, den = scale_points(points)
    if check:
        check_planar(P, edges)
    out = {k: [] for k in P}
    for ek, (a, b) in edges.items():
        out[a].append((ek, 0))
        out[b].append((ek, 1))

    def vec(h):
        ek, d = h
        a, b = edges[ek]
        if d:
            a, b = b, a
        return (P[b][0] - P[a][0], P[b][1] - P[a][1])

    F = Faces()
    F.P, F.den = P, den
    nxt = {}
    for k, hs in out.items():
        hs.sort(key=cmp_to_key(lambda u, v: angle_cmp(vec(u), vec(v))))
        n = len(hs)
        for i, h in enumerate(hs):
            # incoming twin of h, next with the face on the left = previous (clockwise) outgoing
            nxt[(h[0], 1 - h[1])] = hs[(i - 1) % n]
    F.nxt = nxt
    F.out = out
    # components
    parent = {k: k for k in P}

    def find(x):
        while parent[x] != x:
            parent[x] = parent[parent[x]]
            x = parent[x]
        return x
    for a, b in edges.values():
        parent[find(a)] = find(b)
    F.comp = {k: find(k) for k in P}

    cycles, cyc_of = [], {}
    for h in nxt:
        if h in cyc_of:
            continue
        c, cur = [], h
        while cur not in cyc_of:
            cyc_of[cur] = len(cycles)
            c.append(cur)
            cur = nxt[cur]
        cycles.append(c)
    F.cycles, F.cyc_of = cycles, cyc_of
    areas = [cycle_area2(P, edges, c) for c in cycles]
    F.areas = areas
    F.face_of_cycle = [None] * len(cycles)
    F.outer_cycle = [None]
    F.holes = [set()]
    for ci, ar in enumerate(areas):
        if ar > 0:
            F.face_of_cycle[ci] = len(F.outer_cycle)
            F.outer_cycle.append(ci)
            F.holes.append(set())
    comp_of_cycle = [F.comp[edges[c[0][0]][0]] for c in cycles]
    comp_outside = {}
    for ci, ar in enumerate(areas):
        if ar <= 0:
            assert comp_of_cycle[ci] not in comp_outside, "two outside cycles in a component"
            comp_outside[comp_of_cycle[ci]] = ci
    F.comp_outside = comp_outside
    F.comp_hole_of_cycle = {ci: comp_outside[comp_of_cycle[ci]] for ci, ar in enumerate(areas) if ar > 0}

    def locate(p, comp):
        """innermost face containing p, only among the other components"""
        best, best_area = 0, None
        for ci, ar in enumerate(areas):
            if ar <= 0 or comp_of_cycle[ci] == comp:
                continue
            if crossings_right(P, edges, cycles[ci], p):
                if best_area is None or ar < best_area:
                    best, best_area = F.face_of_cycle[ci], ar
        return best
    for comp, ci in comp_outside.items():
        a = edges[cycles[ci][0][0]][0]
        f = locate(P[a], comp)
        F.face_of_cycle[ci] = f
        F.holes[f].add(ci)
    F.point_face = {k: locate(P[k], F.comp[k]) for k in P if not out[k]}
    F.locate = lambda xy: locate((Fraction(xy[0]) * den, Fraction(xy[1]) * den), object())
    F.n_comp = len({F.comp[k] for k in P if out[k]})
    return F


def face_depth(F, f):
    """number of components boundaries / faces strictly containing face f as (#components)"""
    n = 0
    while f != 0:
        hole = F.comp_hole_of_cycle[F.outer_cycle[f]]
        f = F.face_of_cycle[hole]
        n += 1
    return n


# ---------------------------------------------------------------------------------------------
# Exact arrangement of a set of input segments

def arrangement(segments, isolated=()):
    """
    segments: list of ((x,y),(x,y)) exact numbers; isolated: list of (x,y).
    Returns (points: list of (Fraction, Fraction), edges: set of frozenset of index pairs,
             cover: dict edge -> set of indices of the input segments containing it)
    """
    S = [((Fraction(a[0]), Fraction(a[1])), (Fraction(b[0]), Fraction(b[1]))) for a, b in segments]
    pts = {}

    def idx(p):
        return pts.setdefault(p, len(pts))
    on = [set() for _ in S]
    for i, (a, b) in enumerate(S):
        on[i].add(a)
        on[i].add(b)
    iso = [(Fraction(p[0]), Fraction(p[1])) for p in isolated]
    for i, (a, b) in enumerate(S):
        for p in iso:
            if on_segment(a, b, p):
                on[i].add(p)
        for j in range(i):
            c, d = S[j]
            for p in (c, d):
                if on_segment(a, b, p):
                    on[i].add(p)
            for p in (a, b):
                if on_segment(c, d, p):
                    on[j].add(p)
            den = (b[0] - a[0]) * (d[1] - c[1]) - (b[1] - a[1]) * (d[0] - c[0])
            if den != 0:
                t = ((c[0] - a[0]) * (d[1] - c[1]) - (c[1] - a[1]) * (d[0] - c[0])) / den
                u = ((c[0] - a[0]) * (b[1] - a[1]) - (c[1] - a[1]) * (b[0] - a[0])) / den
                if 0 <= t <= 1 and 0 <= u <= 1:
                    p = (a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]))
                    on[i].add(p)
                    on[j].add(p)
    cover = {}
    for i, (a, b) in enumerate(S):
        ps = sorted(on[i])
        for p, q in zip(ps[:-1], ps[1:]):
            cover.setdefault(frozenset((idx(p), idx(q))), set()).add(i)
    for p in iso:
        idx(p)
    points = [None] * len(pts)
    for p, i in pts.items():
        points[i] = p
    return points, set(cover), cover


def min_separation2(points, edges):
    """Smallest squared point-point / point-(nonincident)-edge distance (floats, used only to filter inputs)."""
    P = [(float(x), float(y)) for x, y in points]
    best = math.inf
    n = len(P)
    for i in range(n):
        for j in range(i):
            best = min(best, (P[i][0] - P[j][0]) ** 2 + (P[i][1] - P[j][1]) ** 2)
    for e in edges:
        i, j = tuple(e)
        a, b = P[i], P[j]
        ux, uy = b[0] - a[0], b[1] - a[1]
        l2 = ux * ux + uy * uy
        for k in range(n):
            if k == i or k == j:
                continue
            t = ((P[k][0] - a[0]) * ux + (P[k][1] - a[1]) * uy) / l2
            t = min(1.0, max(0.0, t))
            dx, dy = a[0] + t * ux - P[k][0], a[1] + t * uy - P[k][1]
            best = min(best, dx * dx + dy * dy)
    return best
