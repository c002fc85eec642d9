"""Observer of a bgem PolygonDecomposition: compares its whole half-edge/polygon structure with the exact oracle."""
from . import planar


class Broken(Exception):
    """structural violation"""
    def __init__(self, key, msg):
        super().__init__(msg)
        self.key = key


def need(cond, key, msg, *args):
    if not cond:
        raise Broken(key, msg.format(*args) if args else msg)


def geometry(pd):
    pts = {pid: (float(p.xy[0]), float(p.xy[1])) for pid, p in pd.points.items()}
    edges = {sid: (s.vtxs[0].id, s.vtxs[1].id) for sid, s in pd.segments.items()}
    return pts, edges


def snapshot_geo(pd):
    """Id independent description: set of points, edges as coordinate pairs"""
    pts, edges = geometry(pd)
    return (frozenset(pts.values()), frozenset(frozenset((pts[a], pts[b])) for a, b in edges.values()))


def check(pd, faces=None):
    """Raise Broken when the decomposition is not THE face structure of its own points and segments.
    Returns the oracle faces and the map face index -> polygon id."""
    pts, edges = geometry(pd)
    dec = pd.decomp
    for d, name in ((pd.points, 'point'), (pd.segments, 'segment'), (dec.wires, 'wire'), (pd.polygons, 'polygon')):
        for k, o in d.items():
            need(o.id == k, 'id', '{} stored under id {} has id {}', name, k, o.id)
    for sid, (a, b) in edges.items():
        s = pd.segments[sid]
        for v in (0, 1):
            need(s.vtxs[v].id in pd.points and pd.points[s.vtxs[v].id] is s.vtxs[v], 'vtx',
                 'segment {} endpoint {} is not a point of the decomposition', sid, v)
        need(a != b, 'loop', 'segment {} joins point {} with itself', sid, a)
        vec = s.vtxs[1].xy - s.vtxs[0].xy
        need(abs(s.vector - vec).max() <= 1e-12 * max(1.0, abs(vec).max()), 'vector', 'segment {} direction is stale', sid)
    seen = {}
    for sid, (a, b) in edges.items():
        k = frozenset((a, b))
        need(k not in seen, 'multi', 'segments {} and {} join the same points', sid, seen.get(k))
        seen[k] = sid
    index = getattr(dec, 'pt_to_seg', None)
    if index is not None:
        need(len(index) == len(edges), 'pt_to_seg', 'endpoint index has {} entries for {} segments', len(index), len(edges))
    for sid, ab in edges.items() if index is not None else ():
        s = index.get(ab)
        need(s is not None and s.id == sid, 'pt_to_seg', 'endpoint index misses segment {}', sid)

    try:
        F = faces if faces is not None else planar.build_faces(pts, edges)
    except planar.NotPlanar as e:
        raise Broken('planarity', 'not a planar subdivision: %s' % e)

    # half edges
    def he(h):
        return (h[0], 1 - h[1])   # oracle (edge, d) <-> (segment id, side)
    for h, n in F.nxt.items():
        sid, side = he(h)
        s = pd.segments[sid]
        cn = s.next[side]
        need(cn is not None and cn[0].id in pd.segments and pd.segments[cn[0].id] is cn[0], 'next',
             'next of segment {} side {} is not a live segment', sid, side)
        need((cn[0].id, cn[1]) == he(n), 'next', 'next of segment {} side {} is {}, geometry says {}', sid, side,
             (cn[0].id, cn[1]), he(n))
    # wires = cycles
    wire_of = {}
    for ci, cyc in enumerate(F.cycles):
        ws = {pd.segments[h[0]].wire[1 - h[1]].id for h in cyc}
        need(len(ws) == 1, 'wire', 'boundary cycle of segments {} has several wires {}', sorted({h[0] for h in cyc}), ws)
        w = ws.pop()
        need(w in dec.wires and all(pd.segments[h[0]].wire[1 - h[1]] is dec.wires[w] for h in cyc), 'wire',
             'wire {} is not live', w)
        need(w not in wire_of.values(), 'wire', 'wire {} carries two boundary cycles', w)
        wire_of[ci] = w
    root = pd.outer_polygon.outer_wire
    need(pd.outer_polygon.id in pd.polygons and pd.polygons[pd.outer_polygon.id] is pd.outer_polygon, 'outer',
         'outer polygon is not live')
    need(root.is_root() and root.id in dec.wires, 'outer', 'outer polygon lost its root wire')
    need(set(dec.wires) == set(wire_of.values()) | {root.id} and root.id not in wire_of.values(), 'wire',
         'wires {} but boundary cycles need {} + root {}', sorted(dec.wires), sorted(wire_of.values()), root.id)
    poly_of = {0: pd.outer_polygon.id}
    for f in range(1, len(F.outer_cycle)):
        w = dec.wires[wire_of[F.outer_cycle[f]]]
        need(w.polygon is not None and w.polygon.id in pd.polygons and pd.polygons[w.polygon.id] is w.polygon,
             'polygon', 'wire {} has no live polygon', w.id)
        need(w.polygon.outer_wire is w, 'polygon', 'outer boundary wire {} is not the outer wire of its polygon {}', w.id,
             w.polygon.id)
        poly_of[f] = w.polygon.id
    need(len(set(poly_of.values())) == len(poly_of) and set(poly_of.values()) == set(pd.polygons), 'polygon',
         'polygons {} but {} bounded faces + outer', sorted(pd.polygons), len(poly_of) - 1)
    for f, pid in poly_of.items():
        p = pd.polygons[pid]
        holes = {wire_of[c] for c in F.holes[f]}
        for w in holes:
            need(dec.wires[w].polygon is p, 'hole', 'hole wire {} belongs to polygon {}, geometry says {}', w,
                 dec.wires[w].polygon.id, pid)
            need(dec.wires[w].parent is p.outer_wire, 'hole', 'hole wire {} of polygon {} has a wrong parent {}', w, pid,
                 dec.wires[w].parent)
        ch = {w.id for w in p.outer_wire.childs}
        need(ch == holes, 'hole', 'polygon {} has holes {}, geometry says {}', pid, sorted(ch), sorted(holes))
    for ci, w in wire_of.items():
        wo = dec.wires[w]
        ws, wside = wo.segment
        need(ws is not None and ws.id in pd.segments and pd.segments[ws.id] is ws and ws.wire[wside] is wo, 'wire',
             'wire {} start segment is not on the wire', w)
        if F.areas[ci] > 0:
            hw = dec.wires[wire_of[F.comp_hole_of_cycle[ci]]]
            need(wo.parent is hw, 'parent', 'wire {} has parent {}, geometry says {}', w,
                 None if wo.parent is None else wo.parent.id, hw.id)
        else:
            inner = {wire_of[c] for c, h in F.comp_hole_of_cycle.items() if h == ci}
            got = {x.id for x in wo.childs}
            need(inner == got, 'parent', 'wire {} has child wires {}, geometry says {}', w, sorted(got), sorted(inner))
    # points
    for pid, p in pd.points.items():
        hs = F.out[pid]
        if not hs:
            need(p.is_free(), 'free', 'isolated point {} is not marked free', pid)
            q = poly_of[F.point_face[pid]]
            need(p.poly is not None and p.poly is pd.polygons.get(p.poly.id), 'free', 'free point {} has no live polygon', pid)
            need(p.poly.id == q, 'free', 'free point {} listed in polygon {}, geometry says {}', pid, p.poly.id, q)
        else:
            need(not p.is_free(), 'free', 'point {} with segments is marked free', pid)
            need(p.poly is None, 'free', 'point {} with segments is in polygon {}', pid, p.poly)
            s, v = p.segment
            need(s.id in pd.segments and pd.segments[s.id] is s and s.vtxs[v] is p, 'ptseg', 'point {} has a stale segment', pid)
            star = [(s.id, v) for s, v in p.segments()]
            want = [(e, d) for e, d in hs]      # outgoing from the vertex: d==0 -> vertex is vtxs[0]
            need(len(star) == len(want) and set(star) == set(want), 'star', 'segments around point {}: {} expected {}', pid, star, want)
            # clockwise = reversed ccw order
            i = want.index(star[0])
            cw = [want[(i - k) % len(want)] for k in range(len(want))]
            need(star == cw, 'star', 'segments around point {} are not in clockwise order: {} expected {}', pid, star, cw)
    for f, pid in poly_of.items():
        got = {p.id for p in pd.polygons[pid].free_points}
        want = {k for k, ff in F.point_face.items() if ff == f}
        need(got == want, 'free', 'polygon {} has free points {}, geometry says {}', pid, sorted(got), sorted(want))
    # Euler
    V, E, C = len(pts), len(edges), F.n_comp + sum(1 for k in F.out if not F.out[k])
    need(V - E + len(pd.polygons) == 1 + C, 'euler', 'Euler formula broken V={} E={} F={} C={}', V, E, len(pd.polygons), C)
    return F, poly_of, wire_of
