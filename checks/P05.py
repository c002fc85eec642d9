"""P05: after adding/removing a segment the reported polygon change is the change that happened."""
from fractions import Fraction as Fr
from vlib import pdcheck, planar
from vlib.core import Violation
from vlib.pddrive import Drive, gen_map, gen_ops, make_map, PolygonChange
from vlib.pdutil import fresh

LEVEL = 'exploration'
RULE = ('One execution = a drawing changed by single segments between existing points and single removals; before and after each one the '
        'faces are recomputed exactly and the reported change (kind and polygon ids), the identity of untouched polygons and the '
        'membership of the changed ones are compared. Distinct = (reported kind, nesting, face/cycle profile) tuples.')
ASSUMPTIONS = ['a segment joining two isolated points and the removal of such a segment report no change (the repository\'s tests require it)']
REQUIRED = {'none': 100, 'none (lonely segment)': 60, 'shape': 400, 'add': 60, 'remove': 60, 'split': 150, 'join': 100, 'displacement report': 100,
            'identity kept': 2000}


def cases(tier, rng):
    n = 700 if tier == 'quick' else 16000
    out = []
    for _ in range(n):
        N = rng.choice([3, 4, 5, 6, 8])
        ops = gen_ops(rng, rng.randint(0, 14), N, dels=.1, points=.3, structured=.5)
        for _ in range(rng.randint(10, 40)):
            r = rng.random()
            if r < .12:
                ops.append(['P', rng.randint(0, N), rng.randint(0, N)])
            elif r < .5:
                ops.append(['D', round(rng.random(), 6)])
            elif r < .56:
                ops.append(['C', round(rng.random(), 6), round(rng.random(), 6)])
            else:
                ops.append(['N', round(rng.random(), 6), round(rng.random(), 6)])
        out.append({'map': gen_map(rng), 'ops': ops})
    return out


def visible(m, p, q):
    """may the segment pq be added as it is (existing edges included)"""
    if frozenset((p, q)) in m.edges:
        return True
    for r in m.pts:
        if r != p and r != q and planar.on_segment(p, q, r):
            return False
    return not any(planar.segments_cross(p, q, *tuple(e)) for e in m.edges)


def polygon_of_edge_before(F, poly_of, P, mid):
    return poly_of[F.locate(mid)]


def same_faces(F0, p0, F1, p1, changed_edges):
    """faces (outer cycle untouched) keep their polygon id"""
    cyc0 = {frozenset(F0.cycles[F0.outer_cycle[f]]): pid for f, pid in p0.items() if f}
    cyc1 = {frozenset(F1.cycles[F1.outer_cycle[f]]): pid for f, pid in p1.items() if f}
    return [(c, cyc0[c], cyc1[c]) for c in cyc0 if c in cyc1]


def run(case, mon):
    fresh()
    d = Drive(make_map(case['map']), mon)
    pd = d.pd
    K = PolygonChange
    for op in case['ops']:
        if op[0] in 'LP':
            if d.apply(op) is not None:
                d.rematch()
                d.structure()
            continue
        if op[0] == 'Q':
            continue
        F0, p0, w0 = d.structure()
        E0 = {k: tuple(v.id for v in s.vtxs) for k, s in pd.segments.items()}
        free0 = {k for k, p in pd.points.items() if p.is_free()}
        if op[0] == 'C':
            # report of a displacement check: the polygons around the moved points
            p = d.m.pick_point(op[1])
            if p is None:
                continue
            pt = d.point(p)
            import numpy as np
            pd.check_displacment([pt], np.array([1e-3, 2e-3]) * d.map.scale)
            if pt.is_free():
                want = {p0[F0.point_face[pt.id]]}
            else:
                want = {p0[F0.face_of_cycle[F0.cyc_of[h]]] for e in E0 if pt.id in E0[e] for h in ((e, 0), (e, 1))}
            got = pd.get_last_polygon_changes()
            mon.need(got[0] == K.shape and set(got[1]) == want and got[2] is None, 'displacement report',
                     'moving point {} touches polygons {}, reported {}', pt.id, want, got)
            mon.ev('displacement report')
            continue
        if op[0] == 'N':
            p = d.m.pick_point(op[1])
            if p is None:
                continue
            cand = sorted(q for q in d.m.pts if q != p and visible(d.m, p, q))
            if not cand:
                continue
            q = cand[min(int(op[2] * len(cand)), len(cand) - 1)]
            a, b = d.point(p), d.point(q)
            existed = frozenset((p, q)) in d.m.edges
            if not existed:
                m2 = d.m.copy()
                m2.edges[frozenset((p, q))] = None
                if m2.separation() < .03:
                    continue
            mid = [(Fr(float(u)) + Fr(float(v))) / 2 for u, v in zip(a.xy, b.xy)]
            before = polygon_of_edge_before(F0, p0, None, mid) if not existed else None
            seg = pd.new_segment(a, b)
            rep = pd.get_last_polygon_changes()
            mon.need(pd.segments.get(seg.id) is seg and {v.id for v in seg.vtxs} == {a.id, b.id}, 'new segment',
                     'new segment {} does not join points {} {}', seg, a.id, b.id)
            d.m.edges[frozenset((p, q))] = d.m.edges.get(frozenset((p, q)))
            d.rematch()
            F1, p1, w1 = d.structure()
            if existed:
                mon.need(rep == (K.none, None, None), 'report none', 'existing segment {} {}: reported {}', a.id, b.id, rep)
                mon.need(len(p1) == len(p0), 'report none', 'existing segment added again changed polygons')
                mon.ev('none')
                continue
            sides = {p1[F1.face_of_cycle[F1.cyc_of[(seg.id, k)]]] for k in (0, 1)}
            if len(p1) == len(p0):
                if a.id in free0 and b.id in free0:
                    mon.need(rep == (K.none, None, None), 'report none', 'segment of two free points: reported {}', rep)
                    mon.ev('none (lonely segment)')
                else:
                    mon.need(rep == (K.shape, [before], None), 'report shape', 'segment inside polygon {}: reported {}', before, rep)
                    mon.ev('shape')
                mon.need(set(p1.values()) == set(p0.values()) and sides == {before}, 'polygon ids', 'polygon ids changed {} -> {}',
                         sorted(p0.values()), sorted(p1.values()))
            else:
                new = set(p1.values()) - set(p0.values())
                mon.need(len(new) == 1 and set(p0.values()) <= set(p1.values()), 'polygon ids', 'one polygon divided, ids {} -> {}',
                         sorted(p0.values()), sorted(p1.values()))
                new = new.pop()
                # add: the new edge closed a loop in a hole: one side is outside of the other
                f = [F1.face_of_cycle[F1.cyc_of[(seg.id, k)]] for k in (0, 1)]
                neg = [F1.areas[F1.cyc_of[(seg.id, k)]] < 0 for k in (0, 1)]
                kind = K.add if any(neg) else K.split
                mon.need(rep == (kind, before, new), 'report ' + kind.name, 'polygon {} divided, new {}: expected {} reported {}',
                         before, new, kind, rep)
                mon.need(sides == {before, new}, 'report ' + kind.name, 'new segment lies between polygons {}, reported {}', sides, rep)
                if kind == K.add:
                    inner = p1[f[neg.index(False)]]
                    mon.need(inner == new, 'report add', 'inner polygon {} but new polygon {} reported', inner, new)
                mon.ev(kind.name)
            mon.state('N', rep[0].name, len(p1), sorted(len(c) for c in F1.cycles))
        else:
            e = d.m.pick_edge(op[1])
            if e is None:
                continue
            seg = d.seg(e)
            sid = seg.id
            a, b = seg.vtxs
            sides = [p0[F0.face_of_cycle[F0.cyc_of[(sid, k)]]] for k in (0, 1)]
            neg = [F0.areas[F0.cyc_of[(sid, k)]] < 0 for k in (0, 1)]
            deg = [sum(1 for x in E0.values() if v.id in x) for v in (a, b)]
            pd.delete_segment(seg)
            rep = pd.get_last_polygon_changes()
            d.m.del_edge(e)
            d.rematch()
            F1, p1, w1 = d.structure()
            if sides[0] == sides[1]:
                mon.need(set(p1.values()) == set(p0.values()), 'polygon ids', 'polygon ids changed {} -> {}', p0, p1)
                if deg == [1, 1]:
                    mon.need(rep == (K.none, None, None), 'report none', 'lonely segment removed: reported {}', rep)
                    mon.ev('none (lonely segment)')
                else:
                    mon.need(rep == (K.shape, [sides[0]], None), 'report shape', 'segment inside polygon {} removed: reported {}', sides[0], rep)
                    mon.ev('shape')
            else:
                gone = set(p0.values()) - set(p1.values())
                mon.need(len(gone) == 1 and set(p1.values()) <= set(p0.values()) and gone <= set(sides), 'polygon ids',
                         'polygons {} joined, ids {} -> {}', sides, sorted(p0.values()), sorted(p1.values()))
                gone = gone.pop()
                keep = [s for s in sides if s != gone][0]
                kind = K.remove if any(neg) else K.join
                mon.need(rep == (kind, keep, gone), 'report ' + kind.name, 'polygons {} joined, {} left: expected {} reported {}',
                         sides, keep, kind, rep)
                if kind == K.remove:
                    inner = sides[neg.index(False)]
                    mon.need(gone == inner, 'report remove', 'inner polygon is {} but {} was removed', inner, gone)
                mon.ev(kind.name)
            mon.state('D', rep[0].name, len(p1), sorted(len(c) for c in F1.cycles))
        for c, i0, i1 in same_faces(F0, p0, F1, p1, None):
            mon.need(i0 == i1, 'polygon ids', 'polygon {} with an untouched boundary got id {}', i0, i1)
            mon.ev('identity kept')
        mon.need(pd.outer_polygon.id == p1[0] == p0[0], 'polygon ids', 'outer polygon changed its id')
