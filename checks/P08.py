"""P08: every location belongs to exactly one polygon; containment, nesting and boundary queries agree with geometry."""
import math
import random
import numpy as np
from fractions import Fraction as Fr
from bgem.polygons import polygons
from vlib import pdcheck, planar
from vlib.pddrive import Drive, gen_map, gen_ops, make_map
from vlib.pdutil import fresh, build, inner_point, walk, rotations_equal, seg_dist

LEVEL = 'exploration'
RULE = ('One execution = a drawing (with deletions) and probe locations at random, next to edges, at the height of vertices and inside thin '
        'faces; oracle: exact faces of the raw points and segments. Distinct = (nesting profile, face sizes) of the drawings.')
ASSUMPTIONS = ['probes are at least 1e-6 of the drawing size away from all segments']
REQUIRED = {'probes': 8000, 'polygon tests': 30000, 'probe at vertex height': 500, 'boundary walks': 2000, 'depth > 0': 200,
            'nested descendants': 300, 'segment sides': 5000, 'insert vector': 2000, 'wire tests': 5000}


CPU_S = 240


def cases(tier, rng):
    n = 1200 if tier == 'quick' else 25000
    return [{'map': gen_map(rng), 'ops': gen_ops(rng, rng.randint(6, 26), rng.choice([4, 5, 6, 8, 12]), dels=rng.choice([0, .2, .35]),
                                                 structured=.8), 'seed': rng.randrange(10 ** 9)} for _ in range(n)] + [
             {'nest': rng.randint(60, 100) if tier == 'quick' else 520, 'inward': i} for i in (False, True)]


def nest(case, mon):
    """polygons nested many times"""
    fresh()
    pd = polygons.PolygonDecomposition()
    n = case['nest']
    order = list(range(1, n + 1))
    for r in reversed(order) if case['inward'] else order:
        c = [(-2 * r, -r), (2 * r, -r), (0, 2 * r)]
        for a, b in zip(c, c[1:] + c[:1]):
            pd.add_line(a, b)
    level = {p.id: p.depth() // 2 for p in pd.polygons.values()}
    mon.need(sorted(level.values()) == list(range(n + 1)), 'depth', '{} nested polygons have depths {}', n, sorted(level.values()))
    for pid, k in level.items():
        if k in (0, 1, n // 2, n):
            got = pd.get_childs(pid)
            mon.need(set(got) == {q for q, l in level.items() if l >= k}, 'nested polygons', 'polygon at level {} of {} has {} nested polygons', k, n, len(got))
            inside = [q for q, p in pd.polygons.items() if p.contains_point(np.array([.01, -(n - k) - .5 if k else -n - 5.]))]
            mon.need(inside == [pid], 'point location', 'location at level {} of {} is in levels {}', k, n, [level[q] for q in inside])
    mon.ev('deep nesting')
    mon.state('nest', n // 100)


def run(case, mon):
    if 'nest' in case:
        return nest(case, mon)
    fresh()
    d = build(case['map'], case['ops'], mon)
    pd = d.pd
    F, poly_of, wire_of = d.structure()
    P, E = pdcheck.geometry(pd)
    rng = random.Random(case['seed'])
    size = d.map.scale * 8
    mon.state(sorted(len(c) for c in F.cycles), sorted(planar.face_depth(F, f) for f in poly_of))
    # probes
    xs = [p[0] for p in P.values()] or [0.0]
    ys = [p[1] for p in P.values()] or [0.0]
    margin = .2 * max(max(xs) - min(xs), max(ys) - min(ys), size * .1)
    probes = []
    for _ in range(12):
        probes.append((rng.uniform(min(xs) - margin, max(xs) + margin), rng.uniform(min(ys) - margin, max(ys) + margin)))
    for _ in range(10):
        if E:
            a, b = [P[v] for v in E[rng.choice(sorted(E))]]
            t = rng.random()
            n = (a[1] - b[1], b[0] - a[0])
            L = math.hypot(*n)
            s = rng.choice([1, -1]) * d.map.scale * 10 ** rng.uniform(-5, -1) / L
            probes.append((a[0] + t * (b[0] - a[0]) + s * n[0], a[1] + t * (b[1] - a[1]) + s * n[1]))
    for f in list(poly_of)[1:9]:
        w, xy = inner_point(F, E, f)
        probes.append((float(xy[0]), float(xy[1])))
    for _ in range(8):
        if P:
            p = P[rng.choice(sorted(P))]
            probes.append((rng.uniform(min(xs) - margin, max(xs) + margin), p[1]))
            mon.ev('probe at vertex height')
    located = []
    for q in probes:
        if any(seg_dist(q, P[a], P[b])[0] < 1e-6 * d.map.scale for a, b in E.values()):
            continue
        want = poly_of[F.locate(q)]
        got = [pid for pid, p in pd.polygons.items() if p.contains_point(np.array(q))]
        mon.need(got == [want], 'point location', 'location {} lies in polygon {}, containing polygons: {}', q, want, got)
        mon.ev('probes')
        mon.ev('polygon tests', len(pd.polygons))
        located.append((q, F.locate(q)))
    # nesting
    up = {}         # polygon -> polygon around it
    for f, pid in poly_of.items():
        if f:
            hole = F.comp_hole_of_cycle[F.outer_cycle[f]]
            up[pid] = poly_of[F.face_of_cycle[hole]]
    anc = {}
    for pid in poly_of.values():
        a, q = [pid], pid
        while q in up:
            q = up[q]
            a.append(q)
        anc[pid] = a
    for pid in poly_of.values():
        want = {q for q in anc if pid in anc[q]}
        got = pd.get_childs(pid)
        mon.need(set(got) == want, 'nested polygons', 'polygon {} has nested polygons {}, reported {}', pid, sorted(want), sorted(got))
        mon.ev('nested descendants', len(want) - 1)
        dep = pd.polygons[pid].depth()
        mon.need(dep == 2 * (len(anc[pid]) - 1), 'depth', 'polygon {} nested in {} polygons has depth {}', pid, len(anc[pid]) - 1, dep)
        if dep:
            mon.ev('depth > 0')
        mon.need(pd.polygons[pid].is_outer_polygon() == (pid == pd.outer_polygon.id), 'outer polygon', 'polygon {} outer: {}', pid,
                 pd.polygons[pid].is_outer_polygon())
    # wires: what they enclose
    chain = {0: [0]}
    for f in range(1, len(F.outer_cycle)):
        chain[f], g = [f], f
        while g:
            g = F.face_of_cycle[F.comp_hole_of_cycle[F.outer_cycle[g]]]
            chain[f].append(g)
    enclosed = {}
    for ci in wire_of:
        own = {F.face_of_cycle[ci]} if F.areas[ci] > 0 else {F.face_of_cycle[c] for c, h in F.comp_hole_of_cycle.items() if h == ci}
        enclosed[ci] = {f for f in chain if own & set(chain[f])}
    for ci, wid in wire_of.items():
        wire = pd.decomp.wires[wid]
        for q, f in located[::3]:
            mon.need(wire.contains_point(np.array(q)) == (f in enclosed[ci]), 'wire contains', 'wire {} contains location {}: {}', wid, q, f not in enclosed[ci])
            mon.ev('wire tests')
        for cj, other in rng.sample(sorted(wire_of.items()), min(5, len(wire_of))) if hasattr(wire, 'contains_wire') else ():
            mon.need(wire.contains_wire(pd.decomp.wires[other]) == (F.face_of_cycle[cj] in enclosed[ci]), 'wire contains', 'wire {} contains wire {}: {}', wid, other,
                     F.face_of_cycle[cj] not in enclosed[ci])
            mon.ev('wires in wires')
        side = [wire_of[F.cyc_of[(e, 1 - k)]] for e, k in F.cycles[ci]]
        got = [x.id for x in wire.neighbors()] if hasattr(wire, 'neighbors') else side
        mon.need(rotations_equal(side, got), 'neighbours', 'wire {} has on the other side {}, reported {}', wid, side, got)
    # boundaries
    for f, pid in poly_of.items():
        got = [v.id for v in pd.polygons[pid].vertices()]
        want = [] if f == 0 else walk(F, E, F.cycles[F.outer_cycle[f]])
        mon.need(rotations_equal(want, got), 'boundary walk', 'boundary of polygon {} is {}, reported {}', pid, want, got)
        mon.ev('boundary walks')
    for sid, s in pd.segments.items():
        right, left = s.polygons()
        wr, wl = poly_of[F.face_of_cycle[F.cyc_of[(sid, 1)]]], poly_of[F.face_of_cycle[F.cyc_of[(sid, 0)]]]
        mon.need((right.id, left.id) == (wr, wl), 'segment sides', 'segment {} has polygons right {} left {}, reported {} {}', sid, wr, wl,
                 right.id, left.id)
        mon.need(s.is_dendrite() == (F.cyc_of[(sid, 0)] == F.cyc_of[(sid, 1)]), 'segment sides', 'segment {} dendrite: {}', sid, s.is_dendrite())
        mon.ev('segment sides')
        mon.need(s.point_ids() == E[sid], 'segment sides', 'segment {} end points', sid)
        for v in (set(E[sid]) | {rng.choice(sorted(P))} if hasattr(s, 'point_side') else ()):
            got = s.point_side(pd.points[v])
            mon.need(got == (E[sid].index(v) if v in E[sid] else None), 'segment sides', 'point {} of segment {} from {} to {} is at its end {}', v, sid, *E[sid], got)
        for side in (0, 1) if hasattr(s, 'previous') else ():
            n, ns = s.next[side]
            p, ps = n.previous(ns)
            mon.need(p is s and ps == side, 'previous', 'after segment {} side {} comes {} side {}, before that is {} side {}', sid, side, n.id, ns, p.id, ps)
    # direction from a vertex into the surrounding polygons
    for pid in P:
        hs = F.out[pid]
        if not hs:
            continue
        a = rng.uniform(0, 2 * math.pi)
        L = 1e-4 * d.map.scale
        q = (P[pid][0] + L * math.cos(a), P[pid][1] + L * math.sin(a))
        if any(seg_dist(q, P[u], P[v])[0] < 1e-7 * d.map.scale for u, v in E.values()):
            continue
        prev, nxt, wire = pd.points[pid].insert_vector((math.cos(a), math.sin(a)))
        want = poly_of[F.locate(q)]
        mon.need(wire.polygon.id == want, 'insert vector', 'direction {} at point {} leads to polygon {}, reported {}', a, pid, want, wire.polygon.id)
        mon.ev('insert vector')
