"""P01: the decomposition is always exactly the face structure of its own points and segments."""
from vlib.core import Violation
from vlib import pddrive
from vlib.pddrive import Drive, gen_map, gen_ops, make_map, bp
from bgem import undo

LEVEL = 'exploration'
RULE = ('One execution = one operation history (lines, points, deletions, undo/redo, tolerance changes, elementary splits and joins; lattice, rotated '
        'lattice and free float coordinates); after every operation the whole half-edge/wire/polygon structure is compared '
        'with faces recomputed exactly from the raw points and segments. Distinct = distinct (points, segments, polygons, '
        'wires, free points, dendrites) profiles of a drawing with at least one segment.')
ASSUMPTIONS = ['coordinates up to 1e6 times the size of the drawing; drawing features the user draws are either equal '
               'within rounding or not in the documented merge-healing regime (two intersections closer than the tolerance)']
REQUIRED = {'structure checks': {'quick': 2000, 'thorough': 20000}, 'polygons seen': 1000, 'holes seen': 100,
            'undo': 100, 'op D': 500, 'op Q': 50, 'split': 50, 'joined 00': 5, 'joined 01': 10, 'joined 10': 10, 'joined 11': 5, 'consistency checks': 1000}


def cases(tier, rng):
    n = 700 if tier == 'quick' else 16000
    out = []
    for i in range(n):
        if i % 100 == 50:
            # big drawing: hundreds of points
            ops = []
            for _ in range(rng.randint(60, 150)):
                r = rng.random()
                if r < .2:
                    ops.append(['D', round(rng.random(), 6)])
                elif r < .3:
                    ops.append(['P', rng.random() * 100, rng.random() * 100])
                else:
                    L = rng.choice([10, 40, 100])
                    a = [rng.random() * 100 for _ in range(2)]
                    ops.append(['L'] + a + [c + rng.uniform(-L, L) for c in a])
            out.append({'kind': 'free', 'tol': 1e-6, 'ops': ops, 'every': 25})
            continue
        if i % 10 == 3:
            # segments split and joined by the elementary operations
            N = rng.choice([3, 4, 5, 6])
            pairs = []
            for _ in range(rng.randint(1, 4)):
                x, y = rng.randint(0, N), rng.randint(0, N)
                u, v = rng.choice([(1, 0), (0, 1), (1, 1), (1, -1), (1, 2)])
                for a, b in (((x, y), (x + u, y + v)), ((x + u, y + v), (x + 2 * u, y + 2 * v))):
                    pairs.append(['L', *a, *b] if rng.random() < .5 else ['L', *b, *a])
            out.append({'kind': 'atomic', 'map': gen_map(rng), 'ops': pairs + gen_ops(rng, rng.randint(2, 22), N, dels=.2, structured=.5),
                        'atomic': [[rng.choice('SJJJJ'), round(rng.random(), 6), rng.choice([.25, .375, .5, .625]), rng.random() < .5] for _ in range(rng.randint(3, 15))]})
            continue
        k = i % 5
        N = rng.choice([3, 4, 5, 6, 8, 12])
        if k < 2:
            out.append({'kind': 'model', 'map': gen_map(rng), 'ops': gen_ops(rng, rng.randint(8, 34), N, dels=rng.choice([.1, .3, .45]))})
        elif k == 2:
            out.append({'kind': 'undo', 'map': gen_map(rng), 'ops': gen_ops(rng, rng.randint(10, 36), N, dels=.25, undo=.3)})
        elif k == 3:
            # free coordinates, close features allowed but no closer than the snapping can settle
            w = rng.choice([0.5, 1.0, 3.0, 10.0, 100.0])
            ops = []
            for _ in range(rng.randint(8, 26)):
                r = rng.random()
                if r < 0.2:
                    ops.append(['D', round(rng.random(), 6)])
                elif r < 0.26:
                    ops.append(['Q', round(rng.random(), 6)])
                elif r < 0.4:
                    ops.append(['P', rng.random() * w, rng.random() * w])
                else:
                    ops.append(['L', rng.random() * w, rng.random() * w, rng.random() * w, rng.random() * w])
            out.append({'kind': 'free', 'tol': 0.01, 'ops': ops})
        else:
            # drawing, then taken apart completely
            ops = gen_ops(rng, rng.randint(6, 20), N, dels=0.0, structured=.7)
            ops += [['D', round(rng.random(), 6)] for _ in range(60)]
            out.append({'kind': 'model', 'map': gen_map(rng), 'ops': ops, 'stop_empty': 1})
    return out


def observe(pd, mon):
    F, poly_of, wire_of = pddrive.structure(pd)
    mon.ev('structure checks')
    mon.ev('polygons seen', len(poly_of) - 1)
    holes = sum(len(h) for h in F.holes[1:])
    mon.ev('holes seen', holes)
    if len(pd.segments) < 60:
        mon.need(pd.decomp.check_consistency(), 'consistency check', 'the built-in check does not accept the decomposition')
        mon.ev('consistency checks')
    if F.cycles:
        dend = sum(1 for s in pd.segments.values() if s.wire[0] is s.wire[1])
        mon.state(len(pd.points), len(pd.segments), len(pd.polygons), len(F.cycles), len(F.point_face), dend,
                  sorted(len(c) for c in F.cycles))


def pick(d, r):
    ks = sorted(d, key=lambda k: k)
    return d[ks[min(int(r * len(ks)), len(ks) - 1)]] if ks else None


def straight(pd):
    """vertices joining two collinear segments: [(point, segment, its end, segment, its end)]"""
    out = []
    for k in sorted(pd.points):
        p = pd.points[k]
        ends = [(s, i) for s in pd.segments.values() for i in (0, 1) if s.vtxs[i] is p]
        if len(ends) == 2:
            (a, i), (b, j) = ends
            u, v = a.vtxs[1 - i].xy - p.xy, b.vtxs[1 - j].xy - p.xy
            lu, lv = (u @ u) ** .5, (v @ v) ** .5
            if abs(u[0] * v[1] - u[1] * v[0]) < 1e-7 * lu * lv and u @ v < 0:
                out.append((p, a, i, b, j))
    return out


def atomic(case, mon):
    """elementary splitting and joining of segments of a drawing: both keep polygons, joining is the inverse for any directions of both parts"""
    d = Drive(make_map(case['map']), mon)
    for op in case['ops']:
        if d.apply(op) is not None:
            d.rematch()
    pd = d.pd
    dec = pd.decomp
    for op, r, f, swap in case['atomic']:
        polys = {k: (p, p.attr) for k, p in pd.polygons.items()}
        if op == 'S':
            seg = pick(pd.segments, r)
            if seg is None:
                continue
            a, b = seg.vtxs
            old = set(pd.segments)
            pt = dec.add_free_point(a.xy + (b.xy - a.xy) * f, dec.outer_polygon)
            new = dec.split_segment(seg, pt)
            mon.need(set(pd.segments) - old == {new.id} and tuple(seg.vtxs) == (a, pt) and tuple(new.vtxs) == (pt, b), 'split', 'segment {} split at {} to {} and {}', (a.id, b.id), pt.id,
                     [v.id for v in seg.vtxs], [v.id for v in new.vtxs])
            mon.ev('split')
        else:
            c = straight(pd)
            if not c:
                continue
            p, a, i, b, j = c[min(int(r * len(c)), len(c) - 1)]
            if swap:
                a, i, b, j = b, j, a, i
            ends = {a.vtxs[1 - i].id, b.vtxs[1 - j].id}
            old = set(pd.segments)
            dec.join_segments(p, a, b)
            dec.remove_free_point(p)
            mon.need(old - set(pd.segments) == {b.id} and {v.id for v in a.vtxs} == ends and p.id not in pd.points, 'join', 'segments {} {} joined to {}', a.id, b.id, [v.id for v in a.vtxs])
            mon.ev('joined %d%d' % (i, j))
        observe(pd, mon)
        mon.need({k: (p, p.attr) for k, p in pd.polygons.items()} == polys, 'polygons', 'polygons changed by splitting or joining of segments')


def run(case, mon):
    undo.setstack(undo.Stack())
    bp.disable_undo()
    if case['kind'] == 'atomic':
        return atomic(case, mon)
    if case['kind'] == 'free':
        pd = bp.PolygonDecomposition(case['tol'])
        for n, op in enumerate(case['ops'], 1):
            k = op[0]
            if k == 'L':
                pd.add_line(op[1:3], op[3:5])
            elif k == 'P':
                pd.add_point(op[1:3])
            elif k == 'D' and pd.segments:
                pd.delete_segment(pick(pd.segments, op[1]))
            elif k == 'Q' and pd.points:
                pd.delete_point(pick(pd.points, op[1]))
            mon.ev('op ' + k)
            if 'every' not in case or n % case['every'] == 0 or n == len(case['ops']):
                observe(pd, mon)
                mon.ev('structure of > 300 segments', len(pd.segments) > 300)
        return
    d = Drive(make_map(case['map']), mon)
    if case['kind'] == 'model':
        for op in case['ops']:
            if case.get('stop_empty') and op[0] == 'D' and not d.m.edges:
                break
            if d.apply(op) is not None:
                d.rematch()
                observe(d.pd, mon)
        return
    bp.enable_undo()
    st = undo.stack()
    models = [d.m]
    cur = 0
    for op in case['ops']:
        if op[0] == 'U':
            if cur > 0:
                st.undo()
                cur -= 1
                mon.ev('undo')
        elif op[0] == 'R':
            if cur < len(models) - 1:
                st.redo()
                cur += 1
                mon.ev('redo')
        else:
            with undo.group('op'):
                if d.apply(op) is None:
                    pass
            del models[cur + 1:]
            models.append(d.m)
            cur += 1
        d.m = models[cur]
        d.rematch()
        observe(d.pd, mon)
