"""P11: a decomposition written down as lists (points, segments, wires) and rebuilt from them is the same one and can be edited on."""
import random
from vlib import pdcheck, pddrive
from vlib.core import Violation
from vlib.pddrive import Drive, gen_map, gen_ops, make_map, bp
from vlib.pdutil import fresh, build, walk, rotations_equal

LEVEL = 'exploration'
RULE = ('One execution = a drawing serialized to point coordinates, segment end points and per polygon lists of boundary segments, holes and '
        'free points (lists starting at random segments, polygons in random order), rebuilt through the deserialization interface, compared '
        'with the exact structure and then edited together with the exact model. Distinct = (wire length profiles, nesting) of the drawings.')
ASSUMPTIONS = ['wires are listed in the orientation of the original (face on the left of the outer boundary)']
REQUIRED = {'rebuilt': 250, 'polygons': 1500, 'holes': 300, 'dendrite wires': 300, 'edits after rebuild': 1000}


def cases(tier, rng):
    n = 1000 if tier == 'quick' else 30000
    out = []
    for _ in range(n):
        N = rng.choice([3, 4, 5, 6, 8])
        out.append({'map': gen_map(rng), 'ops': gen_ops(rng, rng.randint(2, 22), N, dels=.2, points=.15, structured=.6),
                    'seed': rng.randrange(10 ** 9), 'more': gen_ops(rng, 8, N, dels=.3, structured=0)})
    return out


def rebuild(src, rng, mon):
    """the lists come from the oracle faces of the source, the reconstruction from the code under test"""
    F, poly_of, _ = pddrive.structure(src)
    P, E = pdcheck.geometry(src)
    new = bp.PolygonDecomposition(src.tolerance)
    pm, sm = {}, {}
    ids = list(P)
    rng.shuffle(ids)
    for k in ids:
        pm[k] = new.add_point(P[k]).id
    ids = list(E)
    rng.shuffle(ids)
    for k in ids:
        sm[k] = new.make_segment((pm[E[k][0]], pm[E[k][1]])).id

    def wire(c):
        lst = [sm[h[0]] for h in F.cycles[c]]
        k = rng.randrange(len(lst))
        if len(set(lst)) < len(lst):
            mon.ev('dendrite wires')
        return lst[k:] + lst[:k]
    order = list(poly_of)
    rng.shuffle(order)
    gm = {}
    for f in order:
        outer = [] if f == 0 else wire(F.outer_cycle[f])
        holes = [wire(c) for c in sorted(F.holes[f])]
        rng.shuffle(holes)
        mon.ev('holes', len(holes))
        free = [pm[k] for k, g in F.point_face.items() if g == f]
        gm[f] = new.make_polygon(outer, holes, free).id
    new.set_wire_parents()
    return new, F, pm, sm, gm


def run(case, mon):
    fresh()
    d = build(case['map'], case['ops'], mon)
    rng = random.Random(case['seed'])
    new, F, pm, sm, gm = rebuild(d.pd, rng, mon)
    mon.ev('rebuilt')
    mon.state(sorted(len(c) for c in F.cycles), sorted(len(h) for h in F.holes), len(F.point_face))
    try:
        F1, p1, _ = pdcheck.check(new)
    except pdcheck.Broken as e:
        raise Violation('structure ' + e.key, str(e))
    # same polygons: the ids returned while building carry the same boundaries
    E = {k: tuple(v.id for v in s.vtxs) for k, s in d.pd.segments.items()}
    for f, pid in gm.items():
        want = [] if f == 0 else [pm[v] for v in walk(F, E, F.cycles[F.outer_cycle[f]])]
        got = [v.id for v in new.polygons[pid].vertices()]
        mon.need(rotations_equal(want, got), 'polygon', 'rebuilt polygon {} has boundary {} expected {}', pid, got, want)
        mon.need({p.id for p in new.polygons[pid].free_points} == {pm[k] for k, g in F.point_face.items() if g == f}, 'free points',
                 'rebuilt polygon {} has other free points', pid)
        mon.ev('polygons')
    mon.need(d.pd.decomp == new.decomp, 'equality', 'rebuilt decomposition is not equal to the original')
    # go on editing
    d.pd = new
    for op in [None] + case['more']:
        if op is not None and d.apply(op) is None:
            continue
        d.rematch()
        d.structure()
        mon.ev('edits after rebuild')
