"""P06: attributes of points, segments and polygons survive and are inherited by the parts."""
from fractions import Fraction as Fr
from vlib import pdcheck
from vlib.pddrive import Drive, gen_map, gen_ops, make_map
from vlib.pdutil import fresh, inner_point

LEVEL = 'exploration'
RULE = ('One execution = a drawing with unique attributes assigned at random times, changed by lines, points and deletions; expected '
        'attributes: segments via the exact model, polygons via exact location of an interior point in the previous subdivision. '
        'Distinct = (kind, number of attributed segments, polygons) profiles.')
ASSUMPTIONS = ['features of the exact drawing are at least three snapping tolerances apart']
REQUIRED = {'segment attributes': 3000, 'split segments with attribute': 150, 'polygon attributes inherited': 150,
            'polygon attributes kept': 1500, 'polygons joined': 100, 'point attributes': 300, 'set': 500}


def cases(tier, rng):
    n = 500 if tier == 'quick' else 18000
    return [{'map': gen_map(rng), 'ops': gen_ops(rng, rng.randint(14, 40), rng.choice([3, 4, 6, 8]), dels=.15, points=.08, attr=.3,
                                                 structured=.5)} for _ in range(n)]


def run(case, mon):
    fresh()
    d = Drive(make_map(case['map']), mon)
    pd = d.pd
    serial = 0
    pattr = {}
    for op in case['ops']:
        if op[0] == 'A':
            serial += 1
            val = 'attr%d' % serial
            if op[1] == 's':
                e = d.m.pick_edge(op[2])
                if e is None:
                    continue
                d.m.edges[e] = val
                pd.set_attr(d.seg(e), val)
            elif op[1] == 'p':
                p = d.m.pick_point(op[2])
                if p is None:
                    continue
                pattr[p] = val
                pd.set_attr(d.point(p), val)
            else:
                F, poly_of, _ = d.structure()
                # choose by geometry, not by id
                f = sorted(poly_of, key=lambda f: inner_point(F, {k: tuple(v.id for v in s.vtxs) for k, s in pd.segments.items()}, f)[1]
                           if f else (Fr(-10) ** 20, 0))
                f = f[min(int(op[2] * len(f)), len(f) - 1)]
                pd.set_attr(pd.polygons[poly_of[f]], val)
                mon.need(pd.polygons[poly_of[f]].attr == val, 'set', 'attribute of polygon {} was not set', poly_of[f])
            mon.ev('set')
        else:
            F0, p0, _ = d.structure()
            attr0 = {pid: pd.polygons[pid].attr for pid in p0.values()}
            m0 = d.m
            if d.apply(op) is None:
                continue
            d.rematch()
            F1, p1, _ = d.structure()
            E1 = {k: tuple(v.id for v in s.vtxs) for k, s in pd.segments.items()}
            for p in list(pattr):
                if p not in d.m.pts:
                    del pattr[p]
            mon.ev('split segments with attribute', sum(1 for e, a in d.m.edges.items() if a is not None and e not in m0.edges))
            if op[0] in 'LP':
                for f, pid in p1.items():
                    if f == 0:
                        want = attr0[p0[0]]
                    else:
                        want = attr0[p0[F0.locate(inner_point(F1, E1, f)[1])]]
                    mon.need(pd.polygons[pid].attr == want, 'polygon inheritance', 'polygon {} has attribute {}, it is part of a polygon with {}',
                             pid, pd.polygons[pid].attr, want)
                    if want is not None and pid not in attr0:
                        mon.ev('polygon attributes inherited')
            else:
                old = {}
                for f, pid in p0.items():
                    g = 0 if f == 0 else F1.locate(inner_point(F0, {k: v for k, v in E0.items()}, f)[1])
                    old.setdefault(p1[g], []).append(pid)
                for pid in p1.values():
                    src = old[pid]
                    if len(src) > 1:
                        mon.ev('polygons joined')
                    mon.need(pid in src, 'polygon join', 'polygon {} made of polygons {}', pid, src)
                    mon.need(pd.polygons[pid].attr == attr0[pid], 'polygon join', 'polygon {} lost its attribute {} -> {}', pid, attr0[pid],
                             pd.polygons[pid].attr)
            mon.ev('polygon attributes kept', len(p1))
        E0 = {k: tuple(v.id for v in s.vtxs) for k, s in pd.segments.items()}
        for sid, e in d.seg_of.items():
            mon.need(pd.segments[sid].attr == d.m.edges[e], 'segment attribute', 'segment {} has attribute {}, expected {} after {}', sid,
                     pd.segments[sid].attr, d.m.edges[e], op[0])
            mon.ev('segment attributes')
        for pid, p in d.pt_of.items():
            mon.need(pd.points[pid].attr == pattr.get(p), 'point attribute', 'point {} has attribute {}, expected {} after {}', pid,
                     pd.points[pid].attr, pattr.get(p), op[0])
            if p in pattr:
                mon.ev('point attributes')
    mon.state(len(d.m.edges), len(pd.polygons), sum(1 for a in d.m.edges.values() if a))
