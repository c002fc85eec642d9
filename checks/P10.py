"""P10: merging decompositions gives their common refinement and maps every new object to the object it is part of."""
import math
import random
from fractions import Fraction as Fr
from vlib import pdcheck, pdmodel, planar
from vlib.core import Violation
from vlib.pddrive import Drive, gen_map, gen_ops, make_map, structured_lines, SEP, TOL
from vlib.pdutil import fresh, build, inner_point, seg_dist, snapshot, diff
from bgem.polygons import merge

LEVEL = 'exploration'
RULE = ('One execution = 2-4 decompositions (common vertices, collinear overlaps, nesting, islands, equal drawings, empty ones) merged; oracle: '
        'exact arrangement of all lines, and for every resulting point/segment/polygon the exactly located original object of every '
        'input. Distinct = distinct overlays (vertices, edges, faces and faces of the inputs).')
ASSUMPTIONS = ['features of the exact overlay are at least three (drawing) tolerances apart; the merge tolerance is 1e-4 of a drawing unit']
REQUIRED = {'merges': 200, 'polygon images': 3000, 'segment images': 4000, 'point images': 3000, 'no preimage': 1000, 'shared edges': 200,
            'polygons subdivided': 200, 'holes': 20, 'three or more': 50}


def cases(tier, rng):
    n = 600 if tier == 'quick' else 14000
    out = []
    for i in range(n):
        N = rng.choice([3, 4, 5, 6, 8])
        nd = rng.choice([1, 2, 2, 2, 2, 3, 3, 4])
        decs = []
        for k in range(nd):
            if decs and rng.random() < .1:
                decs.append(list(decs[0]))
            elif rng.random() < .05:
                decs.append([])
            else:
                decs.append(gen_ops(rng, rng.randint(3, 14), N, dels=rng.choice([0, .2]), points=.1, structured=.5))
        if i % 5 == 4:
            w = rng.choice([1.0, 10.0])
            decs = [[[o[0]] + [rng.random() * w for _ in o[1:]] if o[0] in 'LP' else o for o in ops] for ops in decs]
        elif i % 5 == 3:
            # big frames around small drawings
            decs.append([op for op in structured_lines(rng, N) if op[0] == 'L'])
            q = [[-2, -2], [N + 2, -2], [N + 2, N + 2], [-2, N + 2]]
            decs.insert(rng.randint(0, len(decs)), [['L'] + q[j] + q[(j + 1) % 4] for j in range(4)])
        out.append({'map': gen_map(rng), 'decs': decs})
    return out


def run(case, mon):
    fresh()
    from vlib.pddrive import bp
    decs = [build(case['map'], ops, mon) for ops in case['decs']]
    fm = decs[0].map
    union = pdmodel.Model()
    for d in decs:
        for p in d.m.pts:
            union.add_point(p)
        for e in d.m.edges:
            union.add_line(*tuple(e))
    if union.separation() < SEP:
        mon.ev('skipped: features too close')
        return
    for k, d in enumerate(decs):
        for j, s in enumerate(sorted(d.pd.segments)):
            d.pd.segments[s].attr = 'd%d s%d' % (k, j)
    before = [snapshot(d.pd) for d in decs]
    pre = []
    for d in decs:
        F, poly_of, _ = d.structure()
        P, E = pdcheck.geometry(d.pd)
        pre.append((P, E, F, poly_of))
    mtol = 1e-4 * fm.scale
    dc, maps = merge.intersect_decompositions([d.pd for d in decs], merge_tol=mtol)
    mon.ev('merges')
    mon.ev('three or more', len(decs) > 2)
    mon.need(len(maps) == len(decs) and all(len(m) == 3 for m in maps), 'maps', '{} maps for {} inputs', len(maps), len(decs))
    for d, b, p in zip(decs, before, pre):
        x = diff(b, snapshot(d.pd))
        mon.need(not x, 'input modified', 'merging changed an input decomposition: {}', x[:3])
        d.structure()
    try:
        F, poly_of, _ = pdcheck.check(dc)
    except pdcheck.Broken as e:
        raise Violation('structure ' + e.key, str(e))
    eps = 1e-4 * TOL * fm.scale
    try:
        pt_of, seg_of = pdmodel.match(union, dc, fm, eps)
    except pdmodel.Mismatch as e:
        raise Violation('overlay: ' + e.key, str(e))
    P, E = pdcheck.geometry(dc)
    mon.state(len(P), len(E), len(poly_of), [len(p[3]) for p in pre])
    mon.ev('holes', sum(len(h) for h in F.holes[1:]))
    inner = {f: inner_point(F, E, f)[1] for f in poly_of if f}
    for k, ((pts, edges, G, gpoly), mp) in enumerate(zip(pre, maps)):
        for dim, live in ((0, P), (1, E), (2, set(poly_of.values()))):
            bad = set(mp[dim]) - set(live)
            mon.need(not bad, 'map keys', 'input {}: map of dimension {} has keys {} which are not in the result', k, dim, sorted(bad))
        for pid, xy in P.items():
            c = [i for i, q in pts.items() if math.dist(xy, q) < mtol]
            got = mp[0].get(pid)
            mon.need(got == (c[0] if c else None), 'point map', 'input {}: point {} is original point {}, map says {}', k, pid, c, got)
            mon.ev('point images' if c else 'no preimage')
        for sid, (a, b) in E.items():
            mid = ((P[a][0] + P[b][0]) / 2, (P[a][1] + P[b][1]) / 2)
            c = [i for i, (u, v) in edges.items() if seg_dist(mid, pts[u], pts[v])[0] < mtol]
            got = mp[1].get(sid)
            mon.need(got == (c[0] if c else None), 'segment map', 'input {}: segment {} is part of original segment {}, map says {}', k, sid, c, got)
            mon.ev('segment images' if c else 'no preimage')
        for f, pid in poly_of.items():
            want = gpoly[0] if f == 0 else gpoly[G.locate(inner[f])]
            got = mp[2].get(pid)
            mon.need(got == want, 'polygon map', 'input {}: polygon {} is part of original polygon {}, map says {}', k, pid, want, got)
            mon.ev('polygon images')
        img = [mp[2][pid] for pid in poly_of.values()]
        mon.need(set(img) == set(gpoly.values()), 'polygon map', 'input {}: polygons {} have no image', k, set(gpoly.values()) - set(img))
        mon.ev('polygons subdivided', len(img) - len(set(img)))
    mon.ev('shared edges', sum(1 for s in E if sum(1 for m in maps if s in m[1]) > 1))
