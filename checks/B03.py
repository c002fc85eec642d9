"""B03: boxes of curve intervals and surface patches contain them; queries of the tree find every patch a point lies on."""
import random
import numpy as np
import bih
from vlib import bsref
from bgem.bspline import bspline as bs

LEVEL = 'exploration'
RULE = ('One execution = one 3D curve or surface (degree 1-4, rational or not); for points on every interval/patch (corners, edges, inner points) '
        'the reported box of the patch contains the point and the tree query of the point finds the patch; boxes stay within the box of the whole. '
        'Distinct = (degrees, numbers of patches, rational).')
ASSUMPTIONS = ['simple inner knots', 'dimension 3 (the box tree is three dimensional)', 'positive weights']
REQUIRED = {'curve points': 2000, 'surface points': 4000, 'tree queries': 4000, 'patches': 1500, 'shared patches': 300}


def cases(tier, rng):
    out = []
    for _ in range(500 if tier == 'quick' else 6000):
        surf = rng.random() < .6
        degs = [rng.choice([1, 2, 2, 2, 3, 4]) for _ in range(2 if surf else 1)]
        ks = [bsref.gen_knots(rng, d, 5, inner_mult=False) for d in degs]
        rat = rng.random() < .25
        out.append({'deg': degs, 'knots': [k[0] for k in ks], 'br': [k[2] for k in ks], 'rat': rat,
                    'poles': bsref.gen_poles(rng, [len(k[0]) - d - 1 for k, d in zip(ks, degs)], 3, rat, True), 'seed': rng.randrange(10 ** 9),
                    'first': rng.choice(['tree', 'boxes', 'build'])})
    return out


def run(case, mon):
    degs, ks, br, rat, P = case['deg'], case['knots'], case['br'], case['rat'], np.array(case['poles'])
    rng = random.Random(case['seed'])
    surf = len(degs) == 2
    B = [bs.SplineBasis(d, k) for d, k in zip(degs, ks)]
    obj = (bs.Surface if surf else bs.Curve)(B if surf else B[0], P, rational=rat)
    if case['first'] == 'build':
        obj.bounding_boxes()
    elif case['first'] == 'tree':
        obj.tree
    boxes, tree = obj.boxes, obj.tree
    ns = [len(b) - 1 for b in br]
    n = int(np.prod(ns))
    mon.state(degs, ns, rat)
    mon.need(len(boxes) == n, 'count', '{} boxes for {} patches', len(boxes), n)
    flat = P.reshape(-1, P.shape[-1])[:, :3]
    sc = np.max(np.abs(flat))
    eps = 1e-11 * sc
    lo, hi = flat.min(axis=0), flat.max(axis=0)
    seen = set()
    for idx in np.ndindex(*ns):
        if surf:
            pid = obj.patch_pos2id(*idx)
            mon.need(tuple(obj.patch_id2pos(pid)) == tuple(idx), 'patch id', 'patch {} -> {} -> {}', idx, pid, obj.patch_id2pos(pid))
        else:
            pid = idx[0]
        mon.need(0 <= pid < n and pid not in seen, 'patch id', 'patch {} has id {} of {}', idx, pid, n)
        seen.add(pid)
        mon.ev('patches')
        bmin, bmax = np.array(boxes[pid].min()), np.array(boxes[pid].max())
        mon.need(np.all(bmin >= lo - eps) and np.all(bmax <= hi + eps), 'box', 'box {} {} of patch {} exceeds the poles {} {}', bmin, bmax, idx, lo, hi)
        for k in range(4):
            t = []
            for a, i in enumerate(idx):
                x = [0., 1., rng.random(), .5][rng.randrange(4)]
                t.append(br[a][i] + (br[a][i + 1] - br[a][i]) * x if x < 1 else br[a][i + 1])
            q = obj.eval(*t)
            mon.ev('surface points' if surf else 'curve points')
            mon.need(np.all(q >= bmin - eps) and np.all(q <= bmax + eps), 'box', 'point {} at {} out of the box {} {} of its patch {}', q, t, bmin, bmax, idx)
            e = 2 * eps
            found = tree.find_box(bih.AABB([(q - e).tolist(), (q + e).tolist()]))
            mon.ev('tree queries')
            if len(found) > 1:
                mon.ev('shared patches')
            mon.need(pid in found, 'tree', 'query of point {} found patches {}, its patch {} is missing', q, list(found), pid)
    wb = tree.find_box(bih.AABB([(lo - 1).tolist(), (hi + 1).tolist()]))
    mon.need(sorted(wb) == list(range(n)), 'tree', 'query of everything finds {} of {} patches', len(wb), n)
