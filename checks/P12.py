"""P12: the box lookup answers as a brute force search over the boxes currently in it."""
import numpy as np
import random
from bgem.polygons import aabb_lookup

LEVEL = 'exploration'
RULE = ('One execution = a history of adding, replacing and removing boxes (integer grid with touching boxes, degenerate boxes, large '
        'ids forcing growth, huge and tiny scales) interleaved with queries, compared with a brute force search over a dict. '
        'Distinct = (live boxes, answer size) of the queries.')
ASSUMPTIONS = ['coordinates below 1e49 in size']
REQUIRED = {'intersect queries': 5000, 'closest queries': 5000, 'removed': 1500, 'replaced': 500, 'grown': 50, 'empty lookup queried': 50,
            'touching': 500, 'box': 500}


def cases(tier, rng):
    n = 1000 if tier == 'quick' else 4000
    return [{'seed': rng.randrange(10 ** 9), 'n': rng.choice([10, 40, 120]), 'mode': rng.choice(['int', 'float', 'thin', 'points']),
             'scale': rng.choice([1.0, 1.0, 1e-6, 1e7]), 'ids': rng.choice(['dense', 'dense', 'sparse', 'big']),
             'rm': rng.choice([.1, .4, .6])} for _ in range(n)] + [
             # long histories: slots of removed objects prevail
             {'seed': rng.randrange(10 ** 9), 'n': rng.choice([1400, 2000]), 'mode': rng.choice(['int', 'float']), 'scale': 1.0, 'ids': 'dense', 'rm': rng.choice([.7, .85])}
             for _ in range(n // 250)]


def run(case, mon):
    rng = random.Random(case['seed'])
    sc = case['scale']
    init = rng.choice([1, 2, 16, 128])
    lk = aabb_lookup.AABB_Lookup(init_size=init)
    live = {}
    nid = 0

    def coord():
        return float(rng.randint(-6, 6)) * sc if case['mode'] == 'int' else rng.uniform(-6, 6) * sc

    def box():
        if case['mode'] == 'points':
            p = [coord(), coord()]
            b = p + p
        else:
            w = 0 if case['mode'] == 'thin' and rng.random() < .5 else abs(coord())
            h = abs(coord())
            x, y = coord(), coord()
            b = [x, y, x + w, y + h]
        return np.array(b)
    for step in range(case['n']):
        r = rng.random()
        if r < case['rm'] * .5 and live:
            k = rng.choice(sorted(live))
            lk.rm_object(k)
            del live[k]
            mon.ev('removed')
        elif r < .1 + case['rm'] * .5 and live:
            k = rng.choice(sorted(live))
            live[k] = box()
            lk.add_object(k, live[k].copy())
            mon.ev('replaced')
        else:
            if case['ids'] == 'dense':
                k = nid
                nid += 1
            elif case['ids'] == 'sparse':
                k = rng.randrange(400)
            else:
                k = rng.randrange(40) * rng.choice([1, 1, 30])
            if k >= init:
                mon.ev('grown')
            live[k] = box()
            lk.add_object(k, live[k].copy())
        for _ in range(2):
            q = box()
            got = [int(i) for i in lk.intersect_candidates(q)]
            want = sorted(i for i, b in live.items() if not (q[2] < b[0] or b[2] < q[0] or q[3] < b[1] or b[3] < q[1]))
            mon.need(sorted(got) == want, 'intersect', 'boxes intersecting {}: {} expected {}', q.tolist(), sorted(got), want)
            mon.ev('intersect queries')
            mon.ev('touching', any(q[2] == b[0] or b[2] == q[0] or q[3] == b[1] or b[3] == q[1] for i, b in live.items() if i in want))
            p = np.array([coord(), coord()])
            if live and rng.random() < .3:
                b = live[rng.choice(sorted(live))]
                p = np.array([b[0] + rng.choice([0, .5, 1, 1.2]) * (b[2] - b[0]), b[1] + rng.choice([0, .5, 1]) * (b[3] - b[1])])
            got = [int(i) for i in lk.closest_candidates(p)]
            mon.need(len(got) == len(set(got)) and all(i in live for i in got), 'closest: unknown object', 'candidates {} not all in the lookup {}',
                     [i for i in got if i not in live], sorted(live))
            mon.ev('closest queries')
            mon.state(len(live), len(got), len(want))
            if not live:
                mon.ev('empty lookup queried')
                continue
            # L2 distance to nearest / farthest point of every box
            near = {i: np.hypot(*np.maximum(0, np.maximum(b[:2] - p, p - b[2:]))) for i, b in live.items()}
            far = min(np.hypot(*np.maximum(np.abs(b[:2] - p), np.abs(b[2:] - p))) for b in live.values())
            need = [i for i in near if near[i] <= far * (1 - 1e-12)]
            miss = [i for i in need if i not in got]
            mon.need(not miss, 'closest: missed object', 'point {}: object {} in box {} may be the closest (box at {}, some object within {})', p.tolist(),
                     miss[:1], live[miss[0]].tolist() if miss else None, near[miss[0]] if miss else 0, far)
            best = min(near, key=lambda i: near[i])
            mon.need(got, 'closest: empty', 'no candidate for {} among {} boxes', p.tolist(), len(live))
    for _ in range(10):
        n = rng.randint(1, 5)
        pts = [[coord(), coord()] for _ in range(n)]
        m = rng.choice([None, 0.0, .5 * sc, sc])
        b = aabb_lookup.make_aabb(pts) if m is None else aabb_lookup.make_aabb([np.array(q) for q in pts], margin=m)
        m = m or 0.0
        want = [min(q[0] for q in pts) - m, min(q[1] for q in pts) - m, max(q[0] for q in pts) + m, max(q[1] for q in pts) + m]
        mon.need(list(b) == want, 'bounding box', 'box of {} margin {}: {} expected {}', pts, m, list(b), want)
        mon.ev('box')
