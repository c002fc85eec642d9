"""P09: an approved displacement never makes lines touch or cross on the way; a displacement with clearance is approved."""
import math
import random
import numpy as np
from fractions import Fraction as Fr
from vlib import pdcheck, pdmodel, planar, pddrive
from vlib.core import Violation
from vlib.pddrive import gen_map, gen_ops, make_map
from vlib.pdmodel import Map, Model
from vlib.pdutil import fresh, build, seg_dist

LEVEL = 'exploration'
RULE = ('One execution = a drawing and a sequence of displacements of one or several vertices (generic directions, some just reaching or '
        'passing a neighbouring vertex or segment); oracle: exact planarity of 40 intermediate drawings and their clearance; after approved '
        'moves the whole structure, snapping and further drawing are compared with the exact geometry. '
        'Distinct = (number of moved vertices, their degrees, answer) tuples.')
ASSUMPTIONS = ['generic displacements: a move ending exactly on another vertex or line is not decided']
REQUIRED = {'approved': 500, 'refused': 400, 'moved several': 150, 'clear moves': 300, 'colliding moves': 300, 'drawing after move': 200,
            'free point moved': 60, 'passing over a vertex': 10}
STEPS = 40


def cases(tier, rng):
    n = 600 if tier == 'quick' else 25000
    return [{'map': gen_map(rng), 'ops': gen_ops(rng, rng.randint(3, 14), rng.choice([3, 4, 5, 6]), dels=.15, points=.12, structured=.4),
             'seed': rng.randrange(10 ** 9), 'moves': 7} for _ in range(n)]


def exact(pts):
    return planar.scale_points(pts)[0]


def separation(P, E):
    m = Model()
    for p in P.values():
        m.pts[p] = None
    for a, b in E.values():
        m.edges[frozenset((P[a], P[b]))] = None
    return m.separation() if len(m.pts) == len(P) else 0.0


def run(case, mon):
    fresh()
    d = build(case['map'], case['ops'], mon)
    pd = d.pd
    if not pd.points:
        return
    rng = random.Random(case['seed'])
    sc = d.map.scale
    for _ in range(case['moves']):
        P, E = pdcheck.geometry(pd)
        if separation(P, E) < 2.2 * d.tol:
            mon.ev('stopped: too close')
            break
        ids = sorted(pd.points)
        k = 1 if rng.random() < .6 else rng.randint(2, min(4, len(ids)) + 1)
        start = rng.choice(ids)
        chosen = [start]
        # neighbours of the first one with some preference: common segments move rigidly
        nb = [x for a, b in E.values() if start in (a, b) for x in (a, b) if x != start]
        while len(chosen) < min(k, len(ids)):
            c = rng.choice(nb) if nb and rng.random() < .6 else rng.choice(ids)
            if c not in chosen:
                chosen.append(c)
            else:
                nb = []
        r = rng.random()
        if r < .25 and len(ids) > len(chosen):
            # aim just beside another vertex or slightly beyond it
            o = rng.choice([i for i in ids if i not in chosen])
            v = np.array(P[o]) - np.array(P[start])
            L = math.hypot(*v)
            if L == 0:
                continue
            disp = v * rng.choice([.8, .93, 1.07, 1.3]) + np.array([-v[1], v[0]]) / L * sc * rng.choice([-.06, .06, .1, -.1])
        else:
            disp = np.array([rng.uniform(-2, 2), rng.uniform(-2, 2)]) * rng.choice([.1, .3, .6, 1]) * sc
        pts = [pd.points[i] for i in chosen]
        moved = set(chosen)

        def at(t):
            return {i: ((p[0] + t * disp[0], p[1] + t * disp[1]) if i in moved else p) for i, p in P.items()}
        collide = False
        clear = True
        for t in np.linspace(0, 1, STEPS + 1)[1:]:
            Q = at(t)
            if separation(Q, E) < .06 * sc:
                clear = False
            if not clear:
                # a crossing may also have happened between two samples
                try:
                    planar.check_planar(exact(Q), E)
                except planar.NotPlanar:
                    collide = True
                    break
        if collide and t == 1:
            # lines which just touch each other at the very end are not decided
            try:
                planar.check_planar(exact(at(1 - 1e-6)), E)
                mon.ev('touching at the end')
                continue
            except planar.NotPlanar:
                pass
        dstep = math.hypot(*disp) / STEPS
        if dstep > .055 * sc:
            clear = False
        before = pdcheck.geometry(pd)
        F0, p0, _ = d.structure()
        ok = pd.check_displacment(pts, disp)
        mon.need(ok in (True, False), 'answer', 'answer {!r}', ok)
        mon.need(pdcheck.geometry(pd) == before, 'check changes drawing', 'the check moved points')
        degs = sorted(len(F0.out[i]) for i in chosen)
        mon.state(degs, bool(ok), collide, clear, len(E))
        mon.ev('approved' if ok else 'refused')
        mon.ev('moved several', len(chosen) > 1)
        mon.ev('free point moved', 0 in degs)
        # does the straight way of a moving segment pass over a fixed vertex although the end state is planar
        if collide:
            mon.ev('colliding moves')
            try:
                planar.check_planar(exact(at(1.0)), E)
                mon.ev('passing over a vertex')
            except planar.NotPlanar:
                pass
            mon.need(not ok, 'unsafe move approved', 'displacement {} of points {} makes lines cross on the way', tuple(disp), [P[i] for i in chosen])
        if clear and not collide:
            mon.ev('clear moves')
            mon.need(ok, 'free move refused', 'displacement {} of points {} keeps everything apart and is refused', tuple(disp), [P[i] for i in chosen])
        if not ok or collide:
            continue
        end = at(1.0)
        pd.move_points(pts, disp)
        got, _ = pdcheck.geometry(pd)
        for i in P:
            mon.need(math.dist(got[i], end[i]) <= 1e-9 * (sc + abs(end[i][0]) + abs(end[i][1])), 'moved position', 'point {} moved to {} not {}',
                     i, got[i], end[i])
        try:
            F1, p1, w1 = pdcheck.check(pd)
        except pdcheck.Broken as e:
            raise Violation('structure after move: ' + e.key, str(e))
        mon.need(set(p1.values()) == set(p0.values()), 'structure after move', 'polygons changed by a move')
        if separation(got, E) < 2.2 * d.tol:
            continue
        # snapping follows the moved objects
        i = rng.choice(chosen)
        q = pd.add_point(np.array(got[i]) + d.tol * .5 * np.array([.6, .8]))
        mon.need(q.id == i, 'snapping after move', 'a point beside moved point {} became point {}', i, q.id)
        near = [s for s, (a, b) in E.items() if a in moved or b in moved]
        m = Model()
        for p in got.values():
            m.pts[(Fr(p[0]), Fr(p[1]))] = None
        for a, b in E.values():
            m.edges[frozenset((Fr(got[x][0]), Fr(got[x][1])) for x in (a, b))] = None
        if near and rng.random() < .6:
            # a line across a moved segment
            a, b = [got[x] for x in E[rng.choice(near)]]
            t = rng.uniform(.2, .8)
            c = (a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]))
            L = math.dist(a, b)
            n = ((a[1] - b[1]) / L, (b[0] - a[0]) / L)
            h = rng.uniform(.2, .7) * sc
            u, v = (c[0] + h * n[0], c[1] + h * n[1]), (c[0] - h * n[0], c[1] - h * n[1])
            fu, fv = tuple(map(Fr, u)), tuple(map(Fr, v))
            m.add_line(fu, fv)
            if m.separation() < 2.2 * d.tol:
                continue
            pd.add_line(u, v)
            try:
                pdmodel.match(m, pd, Map(), 1e-4 * d.tol)
            except pdmodel.Mismatch as e:
                raise Violation('drawing after move: ' + e.key, 'line %s %s after a move: %s' % (u, v, e))
            d.structure()
            mon.ev('drawing after move')
