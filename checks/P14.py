"""P14: the plots of a decomposition show exactly its polygons, segments and points."""
import math
import os
import random
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import numpy as np
import plotly.offline
from matplotlib import collections as mc
from vlib import pdcheck, planar
from vlib.core import Violation
from vlib.pddrive import gen_map, gen_ops
from vlib.pdutil import fresh, build, walk, rotations_equal, snapshot
from bgem.polygons import plot_polygons as pp

LEVEL = 'exploration'
RULE = ('One execution = a drawing (with deletions, nesting, isolated points), plotted; the traces of the figure given to the plotting library are compared with '
        'the exact faces, edges and vertices of the raw points and segments. Distinct = (nesting profile, face sizes, plotted function).')
ASSUMPTIONS = ['plotly and matplotlib draw what they are given; the figure is intercepted at plotly.offline.plot / read from the matplotlib axes']
REQUIRED = {'polygons drawn': 800, 'polygons in polygons': 60, 'segments drawn': 3000, 'points drawn': 3000, 'isolated points': 50, 'own point lists': 30,
            'empty drawings': 1, 'pdf files': 5}


def cases(tier, rng):
    n = 260 if tier == 'quick' else 15000
    out = [{'map': gen_map(rng), 'ops': gen_ops(rng, rng.randint(4, 22), rng.choice([4, 5, 6, 8]), dels=rng.choice([0, .2, .35]), points=.15, structured=.8),
            'what': 'polygons' if rng.random() < .75 else 'segments', 'seed': rng.randrange(10 ** 9)} for _ in range(n)]
    for w in ('polygons', 'segments'):
        out.append({'map': gen_map(rng), 'ops': [], 'what': w, 'seed': 1})
        out.append({'map': gen_map(rng), 'ops': [['P', 1, 1]], 'what': w, 'seed': 1})
        out.append({'map': gen_map(rng), 'ops': [['L', 1, 1, 2, 3]], 'what': w, 'seed': 1})
    return out


def same(a, b):
    return len(a) == len(b) and all(tuple(p) == tuple(q) for p, q in zip(a, b))


def multiset(mon, got, want, key, what):
    got, want = sorted(map(tuple, got)), sorted(map(tuple, want))
    mon.need(got == want, key, '{}: drawn {} expected {}', what, got[:60], want[:60])


def undirected(segs):
    return [tuple(sorted(tuple(float(x) for x in p) for p in s)) for s in segs]


def check_polygons(d, case, mon, rng):
    pd = d.pd
    F, poly_of, wire_of = d.structure()
    P, E = pdcheck.geometry(pd)
    figs = []
    plotly.offline.plot = lambda fig, *a, **k: figs.append(fig)
    own = None
    if rng.random() < .25:
        own = [p for p in pd.points.values() if rng.random() < .5]
        mon.ev('own point lists')
        pp.plot_polygon_decomposition(pd, own)
    else:
        pp.plot_polygon_decomposition(pd)
    mon.need(len(figs) == 1, 'figures', '{} figures shown', len(figs))
    polys, segs, pts = [], [], []
    for tr in figs[0].data:
        xy = list(zip(tr.x or (), tr.y or ()))
        if tr.fill is not None:
            polys.append(xy)
        elif tr.mode == 'markers':
            pts += xy
        else:
            segs += list(zip(xy[:-1], xy[1:]))
    # segments, points
    mon.ev('segments drawn', len(segs))
    multiset(mon, undirected(segs), undirected([(P[a], P[b]) for a, b in E.values()]), 'segments', 'segments')
    mon.ev('points drawn', len(pts))
    want = [P[p.id] for p in own] if own is not None else list(P.values())
    multiset(mon, [tuple(float(x) for x in p) for p in pts], [tuple(float(x) for x in p) for p in want], 'points', 'points')
    mon.ev('isolated points', sum(not F.out[v] for v in P))
    # polygons: each bounded face once, after the faces around it
    order = {}
    for i, xy in enumerate(polys):
        hits = []
        for f, pid in poly_of.items():
            if f:
                b = [tuple(float(x) for x in P[v]) for v in walk(F, E, F.cycles[F.outer_cycle[f]])]
                for c in (xy, xy[:-1] if len(xy) > 1 and xy[0] == xy[-1] else xy):
                    c = [tuple(float(x) for x in p) for p in c]
                    if rotations_equal(b, c) or rotations_equal(b, c[::-1]):
                        hits.append(f)
                        break
        mon.need(len(hits) == 1, 'polygons', 'drawn polygon {} is the boundary of polygons {}', xy[:60], [poly_of[f] for f in hits])
        mon.need(hits[0] not in order, 'polygons', 'polygon {} is drawn repeatedly', poly_of[hits[0]])
        order[hits[0]] = i
        mon.ev('polygons drawn')
    missing = [poly_of[f] for f in poly_of if f and f not in order]
    mon.need(not missing, 'polygons', 'polygons {} are not drawn', missing)
    for f in order:
        g = F.face_of_cycle[F.comp_hole_of_cycle[F.outer_cycle[f]]]
        if g:
            mon.ev('polygons in polygons')
            mon.need(order[g] < order[f], 'order', 'polygon {} drawn before the polygon {} around it, which covers it', poly_of[f], poly_of[g])
    return F, poly_of


def check_segments(d, case, mon, rng):
    pd = d.pd
    P, E = pdcheck.geometry(pd)
    plt.close('all')
    shown = []
    plt.show = lambda *a, **k: shown.append(plt.gcf())
    A, B = [], []
    if rng.random() < .6:
        mon.ev('own point lists')
        A = [p for p in pd.points.values() if rng.random() < .5]
        B = [[rng.uniform(-1, 1), rng.uniform(-1, 1)] for _ in range(rng.randint(0, 3))]
        if rng.random() < .5:
            A, B = B, A
        if rng.random() < .5:
            A = A + B
            rng.shuffle(A)
    cwd = os.getcwd()
    here = os.path.join(os.environ.get('VERIF_SCRATCH', '/tmp'), 'p14_%d' % os.getpid())
    os.makedirs(here, exist_ok=True)
    os.chdir(here)
    try:
        pp.plot_decomp_segments(pd, A, B) if (A or B) else pp.plot_decomp_segments(pd)
        mon.need(os.path.exists('fractures.pdf') and os.path.getsize('fractures.pdf') > 100, 'pdf', 'no figure file')
        mon.ev('pdf files')
        os.remove('fractures.pdf')
    finally:
        os.chdir(cwd)
    mon.need(len(shown) == 1, 'figures', 'figure shown {} times', len(shown))
    segs, pts = [], []
    ax = shown[0].axes
    mon.need(len(ax) == 1, 'figures', '{} axes', len(ax))
    for c in ax[0].collections:
        if isinstance(c, mc.LineCollection):
            for s in c.get_segments():
                s = [tuple(p) for p in np.asarray(s).tolist()]
                segs += list(zip(s[:-1], s[1:]))
        else:
            pts += [tuple(p) for p in np.asarray(c.get_offsets()).tolist()]
    mon.ev('segments drawn', len(segs))
    multiset(mon, undirected(segs), undirected([(P[a], P[b]) for a, b in E.values()]), 'segments', 'segments')
    want = list(P.values()) + [p.xy if hasattr(p, 'xy') else p for p in A + B]
    mon.ev('points drawn', len(pts))
    multiset(mon, pts, [tuple(float(x) for x in p) for p in want], 'points', 'points')
    # all in view
    lo, hi = zip(ax[0].get_xlim(), ax[0].get_ylim())
    mon.need(all(lo[k] <= p[k] <= hi[k] for p in want for k in (0, 1)), 'view', 'points {} out of the view {} {}', [list(p) for p in want][:20], lo, hi)
    plt.close('all')


def run(case, mon):
    fresh()
    d = build(case['map'], case['ops'], mon)
    rng = random.Random(case['seed'])
    before = snapshot(d.pd)
    if not d.pd.points:
        mon.ev('empty drawings')
    if case['what'] == 'polygons':
        F, poly_of = check_polygons(d, case, mon, rng)
        mon.state('polygons', sorted(len(c) for c in F.cycles), sorted(planar.face_depth(F, f) for f in poly_of))
        check_polygons(d, case, mon, rng)            # drawing again gives the same
    else:
        mon.state('segments', len(d.pd.segments), len(d.pd.points))
        check_segments(d, case, mon, rng)
    mon.need(snapshot(d.pd) == before, 'plot changes the decomposition', 'the decomposition differs after plotting')
