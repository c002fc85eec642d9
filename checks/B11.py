"""B11: plots show the curve, surface and poles evaluated, and every show() displays exactly what was added since the last one."""
import os
import random
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import numpy as np
from mpl_toolkits.mplot3d import Axes3D
from vlib import bsref
from bgem.bspline import bspline as bs, bspline_plot as bp

plt.get_fignums()
plt.switch_backend('Agg')

LEVEL = 'exploration'
RULE = ('One execution = a history of plotting calls (curves, surfaces, poles, raw points; rational or not, any degree and domain) and show() calls on one backend (recorder, plotly, '
        'matplotlib). The data given to the plotting library and the figures displayed by each show() are compared with exact evaluation and with the list of plots '
        'added since the previous show(). Distinct = (backend, sequence of calls).')
ASSUMPTIONS = ['the plotting libraries draw what they are given; figures are intercepted at plotly.offline.plot and matplotlib.pyplot.show',
               'one Plotting object at a time']
REQUIRED = {'plotted points': 8000, 'poles': 1000, 'rational': 60, 'plotly figures': 100, 'matplotlib figures': 30, 'shows': 250, 'shows after shows': 60,
            'windows closed': 10, 'grid plots': 20}


def gen_object(rng, surf, unit=False, dim=None):
    degs = [rng.choice([1, 2, 2, 3]) for _ in range(2 if surf else 1)]
    ks = [bsref.gen_knots(rng, d, 4, unit=unit) for d in degs]
    if unit:
        kn = []
        for k, m, br in ks:
            b = [(x - br[0]) / (br[-1] - br[0]) for x in br]
            b[-1] = 1.
            kn.append([x for x, mm in zip(b, m) for _ in range(mm)])
    else:
        kn = [k[0] for k in ks]
    rat = rng.random() < .35
    return {'deg': degs, 'knots': kn, 'rat': rat, 'poles': bsref.gen_poles(rng, [len(k) - d - 1 for k, d in zip(kn, degs)], dim or (3 if surf else 2), rat, True)}


def cases(tier, rng):
    out = []
    for _ in range(320 if tier == 'quick' else 2600):
        backend = rng.choice(['rec', 'plotly', 'plotly', 'mpl'])
        ops = []
        for _ in range(rng.randint(2, 7)):
            k = rng.choice(['curve', 'curve', 'curvepoles', 'surface', 'surface', 'surfpoles', 'grid', 'zsurf', 'line', 'points2', 'points3', 'rawsurf', 'show', 'show'])
            o = {'op': k}
            if k in ('curve', 'curvepoles'):
                o.update(gen_object(rng, False), n=rng.choice([2, 3, 7, 15]), p=rng.random() < .5)
            elif k in ('surface', 'surfpoles', 'grid'):
                o.update(gen_object(rng, True, unit=k == 'grid'), n=[rng.choice([2, 3, 5, 8]), rng.choice([2, 3, 4, 7])], p=rng.random() < .5)
            elif k == 'zsurf':
                a = rng.uniform(0, 6)
                o.update(gen_object(rng, True, unit=True, dim=1), n=[rng.choice([2, 3, 5]), rng.choice([2, 4])], grid=rng.random() < .5,
                         quad=[[np.sin(a) * -1, np.cos(a)], [0, 0], [2 * np.cos(a), 2 * np.sin(a)]])
                o['rat'] = False
                o['poles'] = [[p[:1] for p in r] for r in o['poles']]
            elif k == 'rawsurf':
                o['x'] = [[[rng.uniform(-1, 1) for _ in range(3)] for _ in range(3)] for _ in range(2)]
            elif k != 'show':
                o['x'] = [[rng.uniform(-5, 5) for _ in range(4)] for _ in range(3 if k == 'points3' else 2)]
            ops.append(o)
        ops.append({'op': 'show'})
        out.append({'backend': backend, 'ops': ops, 'close': rng.random() < .5})
    return out


class Rec:
    def __init__(self):
        self.items, self.shows = [], []

    def add_curve_2d(self, X, Y, **k):
        self.items.append(('line', X, Y))

    def add_points_2d(self, X, Y, **k):
        self.items.append(('points2', X, Y))

    def add_surface_3d(self, X, Y, Z, **k):
        self.items.append(('surface', X, Y, Z))

    def add_points_3d(self, X, Y, Z, **k):
        self.items.append(('points3', X, Y, Z))

    def show(self):
        self.shows.append(self.items)
        self.items = []


def norm(item):
    return (item[0],) + tuple(np.array(x, dtype=float) for x in item[1:])


class Capture:
    """intercepts the figures of both libraries -> list of displayed items per show()"""

    def __init__(self, close, mon):
        self.close, self.mon = close, mon
        self.shown, self.files = [], []
        self.arts = {}
        plt.close('all')
        bp.pl.plot = lambda *a, **k: self.plotly(*a, **k)
        bp.plt.show = lambda *a, **k: self.mpl()
        if not hasattr(Axes3D, '_verif_orig'):
            Axes3D._verif_orig = Axes3D.plot_surface
        cap = self

        def plot_surface(ax, X, Y, Z, *a, **k):
            r = Axes3D._verif_orig(ax, X, Y, Z, *a, **k)
            cap.arts[id(r)] = (r, ('surface', X, Y, Z))
            return r
        Axes3D.plot_surface = plot_surface

    def plotly(self, fig, *a, **k):
        self.mon.ev('plotly figures')
        f = k.get('filename', 'temp-plot.html')
        self.mon.need(f not in self.files, 'plotly file', 'figure {} overwrites the previous one', f)
        self.files.append(f)
        for t in fig.data:
            if t.type == 'surface':
                self.shown.append(norm(('surface', t.x, t.y, t.z)))
            elif t.type == 'scatter3d':
                self.mon.need(t.mode == 'markers', 'plot mode', 'points plotted as {}', t.mode)
                self.shown.append(norm(('points3', t.x, t.y, t.z)))
            else:
                self.shown.append(norm(('points2' if t.mode == 'markers' else 'line', t.x, t.y)))

    def mpl(self, *a, **k):
        self.mon.ev('matplotlib figures')
        for num in plt.get_fignums():
            for ax in plt.figure(num).axes:
                for l in ax.lines:
                    points = l.get_linestyle() in ('None', '', ' ') and l.get_marker() not in ('None', '', None)
                    self.shown.append(norm(('points2' if points else 'line',) + tuple(l.get_data())))
                for c in ax.collections:
                    if id(c) in self.arts:
                        self.shown.append(norm(self.arts[id(c)][1]))
                    else:
                        self.shown.append(norm(('points3',) + tuple(c._offsets3d)))
        if self.close:
            self.mon.ev('windows closed')
            plt.close('all')


def exact_curve(o, n):
    k = o['knots'][0]
    T = [k[0] + (k[-1] - k[0]) * i / (n - 1) for i in range(n)]
    T[-1] = k[-1]
    return np.array([[float(x) for x in bsref.curve_point(k, o['deg'][0], o['poles'], min(max(t, k[0]), k[-1]), o['rat'])] for t in T])


def exact_surface(o, n):
    ku, kv = o['knots']
    U, V = [[k[0] + (k[-1] - k[0]) * i / (m - 1) for i in range(m)] for k, m in zip((ku, kv), n)]
    return U, V, np.array([[[float(x) for x in bsref.surface_point(ku, o['deg'][0], kv, o['deg'][1], o['poles'], min(max(u, ku[0]), ku[-1]), min(max(v, kv[0]), kv[-1]), o['rat'])]
                            for v in V] for u in U])


def close(a, b, sc):
    return all(x.shape == y.shape and np.all(np.abs(x - y) <= 1e-9 * sc) for x, y in zip(a, b))


def matches(want, got):
    """want = (kind, arrays..., scale)"""
    kind, arrs, sc = want
    if got[0] != kind or len(got) - 1 != len(arrs):
        return False
    if kind == 'surface':
        return close(arrs, got[1:], sc) or close([a.T for a in arrs], got[1:], sc)
    if kind.startswith('points'):
        if got[1].size != arrs[0].size:
            return False
        A, B = np.array([a.ravel() for a in arrs]).T, np.array([a.ravel() for a in got[1:]]).T
        left = list(range(len(B)))
        for a in A:
            j = [i for i in left if np.all(np.abs(B[i] - a) <= 1e-9 * sc)]
            if not j:
                return False
            left.remove(j[0])
        return True
    return close(arrs, got[1:], sc)


def run(case, mon):
    mon.state(case['backend'], [o['op'] for o in case['ops']])
    cap = Capture(case['close'], mon)
    rec = Rec()
    cwd = os.getcwd()
    os.chdir(os.environ.get('VERIF_SCRATCH', '/tmp'))       # figures would be written to the working directory
    try:
        P = bp.Plotting({'rec': lambda: rec, 'plotly': bp.PlottingPlotly, 'mpl': bp.PlottingMatplot}[case['backend']]())
        want, nshow = [], 0
        for o in case['ops']:
            k = o['op']
            if k == 'show':
                if case['backend'] == 'mpl' and not want:
                    continue
                cap.shown = []
                P.show()
                mon.ev('shows')
                if nshow:
                    mon.ev('shows after shows')
                nshow += 1
                got = [norm(i) for i in rec.shows[-1]] if case['backend'] == 'rec' else cap.shown
                left = list(range(len(got)))
                for w in want:
                    j = [i for i in left if matches(w, got[i])]
                    mon.need(j, 'not displayed', '{} {} is not displayed (or with other data) by show(), displayed: {}', w[0], [a.tolist() for a in w[1]],
                             [(got[i][0], [a.tolist() for a in got[i][1:]]) for i in left if got[i][0] == w[0]][:3])
                    left.remove(j[0])
                    mon.ev('plotted points', w[1][0].size)
                mon.need(not left, 'displayed too much', 'show() displays also {}', [got[i][0] for i in left])
                want = []
                continue
            if 'deg' in o:
                flat = np.array(o['poles'], dtype=float)
                flat = flat.reshape(-1, flat.shape[-1])
                dim = flat.shape[1] - bool(o['rat'])
                sc = np.abs(flat[:, :dim]).max() + 1e-300
                B = [bs.SplineBasis(d, kn) for d, kn in zip(o['deg'], o['knots'])]
                if o['rat']:
                    mon.ev('rational')
                pts = [flat[:, d].copy() for d in range(dim)]
            if k in ('curve', 'curvepoles'):
                c = bs.Curve(B[0], o['poles'], rational=o['rat'])
                if k == 'curve':
                    P.plot_curve_2d(c, n_points=o['n'], poles=o['p'])
                    want.append(('line', list(exact_curve(o, o['n']).T), sc))
                else:
                    P.plot_curve_poles_2d(c)
                if k == 'curvepoles' or o['p']:
                    want.append(('points2', pts, sc))
                    mon.ev('poles', len(flat))
            elif k in ('surface', 'surfpoles', 'grid'):
                s = bs.Surface(B, o['poles'], rational=o['rat'])
                if k == 'surfpoles':
                    P.plot_surface_poles_3d(s)
                else:
                    U, V, X = exact_surface(o, o['n'])
                    if k == 'surface':
                        P.plot_surface_3d(s, n_points=tuple(o['n']), poles=o['p'])
                        want.append(('surface', [X[:, :, d] for d in range(3)], sc))
                    else:
                        P.plot_grid_surface_3d(s, n_points=tuple(o['n']))
                        G = np.meshgrid(U, V, indexing='ij')
                        want.append(('surface', [G[0], G[1], X[:, :, 2]], sc))
                        mon.ev('grid plots')
                if k == 'surfpoles' or k == 'surface' and o['p']:
                    want.append(('points3', pts, sc))
                    mon.ev('poles', len(flat))
            elif k == 'zsurf':
                z = bs.Z_Surface(np.array(o['quad'], dtype=float), bs.Surface(B, np.array(o['poles'], dtype=float)))
                U, V, X = exact_surface(o, o['n'])
                G = np.meshgrid(U, V, indexing='ij')
                q = np.array(o['quad'])
                if o['grid']:
                    P.plot_grid_surface_3d(z, n_points=tuple(o['n']))
                    want.append(('surface', [G[0], G[1], X[:, :, 0]], max(sc, 1)))
                else:
                    P.plot_surface_3d(z, n_points=tuple(o['n']))
                    XY = q[1] + G[0][..., None] * (q[2] - q[1]) + G[1][..., None] * (q[0] - q[1])
                    want.append(('surface', [XY[..., 0], XY[..., 1], X[:, :, 0]], max(sc, 4)))
                mon.ev('grid plots')
            elif k == 'rawsurf':
                x = [np.array(a) for a in np.moveaxis(np.array(o['x']), 2, 0)]
                P.plot_surface(*x)
                want.append(('surface', x, 1.))
            else:
                x = [np.array(a) for a in o['x']]
                {'line': P.plot_2d, 'points2': P.scatter_2d, 'points3': P.scatter_3d}[k](*x)
                want.append((k, x, 5.))
    finally:
        os.chdir(cwd)
        plt.close('all')
