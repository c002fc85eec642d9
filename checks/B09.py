"""B09: curve/surface and surface/surface intersections: every reported point lies on both, every transversal crossing is reported once."""
import contextlib
import io
import random
import numpy as np
from scipy.interpolate import BSpline
from vlib import bsref
from vlib.core import Violation
from bgem.bspline import bspline as bs, isec_curve_surf as ICS, isec_surf_surf as ISS, surface_point as SP, curve_point as CP

LEVEL = 'exploration'
RULE = ('One execution = one pair of degree 2 objects on [0,1] (curve and surface, or two surfaces): every reported point is compared with the exact values of both objects at its parameters and with the '
        'patches it claims; crossings with planar or almost flat surfaces are located independently (sign changes along the curve, bisection) and each generic transversal one must be reported exactly once. '
        'Distinct = (kind, flatness, numbers of patches, number of points).')
ASSUMPTIONS = ['degree 2, domain [0,1], dimension 3, simple inner knots',
               'completeness only for planar or almost flat surfaces, for curve intervals monotone across the surface, crossings further than 1e-4 from knots or exactly at a knot',
               'connecting of points into curves (IsecSurfSurf.get_intersection) is unfinished: known finding']
REQUIRED = {'points': 800, 'complete': 300, 'curve-surf': 200, 'surf-surf': 60, 'patches': 800, 'parallel': 20, 'neighbours': 2000, 'at knot': 100}
TOL = 1e-11


def cases(tier, rng):
    out = [{'kind': 'full', 'ks': [[3, 3], [3, 3]], 'w': 0, 'seed': 1}]
    for _ in range(420 if tier == 'quick' else 4000):
        kind = rng.choice(['cs', 'cs', 'cs', 'cs', 'cs', 'ss', 'ss', 'par'])
        out.append({'kind': kind, 'ks': [[rng.randint(1, 5) for _ in range(2)] for _ in range(2)],
                    'w': rng.choice([0, 0, 0, .005, .01, .3]), 'eq': rng.random() < .5, 'seed': rng.randrange(10 ** 9)})
    for _ in range(300 if tier == 'quick' else 6000):
        out.append({'kind': rng.choice(['knot', 'knot', 'vertex']), 'ks': [[1, 1], [1, 1]], 'w': 0, 'seed': rng.randrange(10 ** 9)})
    return out


def knots(r, n, eq):
    if eq:
        br = np.linspace(0, 1, n + 1)
    else:
        while True:
            br = np.concatenate([[0], np.sort(r.uniform(0, 1, n - 1)), [1]])
            if np.diff(br).min() > .3 / n:
                break
    return [0., 0.] + br.tolist() + [1., 1.]


def greville(k):
    k = np.array(k)
    return (k[1:-2] + k[2:-1]) / 2


def graph(r, ku, kv, w, tilt):
    """degree 2 surface over the unit square, plane plus waves of the size w"""
    U, V = np.meshgrid(greville(ku), greville(kv), indexing='ij')
    a, b, c = r.uniform(-tilt, tilt, 2).tolist() + [r.uniform(.3, .7)]
    Z = c + a * (U - .5) + b * (V - .5) + w * r.uniform(-1, 1, U.shape)
    return np.stack([U, V, Z], axis=2)


def val(k, P, t):
    return BSpline(np.array(k), np.array(P), 2)(t)


def sval(ku, kv, P, u, v):
    u, v = np.atleast_1d(u), np.atleast_1d(v)
    A = BSpline.design_matrix(np.clip(u, 0, 1), np.array(ku), 2).toarray()
    B = BSpline.design_matrix(np.clip(v, 0, 1), np.array(kv), 2).toarray()
    return np.einsum('ni,nj,ijd->nd', A, B, P)


def crossings(kc, C, ku, kv, S):
    """generic transversal crossings of the curve with the graph surface S, None for intervals we do not judge"""
    br = kc[2:-2]
    h = lambda t: (lambda p: p[:, 2] - sval(ku, kv, S, p[:, 0], p[:, 1])[:, 2])(val(kc, C, np.atleast_1d(t)))
    out, skip = [], []
    for i in range(len(br) - 1):
        t = np.linspace(br[i], br[i + 1], 60)
        p = val(kc, C, t)
        f = p[:, 2] - sval(ku, kv, S, p[:, 0], p[:, 1])[:, 2]
        d = np.diff(f) / (t[1] - t[0])
        ch = [j for j in range(59) if f[j] * f[j + 1] <= 0]
        if not ch:
            if np.abs(f).min() < 1e-3:
                skip.append(i)
            continue
        if len(ch) > 1 or np.abs(d).min() < .25 * np.abs(d).max() or d.min() * d.max() < 0:
            skip.append(i)
            continue
        a, b = t[ch[0]], t[ch[0] + 1]
        fa = h(a)[0]
        for _ in range(60):
            c = (a + b) / 2
            fc = h(c)[0]
            if fa * fc <= 0:
                b = c
            else:
                a, fa = c, fc
        x = val(kc, C, c)
        near = lambda z, kn: min(abs(z - q) for q in kn) < 1e-4
        if near(c, kc) or near(x[0], ku) or near(x[1], kv):
            skip.append(i)
        elif 0 < x[0] < 1 and 0 < x[1] < 1:
            out.append((i, c, x[0], x[1]))
    return out, skip


def on(br, x, i):
    return br[i] <= x <= br[i + 1]


def patches(br, x):
    return [i for i in range(len(br) - 1) if on(br, x, i)]


def check_surface_point(mon, sp, ku, kv, P, xyz, tol=TOL):
    u, v = [float(x) for x in sp.uv]
    mon.need(0 <= u <= 1 and 0 <= v <= 1, 'parameters', 'parameters {} out of the domain', (u, v))
    e = np.array([float(x) for x in bsref.surface_point(ku, 2, kv, 2, P.tolist(), u, v)])
    mon.need(np.abs(e - xyz).max() <= 10 * tol, 'point on surface', 'point {} but surface at {} is {}', xyz, (u, v), e)
    nu, nv = len(ku) - 5, len(kv) - 5
    ids = {(i, j) for i in patches(ku[2:-2], u) for j in patches(kv[2:-2], v)}
    got = {tuple(int(x) for x in sp.surf.patch_id2pos(k)) for k in sp.patch_id()}
    mon.ev('patches')
    mon.need(got == ids, 'patches', 'point {} reported on patches {} but lies on {}', (u, v), got, ids)
    bnd = int(u in (0, 1) or v in (0, 1))
    mon.need(int(sp.surface_boundary_flag) == bnd, 'boundary', 'point {} boundary flag {}', (u, v), sp.surface_boundary_flag)


def neighbours(surf, curve, ku, kv, kc, mon):
    """a point of a patch (interval) given by any of the patches containing it refers to all of them"""
    bu, bv = ku[2:-2], kv[2:-2]
    for i in range(len(bu) - 1):
        for j in range(len(bv) - 1):
            for u in (bu[i], (bu[i] + bu[i + 1]) / 2, bu[i + 1]):
                for v in (bv[j], (bv[j] + bv[j + 1]) / 2, bv[j + 1]):
                    sp = SP.SurfacePoint(surf, np.array([i, j]), np.array([u, v]))
                    got = {tuple(int(x) for x in surf.patch_id2pos(k)) for k in sp.patch_id()}
                    ids = {(a, b) for a in patches(bu, u) for b in patches(bv, v)}
                    mon.ev('neighbours')
                    mon.need(got == ids and sorted(tuple(int(x) for x in k) for k in sp.iuv) == sorted(ids), 'patches',
                             'point {} of the patch {} reported on patches {} but lies on {}', (u, v), (i, j), got, ids)
                    mon.need(int(sp.surface_boundary_flag) == int(u in (0, 1) or v in (0, 1)), 'boundary', 'point {} boundary flag {}', (u, v), sp.surface_boundary_flag)
    if curve is None:
        return
    bc = kc[2:-2]
    for i in range(len(bc) - 1):
        for t in (bc[i], (bc[i] + bc[i + 1]) / 2, bc[i + 1]):
            got = sorted(int(x) for x in CP.CurvePoint(curve, i, t).it)
            mon.need(got == patches(bc, t), 'intervals', 'point {} of the interval {} reported on {} but lies on {}', t, i, got, patches(bc, t))


def match(mon, exp, skip, got, what):
    """got: (interval, t, u, v)"""
    for c in exp:
        n = sum(1 for g in got if max(abs(g[k] - c[k]) for k in (1, 2, 3)) < 1e-7)
        mon.ev('complete')
        mon.need(n == 1, 'missed' if n == 0 else 'repeated', '{}: crossing at t,u,v = {} reported {} times', what, c[1:], n)
    for g in got:
        if g[0] not in skip and min(abs(g[2]), abs(g[3]), abs(1 - g[2]), abs(1 - g[3])) > 1e-4:
            mon.need(any(max(abs(g[k] - c[k]) for k in (1, 2, 3)) < 1e-6 for c in exp), 'extra', '{}: reported crossing {} does not exist', what, g)


def parallel(r, mon):
    """a line parallel to a plane, boxes overlap: no intersections and no failure"""
    k = [[0, 0] + [i / n for i in range(n + 1)] + [1, 1] for n in r.integers(1, 5, 3).tolist()]
    U, V = np.meshgrid(greville(k[0]), greville(k[1]), indexing='ij')
    a, b = r.integers(-2, 3, 2)
    t = greville(k[2])
    p, q = r.integers(1, 8, 2) / 8
    x, y = t * p, t * q
    gap = r.choice([.125, -.25, .5])
    surf = bs.Surface((bs.SplineBasis(2, k[0]), bs.SplineBasis(2, k[1])), np.stack([U, V, a * U + b * V], axis=2))
    curve = bs.Curve(bs.SplineBasis(2, k[2]), np.stack([x, y, a * x + b * y + gap], axis=1))
    with contextlib.redirect_stdout(io.StringIO()):
        pts = ICS.IsecCurveSurf(surf, curve, abs_tol=TOL).get_intersections(surf, curve, surf.tree)
    mon.ev('parallel')
    mon.state('parallel', int(a), int(b), len(k[2]))
    mon.need(len(pts) == 0, 'parallel', '{} intersections of a line parallel to the plane', len(pts))


def dyadic(n):
    return [0., 0.] + [i / n for i in range(n + 1)] + [1., 1.]


def count_at_knot(mon, pts, exact, where, n, what):
    """a crossing exactly at a knot: found, and once for every patch of the surface it lies on (when found at the exact parameters)"""
    mon.ev('at knot')
    mon.need(len(pts) >= 1, 'missed', '{}: crossing at the knot {} not reported', what, where)
    if exact:
        mon.need(len(pts) <= n, 'repeated', '{}: crossing at the knot {} reported {} times, surface patches there: {}', what, where, len(pts), n)


def knot(r, mon):
    """straight or parabolic curve crossing a plane at a knot of the curve, perhaps also at the interface of patches; coordinates are exact"""
    n = int(r.choice([2, 4, 8]))
    m = [int(x) for x in r.choice([1, 2, 4], 2)]
    kc, ku, kv = dyadic(n), dyadic(m[0]), dyadic(m[1])
    U, V = np.meshgrid(greville(ku), greville(kv), indexing='ij')
    a, b = r.integers(-2, 3, 2) / 4
    surf = bs.Surface((bs.SplineBasis(2, ku), bs.SplineBasis(2, kv)), np.stack([U, V, a * U + b * V], axis=2))
    i0, i1 = [int(x) for x in r.integers(0, n + 1, 2)]
    t0, t1 = i0 / n, i1 / n
    if i1 < n and r.random() < .5:
        t1 += int(r.integers(1, 8)) / 8 / n
    x0, y0 = r.integers(1, 16, 2) / 16
    g = greville(kc)
    if min(abs(t0 - t1), abs(i1 / n - t0)) < 2.5 / n or r.random() < .3:
        # straight line
        ts = [t0]
        d = r.integers(-8, 9, 3) / 64
        h = (g - t0) * int(r.choice([-2, 1, 4])) / 8
    else:
        # parabola over a straight line with two crossings in distant intervals
        ts = [t0, t1]
        d = np.append(r.integers(-2, 3, 2) / 64, 0)
        k = np.array(kc)
        p, q = k[1:-2], k[2:-1]
        h = ((p - t0) * (q - t1) + (q - t0) * (p - t1)) / 2 * int(r.choice([-2, 1, 4])) / 8
    x, y = x0 + (g - t0) * d[0], y0 + (g - t0) * d[1]
    curve = bs.Curve(bs.SplineBasis(2, kc), np.stack([x, y, a * x + b * y + h], axis=1))
    with contextlib.redirect_stdout(io.StringIO()):
        pts = ICS.IsecCurveSurf(surf, curve, abs_tol=TOL).get_intersections(surf, curve, surf.tree)
    mon.state('knot', n, tuple(m), t0 in (0, 1), len(ts), len(pts))
    found = 0
    for t in ts:
        u, v = x0 + (t - t0) * d[0], y0 + (t - t0) * d[1]
        at = [p for p in pts if abs(p.curve_point.t - t) < 1e-9 and np.abs(p.surface_point.uv - [u, v]).max() < 1e-9]
        found += len(at)
        if 0 <= u <= 1 and 0 <= v <= 1:
            count_at_knot(mon, at, all(p.curve_point.t == t and tuple(p.surface_point.uv) == (u, v) for p in at), t, len(patches(ku[2:-2], u)) * len(patches(kv[2:-2], v)), 'curve/surface')
    mon.need(found == len(pts), 'extra', '{} points reported but {} at the crossings {}', len(pts), found, ts)


def vertex(r, mon):
    """main curves of a plane meet another plane in a vertex of the patches, where curves of both directions cross; coordinates are exact"""
    m = [int(x) for x in r.choice([1, 2, 4], 4)]
    ku, kv, kp, kq = [dyadic(q) for q in m]
    U, V = np.meshgrid(greville(ku), greville(kv), indexing='ij')
    P, Q = np.meshgrid(greville(kp), greville(kq), indexing='ij')
    x0, y0 = int(r.integers(0, m[0] + 1)) / m[0], int(r.integers(0, m[1] + 1)) / m[1]
    d = r.choice([-2, -1.5, -1, -.5, -.25, .25, .5, .75, 1, 1.75], 2)
    s, q = r.integers(1, 8, 2) / 8
    surf = bs.Surface((bs.SplineBasis(2, ku), bs.SplineBasis(2, kv)), np.stack([U, V, 0 * U], axis=2))
    other = bs.Surface((bs.SplineBasis(2, kp), bs.SplineBasis(2, kq)), np.stack([x0 + d[0] * (P - s), y0 + d[1] * (P - s) + (Q - q) * .25 * int(r.integers(-1, 2)), Q - q], axis=2))
    isec = ISS.IsecSurfSurf(surf, other, abs_tol=TOL)
    with contextlib.redirect_stdout(io.StringIO()):
        pts = isec.get_intersections(surf, other)
    pts = [p for p in pts if np.abs(p.xyz - [x0, y0, 0]).max() < 1e-9]
    mon.state('vertex', tuple(m), x0 in (0, 1), y0 in (0, 1), len(pts))
    exact = all(tuple(p.surface_point[0].uv) == (x0, y0) for p in pts)
    count_at_knot(mon, pts, exact, (x0, y0), len(patches(kp[2:-2], s)) * len(patches(kq[2:-2], q)), 'surface/surface')


def run(case, mon):
    r = np.random.default_rng(case['seed'])
    w, eq = case['w'], case.get('eq', True)
    R = np.linalg.qr(r.normal(size=(3, 3)))[0]
    move = r.normal(size=3)
    M, tol = (lambda P: P), TOL
    if case['kind'] == 'cs' and r.random() < .5:
        sc = r.choice([1, 1, 1e3, 1e-3])
        M, tol = (lambda P: (P @ R.T + move) * sc), TOL * sc
    ku, kv = [knots(r, n, eq) for n in case['ks'][0]]
    S = graph(r, ku, kv, w, .6)
    surf = bs.Surface((bs.SplineBasis(2, ku), bs.SplineBasis(2, kv)), M(S))
    sink = io.StringIO()
    if case['kind'] == 'par':
        parallel(r, mon)
        return
    if case['kind'] in ('knot', 'vertex'):
        (knot if case['kind'] == 'knot' else vertex)(r, mon)
        return
    if case['kind'] == 'cs':
        kc = knots(r, case['ks'][1][0], eq)
        n = len(kc) - 3
        C = np.column_stack([r.uniform(.05, .95, n), r.uniform(.05, .95, n), np.linspace(0, 1, n) + .1 * r.normal(size=n) if r.random() < .5 else r.uniform(-.2, 1.2, n)])
        curve = bs.Curve(bs.SplineBasis(2, kc), M(C))
        with contextlib.redirect_stdout(sink):
            pts = ICS.IsecCurveSurf(surf, curve, abs_tol=tol).get_intersections(surf, curve, surf.tree)
        neighbours(surf, curve, ku, kv, kc, mon)
        mon.ev('curve-surf')
        mon.state('cs', w, tuple(map(tuple, case['ks'])), len(pts))
        got = []
        for p in pts:
            mon.ev('points')
            t, uv = float(p.curve_point.t), p.surface_point.uv
            e = np.array([float(x) for x in bsref.curve_point(kc, 2, M(C).tolist(), t)])
            mon.need(np.abs(e - p.xyz).max() <= 10 * tol, 'point on curve', 'point {} but curve at {} is {}', p.xyz, t, e)
            mon.need(sorted(p.curve_point.it) == patches(kc[2:-2], t), 'intervals', 'curve point {} reported in intervals {}', t, p.curve_point.it)
            check_surface_point(mon, p.surface_point, ku, kv, M(S), p.xyz, tol)
            got.append((p.curve_point.it[0], t, float(uv[0]), float(uv[1])))
        if w < .1:
            exp, skip = crossings(kc, C, ku, kv, S)
            match(mon, exp, skip, got, 'curve/surface')
        return
    kp, kq = [knots(r, n, eq) for n in case['ks'][1]]
    if case['kind'] == 'full':
        S = np.stack([S[:, :, 0], S[:, :, 1], .5 + 0 * S[:, :, 2]], axis=2)
        surf = bs.Surface((bs.SplineBasis(2, ku), bs.SplineBasis(2, kv)), S)
    # a steep surface across, x of the second one within the domain of the first one
    T0 = graph(r, kp, kq, case['w'], .2)
    T = np.stack([.1 + .8 * T0[:, :, 0], .2 + .6 * T0[:, :, 2], 1.6 * T0[:, :, 1] - .3], axis=2)
    other = bs.Surface((bs.SplineBasis(2, kp), bs.SplineBasis(2, kq)), T)
    isec = ISS.IsecSurfSurf(surf, other, abs_tol=TOL)
    if case['kind'] == 'full':
        try:
            with contextlib.redirect_stdout(sink):
                isec.get_intersection()
        except TypeError as e:
            raise Violation('get_intersection TypeError', 'connecting of intersection points fails: {}'.format(e))
        return
    mon.ev('surf-surf')
    for a, b, (ka, kb, A), (kc, kd, B) in ((surf, other, (ku, kv, S), (kp, kq, T)), (other, surf, (kp, kq, T), (ku, kv, S))):
        with contextlib.redirect_stdout(sink):
            pts = isec.get_intersections(a, b)
        mon.state('ss', w, tuple(map(tuple, case['ks'])), len(pts))
        threads = {}
        for p in pts:
            mon.ev('points')
            pa, pb = p.surface_point
            mon.need(pa.surf is a and pb.surf is b, 'point surfaces', 'points refer to other surfaces')
            check_surface_point(mon, pa, ka, kb, A, p.xyz)
            check_surface_point(mon, pb, kc, kd, B, p.xyz)
            u, v = float(pa.uv[0]), float(pa.uv[1])
            on_u, on_v = u in ka, v in kb
            mon.need(on_u or on_v, 'thread', 'point {} is not on a main curve', (u, v))
            g = (float(pb.uv[0]), float(pb.uv[1]))
            if on_u:
                threads.setdefault((0, u), []).append((patches(kb[2:-2], v)[0], v) + g)
            if on_v:
                threads.setdefault((1, v), []).append((patches(ka[2:-2], u)[0], u) + g)
        if b is surf and w < .1:
            for axis, kf, kt in ((0, ka, kb), (1, kb, ka)):
                for x in kf[2:-2]:
                    Bm = BSpline.design_matrix(np.array([x]), np.array(kf), 2).toarray()[0]
                    Cp = np.tensordot(Bm, A, axes=([0], [axis]))
                    exp, skip = crossings(kt, Cp, kc, kd, B)
                    match(mon, exp, skip, threads.get((axis, x), []), 'thread {} of axis {}'.format(x, axis))
