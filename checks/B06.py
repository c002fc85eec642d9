"""B06: surface approximation solves its regularized weighted least squares problem; reported error, quad and point selection are right."""
import os
import random
import numpy as np
import scipy.interpolate as si
from vlib.core import Violation
from bgem.bspline import bspline as bs, bspline_approx as ba

LEVEL = 'exploration'
RULE = ('One execution = one point cloud (weighted or not, partly outside of the quad, from an array, a file or a grid surface) approximated with given or default quad, '
        'numbers of intervals and regularization; the result is compared with independently assembled normal equations (scipy B-splines, exact Gauss quadrature), '
        'the reported error with the maximal residual, quadratic functions with exact reproduction. Distinct = (source, weights, numbers of intervals, regularization).')
ASSUMPTIONS = ['the scale of the regularization is a ratio of norms computed iteratively with relative tolerance 1e-2: 8 % is allowed', 'parallelogram quads']
REQUIRED = {'approximations': 200, 'weighted': 60, 'reproduced': 30, 'default quad': 40, 'points outside': 200, 'from grid': 20, 'from file': 10, 'default nuv': 30}


def cases(tier, rng):
    out = []
    for k in range(320 if tier == 'quick' else 4000):
        kind = rng.choice(['cloud', 'cloud', 'cloud', 'cloud', 'quadratic', 'quadratic', 'grid', 'file'])
        c = {'kind': kind, 'n': rng.choice([60, 120, 300]), 'seed': rng.randrange(10 ** 9), 'weights': rng.random() < .4 and kind != 'grid',
             'nuv': None if rng.random() < .15 else [rng.randint(1, 6), rng.randint(1, 6)], 'reg': rng.choice([None, 1e-3, .1, 1e-6, 3.]),
             'quad': rng.choice(['unit', 'para', 'para', 'default', 'list']), 'smooth': rng.random() < .5, 'set': rng.random() < .5}
        if kind == 'quadratic':
            c['reg'] = 0.
        out.append(c)
    return out


def nmat(n, pts):
    """values of the quadratic B-splines with n equal intervals on [0,1] in pts, and Gauss nodes version"""
    t = np.concatenate([[0., 0.], np.linspace(0, 1, n + 1), [1., 1.]])
    t[-3:] = 1.
    I = np.eye(n + 2)
    f = [si.BSpline(t, I[i], 2) for i in range(n + 2)]
    return t, f, np.array([g(pts) for g in f]).T


def reg_matrices(n):
    t, f, _ = nmat(n, np.array([.5]))
    x, w = np.polynomial.legendre.leggauss(4)
    br = np.linspace(0, 1, n + 1)
    q = np.concatenate([(a + b) / 2 + (b - a) / 2 * x for a, b in zip(br[:-1], br[1:])])
    W = np.concatenate([(b - a) / 2 * w for a, b in zip(br[:-1], br[1:])])
    V = np.array([g(q) for g in f])
    D = np.array([g.derivative()(q) for g in f])
    return (V * W) @ V.T, (D * W) @ D.T


def run(case, mon):
    r = np.random.default_rng(case['seed'])
    np.random.seed(case['seed'] % 2 ** 31)
    far = r.choice([0, 1, 10, 1e3, 1e5]) if case['quad'] != 'default' and case['kind'] != 'grid' else r.choice([0, 1, 10])
    o = r.normal(size=2) * far
    while True:
        u, v = r.normal(size=2), r.normal(size=2)
        if abs(u[0] * v[1] - u[1] * v[0]) > .3 * np.linalg.norm(u) * np.linalg.norm(v) and .3 < np.linalg.norm(u) / np.linalg.norm(v) < 3:
            break
    qk = case['quad']
    sc = r.choice([1, 1, 1e-2, 1e3])        # map coordinates, small units
    o, u, v = o * sc, u * sc, v * sc
    if qk == 'unit':
        o, u, v = np.zeros(2), np.array([1., 0]), np.array([0, 1.])
    Q = np.array([o + v, o, o + u, o + u + v])
    n = case['n']
    if case['kind'] == 'grid':
        nu, nv = r.integers(4, 12, 2)
        P = np.array([list(o + u * i / (nu - 1) + v * j / (nv - 1)) + [np.sin(3 * i / nu) * np.cos(2 * j / nv) + .1 * r.normal()] for i in range(nu) for j in range(nv)])
        gs = bs.GridSurface(P)
        if r.random() < .5:
            gs.transform(np.array([[1., .5, 2], [0, 2, -1]]), [2., 1.])
        pu, pv = np.meshgrid(np.linspace(0, 1, nu), np.linspace(0, 1, nv), indexing='ij')
        uv = np.column_stack([pu.ravel(), pv.ravel()])
        data = gs.eval_array(uv)
        Q = np.array(gs.quad)
        nuv = case['nuv']
        if nuv is None:
            nuv = [2, 3]
        s = ba.surface_from_grid(gs, np.array(nuv))
        a = None
        W = None
        mon.ev('from grid')
        reg = .001
    else:
        lo, hi = (-.15, 1.15) if qk != 'default' else (0., 1.)
        uv = r.uniform(lo, hi, size=(n, 2))
        if far < 1e3:       # points on the border (roundoff of far coordinates is decided neither way)
            uv[:6] = [[0, 0], [1, 0], [0, 1], [1, 1], [.5, 0], [1, .3]]
        if case['kind'] == 'quadratic':
            c = r.normal(size=6)
            z = c[0] + c[1] * uv[:, 0] + c[2] * uv[:, 1] + c[3] * uv[:, 0] ** 2 + c[4] * uv[:, 0] * uv[:, 1] + c[5] * (uv[:, 0] * uv[:, 1]) ** 2
        elif case['smooth']:
            z = np.sin(4 * uv[:, 0]) * np.cos(4 * uv[:, 1]) + 5
        else:
            z = r.normal(size=n) * 10
        W = r.uniform(.1, 3, size=n) if case['weights'] else None
        data = np.column_stack([o + uv[:, :1] * u + uv[:, 1:] * v, z] + ([W] if W is not None else []))
        keep = data.copy()
        if case['kind'] == 'file':
            path = os.path.join(os.environ.get('VERIF_SCRATCH', '/tmp'), 'pts%d.txt' % os.getpid())
            np.savetxt(path, data, fmt='%.17g', delimiter=' ')
            a = ba.SurfaceApprox.approx_from_file(path)
            os.remove(path)
            mon.ev('from file')
        else:
            a = ba.SurfaceApprox(data)
        kw = {}
        if case['reg'] is not None:
            kw['regularization_weight'] = case['reg']
        reg = .001 if case['reg'] is None else case['reg']
        if qk == 'default':
            Q = a.compute_default_quad() if case['set'] else None
            mon.ev('default quad')
        elif qk == 'unit' and case['set']:
            a.set_quad(None)
        elif qk == 'list':
            kw['quad'] = [list(p) for p in Q]
        elif case['set']:
            a.set_quad(Q)
        else:
            kw['quad'] = Q
        nuv = case['nuv']
        if case['kind'] == 'quadratic' and nuv is not None:
            nuv = [min(x, 3) for x in nuv]
        if nuv is None:
            mon.ev('default nuv')
        else:
            kw['nuv'] = np.array(nuv) if case['set'] else tuple(nuv)
        try:
            s = a.compute_approximation(**kw)
        except AssertionError as e:
            if reg == 0 and 'ingular' in str(e):
                mon.ev('undetermined')
                return
            raise
        mon.need(np.array_equal(data, keep), 'input changed', 'points passed to the approximation were changed')
        if Q is None:
            Q = np.array(a.quad)
        if nuv is None:
            nuv = [int(x) for x in a.nuv]
            mon.need(min(nuv) >= 1, 'default nuv', 'default number of intervals {}', nuv)
        if qk == 'default':
            d = Q - Q[1]
            L = np.column_stack([d[2], d[0]])
            st = np.linalg.solve(L, (data[:, :2] - Q[1]).T).T
            mon.need(st.min() > -1e-9 and st.max() < 1 + 1e-9, 'default quad', 'default quad {} does not contain the points', Q.tolist())
            mon.need(abs(d[0] @ d[2]) <= 1e-9 * np.linalg.norm(d[0]) * np.linalg.norm(d[2]), 'default quad', 'default quad {} is not a rectangle', Q.tolist())
    mon.ev('approximations')
    if W is not None:
        mon.ev('weighted')
    mon.state(case['kind'], W is not None, nuv, reg, qk)
    mon.need(np.allclose(np.asarray(s.quad)[:3], Q[:3], rtol=1e-12, atol=1e-12 * np.abs(Q).max()), 'quad', 'surface quad {} expected {}', np.asarray(s.quad).tolist(), Q.tolist())
    zs = s.z_surface
    mon.need([zs.u_basis.n_intervals, zs.v_basis.n_intervals] == list(nuv) and zs.u_basis.degree == 2 and zs.v_basis.degree == 2, 'nuv',
             'intervals {} {} expected {}', zs.u_basis.n_intervals, zs.v_basis.n_intervals, nuv)
    # independent normal equations
    L = np.column_stack([Q[2] - Q[1], Q[0] - Q[1]])
    st = np.linalg.solve(L, (data[:, :2] - Q[1]).T).T
    # points out of the quad by rounding only belong to it
    sel = np.all((st >= -2e-11) & (st <= 1 + 2e-11), axis=1)
    mon.ev('points outside', int((~sel).sum()))
    mon.ev('border points', int((sel & np.any((np.abs(st) < 1e-11) | (np.abs(st - 1) < 1e-11), axis=1)).sum()))
    res = solve_check(st, data, W, sel, nuv, reg, zs)
    if res is not None:
        raise Violation(*res)
    if not sel.any():
        return
    uvs = np.clip(st[sel], 0, 1)
    zz = np.array([zs.eval(*p)[0] for p in uvs])
    diff = zz - data[sel, 2]
    scale = np.abs(data[:, 2]).max()
    if a is not None:
        mon.need(abs(a.error - np.abs(diff).max()) <= 1e-7 * scale + 1e-9 * np.abs(zs.poles).max(), 'error', 'reported error {} but maximal residual {} (min {} max {})', a.error, np.abs(diff).max(), diff.min(), diff.max())
        mon.need(a.surface is s, 'error', 'result not stored')
    XYZ = s.eval_array(uvs)
    mon.need(np.all(np.abs(XYZ[:, :2] - data[sel][:, :2]) <= 1e-9 * (np.abs(data[:, :2]).max() + 1)), 'surface', 'surface does not pass over the points in XY')
    mon.need(np.allclose(XYZ[:, 2], zz, atol=1e-9 * scale), 'surface', 'Z of the surface differs from its Z spline')
    if case['kind'] == 'quadratic' and qk != 'default' and sel.sum() >= 2 * (nuv[0] + 2) * (nuv[1] + 2):
        B = design(uvs, nuv)
        sv = np.linalg.svd(B, compute_uv=False)
        if sv[-1] > 1e-3 * sv[0]:
            mon.ev('reproduced')
            mon.need(np.abs(diff).max() <= 1e-6 * scale, 'reproduction', 'data of a spline of the same kind are not reproduced, residual {}', np.abs(diff).max())


def design(uvs, nuv):
    bu, bv = nmat(nuv[0], uvs[:, 0])[2], nmat(nuv[1], uvs[:, 1])[2]
    return np.einsum('pi,pj->pij', bu, bv).reshape(len(uvs), -1)


def solve_check(st, data, W, sel, nuv, reg, zs):
    B = design(np.clip(st[sel], 0, 1), nuv)
    g = data[sel, 2]
    w = W[sel] if W is not None else np.ones(len(g))
    poles = zs.poles[:, :, 0].ravel()           # i over u, j over v
    BB = (B.T * w) @ B
    rhs = (B.T * w) @ g
    Mu, Ku = reg_matrices(nuv[0])
    Mv, Kv = reg_matrices(nuv[1])
    # the sum over patches is weighted by one factor for both directions: u and v derivatives in unit parameters
    A = np.kron(Ku, Mv) + np.kron(Mu, Kv)
    lhs = rhs - BB @ poles
    ap = A @ poles
    want = reg * np.linalg.norm(BB, 2) / np.linalg.norm(A, 2)
    s0 = np.abs(BB).max() * np.abs(poles).max() + np.abs(rhs).max()
    if reg == 0:
        if np.abs(lhs).max() > 1e-8 * s0:
            return 'least squares', 'normal equations violated by %g (scale %g)' % (np.abs(lhs).max(), s0)
        return None
    lam = (lhs @ ap) / (ap @ ap) if ap @ ap > 0 else want
    err = np.abs(lhs - lam * ap).max()
    if err > 1e-7 * (s0 + want * np.abs(ap).max()):
        return 'least squares', 'residual of the normal equations %g is not a multiple of the regularization term (scale %g)' % (err, s0)
    if np.abs(want * ap).max() > 1e-6 * s0 and not .92 * want <= lam <= 1.08 * want:
        return 'regularization', 'regularization factor %g expected %g' % (lam, want)
    return None
