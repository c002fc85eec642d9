"""B04: Z surfaces: histories of transforms, copies and baking against a model; XY <-> UV maps, evaluation variants, box and full surface agree."""
import random
import numpy as np
from vlib import bsref
from vlib.core import Violation
from bgem.bspline import bspline as bs

LEVEL = 'exploration'
RULE = ('One execution = a Z surface (linear, triangle or bilinear quad; degrees 1-3) and a history of XY/Z transforms, baking of the Z transform and copies, over a family '
        'of surfaces sharing poles; after every step every member of the family is compared in all evaluation variants with a model holding only the last transforms. '
        'Distinct = (operation sequence, quad kind).')
ASSUMPTIONS = ['parameters in the unit square, non-rational Z surface', 'inverse map only for linear quads (not implemented for bilinear)']
REQUIRED = {'transforms': 800, 'copies': 200, 'baked': 150, 'points': 10000, 'inverse': 3000, 'full surface': 500, 'bilinear': 40, 'negative scale': 50}


def cases(tier, rng):
    out = []
    for _ in range(400 if tier == 'quick' else 5000):
        degs = [rng.choice([1, 2, 2, 3]) for _ in range(2)]
        ks = [bsref.gen_knots(rng, d, 4, unit=True) for d in degs]
        # unit range
        kn = []
        for k, m, br in ks:
            b = [(x - br[0]) / (br[-1] - br[0]) for x in br]
            b[-1] = 1.
            kn.append([x for x, mm in zip(b, m) for _ in range(mm)])
        kind = rng.choice(['three', 'four', 'four', 'bilinear'])
        sc = rng.choice([1, 1, 10., 1e3])
        far = rng.choice([1, 1, 1, 1e3, 1e5])       # map coordinates
        o = [rng.uniform(-2, 2) * sc * far for _ in range(2)]
        while True:
            u, v = ([rng.uniform(-1, 1) * sc for _ in range(2)] for _ in range(2))
            if abs(u[0] * v[1] - u[1] * v[0]) > .1 * sc * sc:
                break
        q = [[o[0] + v[0], o[1] + v[1]], o, [o[0] + u[0], o[1] + u[1]]]
        if kind != 'three':
            q.append([o[0] + u[0] + v[0], o[1] + u[1] + v[1]])
        if kind == 'bilinear':
            q[3] = [q[3][0] + .3 * (u[0] + v[0]) * rng.uniform(.2, 1), q[3][1] + .3 * (u[1] + v[1]) * rng.uniform(.2, 1)]
        ops = []
        for _ in range(rng.randint(2, 8)):
            r = rng.random()
            w = rng.random()
            if r < .6:
                xy = None
                while xy is None and rng.random() < .75:
                    M = [[rng.choice([1, 0, 2, -1, rng.uniform(-2, 2)]) for _ in range(2)] + [rng.uniform(-3, 3) * sc] for _ in range(2)]
                    if abs(M[0][0] * M[1][1] - M[0][1] * M[1][0]) > .2:
                        xy = M
                z = [rng.choice([1, 2, -1.5, .3, 1.]), rng.choice([0, 1, -7.25])] if rng.random() < .65 else None
                ops.append(['t', w, xy, z, rng.random() < .5])
            elif r < .8:
                ops.append(['copy', w])
            elif r < .95:
                ops.append(['bake', w])
            else:
                ops.append(['touch', w])
        out.append({'deg': degs, 'knots': kn, 'quad': q, 'kind': kind, 'poles': bsref.gen_poles(rng, [len(k) - d - 1 for k, d in zip(kn, degs)], 1, False, True),
                    'ops': ops, 'seed': rng.randrange(10 ** 9), 'qlist': rng.random() < .5})
    return out


class Model:
    """original quad, base Z (affine function of the original spline), last transforms"""

    def __init__(self, quad, spl):
        q = [np.array(p, dtype=float) for p in quad]
        if len(q) == 3:
            q.append(q[0] + q[2] - q[1])
        self.q = q
        self.spl = spl
        self.base = (1., 0.)
        self.xy = np.array([[1., 0, 0], [0, 1, 0]])
        self.z = (1., 0.)

    def copy(self):
        m = Model(self.q, self.spl)
        m.base, m.xy, m.z = self.base, self.xy, self.z
        return m

    def xy0(self, u, v):
        q = self.q
        return (1 - u) * v * q[0] + (1 - u) * (1 - v) * q[1] + u * (1 - v) * q[2] + u * v * q[3]

    def XY(self, u, v):
        c = self.xy0(.5, .5)
        return self.xy[:, :2] @ (self.xy0(u, v) - c) + c + self.xy[:, 2]

    def baseZ(self, u, v):
        return self.base[0] * self.spl(u, v) + self.base[1]

    def Zmat(self):
        c = self.baseZ(.5, .5)
        return self.z[0], self.z[1] + (1 - self.z[0]) * c

    def Z(self, u, v):
        s, t = self.Zmat()
        return s * self.baseZ(u, v) + t

    def bake(self):
        s, t = self.Zmat()
        self.base = (s * self.base[0], s * self.base[1] + t)
        self.z = (1., 0.)


def close(a, b, sc):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.all(np.abs(a - b) <= 1e-9 * sc)


def check(s, m, case, mon, rng, tag):
    UV = np.array([[0, 0], [1, 0], [0, 1], [1, 1], [.5, .5]] + [[rng.random(), rng.random()] for _ in range(4)], dtype=float)
    XY = np.array([m.XY(u, v) for u, v in UV])
    Z = np.array([m.Z(u, v) for u, v in UV])
    XYZ = np.column_stack([XY, Z])
    sxy = np.max(np.abs(m.q)) + np.max(np.abs(XY)) + 1
    sz = np.max(np.abs(case['poles'])) * (abs(m.base[0]) + 1) * (abs(m.z[0]) + 1) + abs(m.z[1]) + abs(m.base[1]) + 1
    S = np.array([sxy, sxy, sz])
    keep = UV.copy()

    def need(got, want, sc, what):
        mon.need(close(got, want, sc), what, '{}: {} gives {} expected {}', tag, what, np.asarray(got).tolist(), np.asarray(want).tolist())
    mon.ev('points', len(UV))
    need(s.eval_array(UV), XYZ, S, 'eval_array')
    need([s.eval(u, v) for u, v in UV], XYZ, S, 'eval')
    need(s.z_eval_array(UV), Z, sz, 'z_eval_array')
    need(s.center(), XYZ[4], S, 'center')
    need(s.uv_to_xy(UV), XY, sxy, 'uv_to_xy')
    need(s.quad, [m.XY(0, 1), m.XY(0, 0), m.XY(1, 0), m.XY(1, 1)], sxy, 'quad')
    xm, zm = s.get_transform()
    need(xm, m.xy, sxy, 'get_transform')
    need(zm, m.z, 1, 'get_transform')
    mon.need(s.dim == 3, 'dim', 'dim {}', s.dim)
    if case['kind'] != 'bilinear':
        cond = 1e3
        uv = s.xy_to_uv(XY)
        need(uv, UV, cond * sxy / (1e-9 + np.linalg.norm(XY[0] - XY[3])), 'xy_to_uv')
        inner = [i for i in range(len(UV)) if .001 < UV[i][0] < .999 and .001 < UV[i][1] < .999]
        mon.ev('inverse', len(inner))
        need(s.eval_xy_array(XY[inner]), XYZ[inner], 1e3 * S, 'eval_xy_array')
        need(s.z_eval_xy_array(XY[inner]), Z[inner], 1e3 * sz, 'z_eval_xy_array')
    box = s.aabb()
    mon.need(np.all(box[0] <= XYZ.min(axis=0) + 1e-9 * S) and np.all(box[1] >= XYZ.max(axis=0) - 1e-9 * S), 'aabb', '{}: box {} does not contain {}', tag, box.tolist(), XYZ.tolist())
    mon.need(close(box[0][:2], XY[:4].min(axis=0), sxy) and close(box[1][:2], XY[:4].max(axis=0), sxy), 'aabb', '{}: XY box {} of quad {}', tag, box.tolist(), XY[:4].tolist())
    if rng.random() < .5:
        f = s.make_full_surface()
        mon.ev('full surface')
        need(f.eval_array(UV), XYZ, S, 'full surface')
        f.poles += 1.0
        need(s.eval_array(UV), XYZ, S, 'eval_array')
    mon.need(np.array_equal(UV, keep), 'input changed', 'evaluation changes the passed array')


def run(case, mon):
    rng = random.Random(case['seed'])
    degs, ks, P = case['deg'], case['knots'], case['poles']
    spl = lambda u, v: float(bsref.surface_point(ks[0], degs[0], ks[1], degs[1], P, u, v)[0])
    B = [bs.SplineBasis(d, k) for d, k in zip(degs, ks)]
    zs = bs.Surface(B, np.array(P))
    quad = case['quad'] if case['qlist'] else np.array(case['quad'])
    qkeep = np.array(quad)
    fam = [(bs.Z_Surface(quad, zs), Model(case['quad'], spl))]
    if case['kind'] == 'bilinear':
        mon.ev('bilinear')
    check(*fam[0], case, mon, rng, 'new surface')
    hist = []
    for op in case['ops']:
        i = min(int(op[1] * len(fam)), len(fam) - 1)
        s, m = fam[i]
        if op[0] == 't':
            xy, z = op[2], op[3]
            a = xy if op[4] or xy is None else np.array(xy)
            s.transform(a, z if op[4] or z is None else np.array(z))
            if xy is not None:
                m.xy = np.array(xy, dtype=float)
                if not op[4]:
                    mon.need(np.array_equal(a, np.array(xy)), 'input changed', 'transform changes the passed matrix')
            if z is not None:
                m.z = tuple(z)
                if z[0] < 0:
                    mon.ev('negative scale')
            mon.ev('transforms')
        elif op[0] == 'copy':
            if len(fam) >= 4:
                continue
            fam.append((s.get_copy(), m.copy()))
            mon.ev('copies')
        elif op[0] == 'bake':
            s.apply_z_transform()
            m.bake()
            mon.ev('baked')
        hist.append((op[0], i))
        for j, (s2, m2) in enumerate(fam):
            check(s2, m2, case, mon, rng, 'surface %d after %s' % (j, hist))
    mon.need(np.array_equal(np.array(quad), qkeep), 'input changed', 'the passed quad was changed')
    mon.need(np.array_equal(zs.poles, np.array(P)), 'input changed', 'poles of the shared surface were changed')
    mon.state(case['kind'], [(h, i) for h, i in hist])
