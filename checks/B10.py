"""B10: BREP writer: the written text, read back by an independent reader (and by OpenCASCADE), describes exactly the model that was built."""
import io
import os
import random
from fractions import Fraction as Fr
import numpy as np
from vlib import bsref
from vlib.core import Violation
from bgem.bspline import brep_writer as bw, bspline as bs

LEVEL = 'exploration'
RULE = ('One execution = one model (bricks sharing vertices/edges/faces, triangulated terrain, curved faces with explicit curves, free mixtures of shapes with locations, orientations, flags) '
        'built through the public constructors and written several times (also after repr, and after other models sharing its shapes were written); the text is read by an independent parser and compared with the model; '
        'part of the models is loaded by OpenCASCADE (counts, volumes, areas, box). Distinct = (kind, numbers of shapes, curves, surfaces, locations).')
ASSUMPTIONS = ['composed location means the product used by OpenCASCADE: the last listed location is applied last',
               'numbers must read back as exactly the given floats', 'implicit surfaces for faces of 3 or 4 edges only']
REQUIRED = {'models': 150, 'texts': 600, 'shapes': 3000, 'references': 6000, 'curve ends': 3000, 'occ models': 20, 'occ solids': 20, 'locations': 100, 'rejected': 20, 'attached': 20}
IDENT = [[1., 0, 0, 0], [0, 1., 0, 0], [0, 0, 1., 0], [0, 0, 0, 1.]]


def cases(tier, rng):
    out = []
    for _ in range(500 if tier == "quick" else 6000):
        out.append({'kind': rng.choice(['bricks', 'bricks', 'terrain', 'curved', 'free', 'free', 'reject']), 'n': [rng.randint(1, 3) for _ in range(3)],
                    'affine': rng.random() < .6, 'occ': rng.random() < .3, 'seed': rng.randrange(10 ** 9)})
    return out


# ---------------------------------------------------------------- independent reader

class Reader:
    def __init__(self, text):
        self.tok = text.split()
        self.i = 0
        lines = text.splitlines()
        if lines[0] != 'DBRep_DrawableShape' or 'CASCADE Topology V1, (c) Matra-Datavision' not in lines[:4]:
            raise Violation('header', 'header {}'.format(lines[:4]))
        self.i = self.tok.index('(c)') + 2
        self.locs = [self.location(k) for k in range(self.count('Locations'))]
        self.c2 = [self.curve(2) for _ in range(self.count('Curve2ds'))]
        self.c3 = [self.curve(3) for _ in range(self.count('Curves'))]
        self.want('Polygon3D', '0', 'PolygonOnTriangulations', '0')
        self.surf = [self.surface() for _ in range(self.count('Surfaces'))]
        self.want('Triangulations', '0')
        n = self.count('TShapes')
        self.shapes = [self.shape(k, n) for k in range(n)]
        self.root = self.ref(n, n)
        if self.root is None or self.i != len(self.tok):
            raise Violation('trailer', 'unexpected end of the file {}'.format(self.tok[-4:]))

    def next(self):
        if self.i >= len(self.tok):
            raise Violation('truncated', 'text ends early')
        self.i += 1
        return self.tok[self.i - 1]

    def want(self, *words):
        for w in words:
            t = self.next()
            if t != w:
                raise Violation('format', 'expected {} found {}'.format(w, t))

    def int(self):
        t = self.next()
        try:
            return int(t)
        except ValueError:
            raise Violation('format', 'expected an integer, found {}'.format(t))

    def num(self):
        t = self.next()
        try:
            return float(t)
        except ValueError:
            raise Violation('format', 'expected a number, found {}'.format(t))

    def count(self, word):
        self.want(word)
        return self.int()

    def index(self, n, zero=False):
        k = self.int()
        if not (0 if zero else 1) <= k <= n:
            raise Violation('reference', 'reference {} out of 1..{}'.format(k, n))
        return k

    def location(self, k):
        t = self.int()
        if t == 1:
            return ('mat', tuple(self.num() for _ in range(12)))
        out = []
        while True:
            l = self.index(k, zero=True)           # only locations already defined
            if l == 0:
                return ('prod', tuple(out))
            out.append((l, self.int()))

    def curve(self, dim):
        self.want('7')
        rat, per, deg, n, nk = [self.int() for _ in range(5)]
        if per:
            raise Violation('format', 'periodic curve')
        poles = tuple(tuple(self.num() for _ in range(dim + rat)) for _ in range(n))
        return (rat, deg, poles, tuple((self.num(), self.int()) for _ in range(nk)))

    def surface(self):
        self.want('9')
        ru, rv, pu, pv, du, dv, nu, nv, ku, kv = [self.int() for _ in range(10)]
        if ru != rv or pu or pv:
            raise Violation('format', 'surface flags {}'.format((ru, rv, pu, pv)))
        poles = tuple(tuple(tuple(self.num() for _ in range(3 + ru)) for _ in range(nv)) for _ in range(nu))
        return (ru, (du, dv), poles, tuple((self.num(), self.int()) for _ in range(ku)), tuple((self.num(), self.int()) for _ in range(kv)))

    def ref(self, k, n):
        """reference to a shape written before the k-th one"""
        t = self.next()
        if t == '*':
            return None
        if t[0] not in '+-ie':
            raise Violation('format', 'orientation {}'.format(t))
        pos = n - int(t[1:])
        if not 0 <= pos < k:
            raise Violation('reference', 'shape {} refers to {} (position {}) not written yet'.format(k, t, pos))
        return (t[0], pos, self.index(len(self.locs), zero=True))

    def shape(self, k, n):
        s = {'type': self.next()}
        if s['type'] == 'Ve':
            s['tol'] = self.num()
            s['pt'] = tuple(self.num() for _ in range(3))
            self.want('0', '0')
        elif s['type'] == 'Ed':
            s['tol'] = self.num()
            s['flags3'] = tuple(self.int() for _ in range(3))
            s['repr'] = []
            while True:
                t = self.int()
                if t == 0:
                    break
                if t == 1:
                    s['repr'].append((1, self.index(len(self.c3)), self.index(len(self.locs), True), self.num(), self.num()))
                elif t == 2:
                    s['repr'].append((2, self.index(len(self.c2)), self.index(len(self.surf)), self.index(len(self.locs), True), self.num(), self.num()))
                else:
                    raise Violation('format', 'edge representation {}'.format(t))
        elif s['type'] == 'Fa':
            s['restr'] = self.int()
            s['tol'] = self.num()
            s['surf'] = self.index(len(self.surf))
            s['loc'] = self.index(len(self.locs), True)
        elif s['type'] not in ('Wi', 'Sh', 'So', 'Cs', 'Co'):
            raise Violation('format', 'shape type {}'.format(s['type']))
        f = self.next()
        if len(f) != 7 or set(f) - set('01'):
            raise Violation('format', 'flags {}'.format(f))
        s['flags'] = f
        s['ch'] = []
        while True:
            r = self.ref(k, n)
            if r is None:
                return s
            s['ch'].append(r)


# ---------------------------------------------------------------- model built together with its description

ORI = {1: '+', 2: '-', 3: 'i', 4: 'e'}


class Model:
    """every object is (bw object, description)"""

    def __init__(self, rng):
        self.rng = rng
        self.keep = []

    def reg(self, obj, **d):
        d['obj'] = obj
        self.keep.append(obj)
        return d

    def loc(self, depth=0, rigid=False):
        r = self.rng
        if r.random() < .25 and not rigid:
            return self.reg(bw.Location(), kind='id')
        if depth < 2 and r.random() < .3:
            parts = [(self.loc(depth + 1, rigid), r.choice([1, 1, 2, -1, 3])) for _ in range(r.randint(1, 3))]
            return self.reg(bw.ComposedLocation([(p['obj'], k) for p, k in parts]), kind='prod', parts=parts)
        if rigid:
            a = r.uniform(0, 6)
            c, s = float(np.cos(a)), float(np.sin(a))
            o = r.sample(range(3), 3)
            M = [[0.] * 4 for _ in range(3)]
            sign = float(np.linalg.det(np.eye(3)[o]))
            for i, row in enumerate([[c, -s, 0.], [s, c, 0.], [0., 0., sign]]):
                for j in range(3):
                    M[o[i]][j] = row[j]
                M[o[i]][3] = r.choice([0., r.uniform(-5, 5)])
        else:
            M = [[self.num() for _ in range(4)] for _ in range(3)]
        return self.reg(bw.Location(M), kind='mat', mat=tuple(float(x) for row in M for x in row))

    def num(self):
        r = self.rng
        return r.choice([r.uniform(-1, 1), r.uniform(-1, 1), float(r.randint(-5, 5)), r.randint(-5, 5), 1e-300 * r.random(), 1e22 * r.random(), .1 + .2, -0.0, 1 / 3, 1e5 + 1e-9, np.float64(r.random())])

    def vertex(self, p, tol=None):
        kw = {} if tol is None else {'tolerance': tol}
        return self.reg(bw.Vertex(p, **kw), type='Ve', pt=tuple(float(x) for x in p), tol=1e-3 if tol is None else tol, ch=[])

    def edge(self, a, b, tol=None):
        kw = {} if tol is None else {'tolerance': tol}
        A, B = (a['obj'], b['obj']) if self.rng.random() < .6 else (a['obj'].m(), b['obj'].p())
        return self.reg(bw.Edge([A, B], **kw), type='Ed', tol=1e-3 if tol is None else tol, ch=[(a, 1, None), (b, 2, None)], repr=[])

    def ref(self, d, o, loc=None):
        """argument for a constructor: naked shape, .p() .m() .i() .e() or a ShapeRef"""
        x = d['obj']
        if loc is not None:
            return bw.ShapeRef(x, bw.Orient(o), loc['obj'])
        if o == 1 and self.rng.random() < .5:
            return x
        return [x.p, x.m, x.i, x.e][o - 1]() if self.rng.random() < .7 else bw.ShapeRef(x, bw.Orient(o))

    def shape(self, cls, ch, **kw):
        """cls by the short name, ch list of (desc, orient, loc)"""
        C = {'Wi': bw.Wire, 'Sh': bw.Shell, 'So': bw.Solid, 'Cs': bw.CompoundSolid, 'Co': bw.Compound}[cls]
        args = [self.ref(*c) for c in ch]
        if self.rng.random() < .2 and args:
            obj = C(args[:1])
            for a in args[1:]:
                obj.append(a)
            if cls == 'Wi':
                obj = C(args)
        else:
            obj = C(args)
        d = self.reg(obj, type=cls, ch=list(ch), **kw)
        if cls == 'Wi':
            par = {}
            for e, _, _ in ch:
                for v, _, _ in e['ch']:
                    par[id(v)] = par.get(id(v), 0) + 1
            d['closed'] = all(k % 2 == 0 for k in par.values())
        return d

    def face(self, edges, surface=None, loc=None, tol=None):
        """edges list of (desc, orient), closed loop"""
        kw = {} if tol is None else {'tolerance': tol}
        if surface is not None:
            kw['surface'] = surface['obj']
        if loc is not None:
            kw['location'] = loc['obj']
        if self.rng.random() < .5:
            f = bw.Face([self.ref(e, o) for e, o in edges], **kw)
            w = self.reg(f.subshapes()[0], type='Wi', ch=[(e, o, None) for e, o in edges], closed=True)
            ch = [(w, 1, None)]
        else:
            w = self.shape('Wi', [(e, o, None) for e, o in edges])
            o = self.rng.choice([1, 1, 2]) if surface is not None else 1
            f = bw.Face([self.ref(w, o)] if o == 2 or self.rng.random() < .5 else w['obj'], **kw)
            ch = [(w, o, None)]
        return self.reg(f, type='Fa', tol=1e-3 if tol is None else tol, ch=ch, surf=surface, loc=loc)


def mat(loc, L=None):
    """4x4 matrix of a model location"""
    if loc is None or loc['kind'] == 'id':
        return np.array(IDENT)
    if loc['kind'] == 'mat':
        return np.array(list(loc['mat']) + [0, 0, 0, 1.]).reshape(4, 4)
    T = np.eye(4)
    for p, k in loc['parts']:
        T = np.linalg.matrix_power(mat(p), k) @ T
    return T


def product(out, step, n):
    """product of powers, equal neighbours merged"""
    out = list(out)
    if n < 0:
        step = [(x, -k) for x, k in reversed(step)]
    for x, k in step * abs(n):
        if out and out[-1][0] == x:
            k += out.pop()[1]
        if k:
            out.append((x, k))
    return out


def factors(d):
    """model location as [((number of the elementary location, its matrix), power)]"""
    if d is None or d['kind'] == 'id':
        return []
    if d['kind'] == 'mat':
        return [((id(d), d['mat']), 1)]
    out = []
    for p, n in d['parts']:
        out = product(out, factors(p), n)
    return out


def reach(root):
    """distinct shapes reachable from the root"""
    seen, todo = {}, [root]
    while todo:
        d = todo.pop()
        if id(d) in seen:
            continue
        seen[id(d)] = d
        todo += [c[0] for c in d['ch']]
    return seen


class Compare:
    def __init__(self, mon, rd, root, root_loc):
        self.mon, self.rd = mon, rd
        self.map = {}           # id(desc) -> position
        self.used = {'c2': set(), 'c3': set(), 'surf': set()}
        self.locmap = {}
        o, pos, loc = rd.root
        mon.need(o == '+', 'root', 'root orientation {}', o)
        self.loc(root_loc, loc)
        self.geo = {}
        self.shape(root, pos)
        n = len(reach(root))
        mon.need(len(rd.shapes) == n and len(set(self.map.values())) == n, 'shape count', '{} shapes written, {} distinct matched, model has {}', len(rd.shapes), len(set(self.map.values())), n)
        for kind, total in (('c2', len(rd.c2)), ('c3', len(rd.c3)), ('surf', len(rd.surf))):
            mon.need(self.used[kind] == set(range(1, total + 1)), 'unused ' + kind, '{}: written {} used {}', kind, total, sorted(self.used[kind]))

    def loc(self, d, k):
        """model location d (or None) was written as the location number k"""
        mon, rd = self.mon, self.rd
        f = factors(d)
        if not f:
            mon.need(k == 0, 'location', 'identity written as location {}', k)
            return
        mon.need(k != 0, 'location', 'location lost')
        # the same product written under one number only (OpenCASCADE merges equal locations when reading)
        key = repr(f)
        if key in self.locmap:
            mon.need(self.locmap[key] == k, 'location', 'one location written twice: {} {}', self.locmap[key], k)
            return
        mon.need(k not in self.locmap.values(), 'location', 'two locations written as {}', k)
        self.locmap[key] = k
        mon.ev('locations')
        got = [(m, n) for (_, m), n in self.read_factors(k)]
        want = [(m, n) for (_, m), n in f]
        mon.need(got == want, 'location', 'location {} written as {}', want, got)

    def read_factors(self, k):
        t, data = self.rd.locs[k - 1]
        if t == 'mat':
            return [((k, data), 1)]
        out = []
        for i, n in data:
            out = product(out, self.read_factors(i), n)
        return out

    def shape(self, d, pos):
        mon, rd = self.mon, self.rd
        if id(d) in self.map:
            mon.need(self.map[id(d)] == pos, 'shape shared', 'one {} written at {} and {}', d['type'], self.map[id(d)], pos)
            return
        self.map[id(d)] = pos
        s = rd.shapes[pos]
        mon.ev('shapes')
        mon.need(s['type'] == d['type'], 'shape type', '{} written as {}', d['type'], s['type'])
        if 'flags' in d:
            mon.need(s['flags'] == d['flags'], 'flags', '{}: flags {} written as {}', d['type'], d['flags'], s['flags'])
        if d['type'] == 'Wi':
            mon.need(s['flags'][4] == str(int(d['closed'])), 'closed', 'closed flag of a wire {} in {}', d['closed'], s['flags'])
        mon.need(len(s['ch']) == len(d['ch']), 'children', '{}: {} children written as {}', d['type'], len(d['ch']), len(s['ch']))
        for (c, o, loc), (wo, wp, wl) in zip(d['ch'], s['ch']):
            mon.ev('references')
            mon.need(wo == ORI[o], 'orientation', '{} in {}: orientation {} written as {}', c['type'], d['type'], ORI[o], wo)
            self.loc(loc, wl)
            self.shape(c, wp)
        if 'tol' in d:
            mon.need(s['tol'] == d['tol'], 'tolerance', '{} tolerance {} written as {}', d['type'], d['tol'], s['tol'])
        if d['type'] == 'Ve':
            mon.need(s['pt'] == d['pt'], 'point', 'vertex {} written as {}', d['pt'], s['pt'])
        elif d['type'] == 'Fa':
            self.face(d, s)
        elif d['type'] == 'Ed':
            self.edge(d, s)

    def same_geo(self, kind, obj, k):
        """explicit curve/surface obj (description) is the k-th record"""
        rec = {'c2': self.rd.c2, 'c3': self.rd.c3, 'surf': self.rd.surf}[kind][k - 1]
        self.used[kind].add(k)
        self.mon.need(self.geo.setdefault(id(obj), k) == k, 'geometry shared', 'one {} written as {} and {}', kind, self.geo[id(obj)], k)
        self.mon.need(rec == obj['rec'], 'geometry', '{} {} written as {}', kind, obj['rec'], rec)

    def face(self, d, s):
        self.loc(d['loc'], s['loc'])
        if d['surf'] is not None:
            self.same_geo('surf', d['surf'], s['surf'])
            return
        # implicit surface: bilinear through the vertices
        self.used['surf'].add(s['surf'])
        rat, deg, P, ku, kv = self.rd.surf[s['surf'] - 1]
        pts = []
        for e, o, _ in d['ch'][0][0]['ch']:
            ends = [v['pt'] for v, _, _ in e['ch']]
            pts.append(ends[0 if o == 1 else 1])
        self.mon.ev('implicit faces')
        M = spread(ku, deg[0]), spread(kv, deg[1])
        sc = max(abs(x) for p in pts for x in p) + 1e-300
        # each edge of the face has one 2D curve on its surface
        for c, _, _ in d['ch'][0][0]['ch']:
            w = self.rd.shapes[self.map[id(c)]]['repr']
            n = sum(1 for x in w if x[0] == 2 and x[2] == s['surf'])
            self.mon.need(n == 1, 'edge on surface', 'edge has {} curves on the surface of its face', n)
        # corners of the patch are the vertices (fourth corner free for triangles)
        cor = [[float(x) for x in bsref.surface_point(M[0], deg[0], M[1], deg[1], P, M[0][0] if a == 0 else M[0][-1], M[1][0] if b == 0 else M[1][-1], bool(rat))] for a, b in ((0, 0), (1, 0), (1, 1), (0, 1))]
        for p in pts:
            self.mon.need(min(max(abs(x - y) for x, y in zip(p, c)) for c in cor) <= 1e-12 * sc, 'implicit surface', 'vertex {} is not a corner of {}', p, cor)

    def edge(self, d, s):
        mon, rd = self.mon, self.rd
        rep = list(s['repr'])
        if 'flags3' in d:
            mon.need(s['flags3'] == d['flags3'], 'edge flags', 'edge flags {} written as {}', d['flags3'], s['flags3'])
        for r in d['repr']:
            k = r['kind']
            i = next((i for i, w in enumerate(rep) if w[0] == k), None)
            mon.need(i is not None, 'edge representation', 'representation of an edge by a {}D curve is missing', 4 - k)
            w = rep.pop(i)
            mon.need(w[-2:] == r['t'], 'edge range', 'range {} written as {}', r['t'], w[-2:])
            self.same_geo('c3' if k == 1 else 'c2', r['curve'], w[1])
            if k == 2:
                self.same_geo('surf', r['surf'], w[2])
            self.loc(r['loc'], w[-3])
        A, B = [c[0]['pt'] for c in d['ch']]
        sc = max(abs(x) for x in A + B) + 1e-300
        for w in s['repr']:
            if w[0] == 1:
                rat, deg, P, kn = rd.c3[w[1] - 1]
                self.used['c3'].add(w[1])
                kn = spread(kn, deg)
                f = lambda t: bsref.curve_point(kn, deg, P, Fr(t), bool(rat))
            else:
                rat, deg, P, kn = rd.c2[w[1] - 1]
                srat, sdeg, SP, ku, kv = rd.surf[w[2] - 1]
                self.used['c2'].add(w[1])
                self.used['surf'].add(w[2])
                kn, ku, kv = spread(kn, deg), spread(ku, sdeg[0]), spread(kv, sdeg[1])
                lim = lambda x, k: min(max(x, Fr(k[0])), Fr(k[-1]))

                def f(t):
                    u, v = bsref.curve_point(kn, deg, P, Fr(t), bool(rat))
                    return bsref.surface_point(ku, sdeg[0], kv, sdeg[1], SP, lim(u, ku), lim(v, kv), bool(srat))
            if d.get('noends') or w[-3] != 0:
                continue
            for t, X in ((w[-2], A), (w[-1], B)):
                mon.ev('curve ends')
                Y = [float(y) for y in f(t)]
                mon.need(max(abs(x - y) for x, y in zip(X, Y)) <= 1e-9 * sc, 'curve end', 'vertex {} but the {}D curve is {} at {}', X, 4 - w[0], Y, t)
        if not d['repr']:
            mon.need(any(w[0] == 1 for w in s['repr']), 'edge curve', 'edge without a 3D curve')


def spread(kn, deg):
    return [k for k, m in kn for _ in range(m)]


# ---------------------------------------------------------------- models

def frame(rng, affine):
    M = np.array([[rng.uniform(-1, 1) for _ in range(3)] for _ in range(3)]) + np.diag([rng.choice([1.5, -1.5, 40.])] * 3)
    o = np.array([rng.choice([0, rng.uniform(-3, 3), 1e3]) for _ in range(3)])
    noise = np.zeros(3) if affine else None
    return lambda p: tuple(float(x) for x in M @ (np.array(p) + (noise if affine else np.array([rng.uniform(-.15, .15) for _ in range(3)]))) + o), M


def bricks(m, n, affine, rng):
    T, M = frame(rng, affine)
    V, E, F = {}, {}, {}

    def vert(p):
        if p not in V:
            V[p] = m.vertex(T(p))
        return V[p]

    def edge(a, b):
        if (a, b) in E:
            return (E[a, b], 1)
        if (b, a) in E:
            return (E[b, a], 2)
        E[a, b] = m.edge(vert(a), vert(b))
        return (E[a, b], 1)

    def face(cell, ax, side):
        key = (ax, tuple(c + (side if i == ax else 0) for i, c in enumerate(cell)))
        if key in F:
            return (F[key], 2 if side == 0 else 1)
        u, v = (ax + 1) % 3, (ax + 2) % 3
        loop = []
        for a, b in ((0, 0), (1, 0), (1, 1), (0, 1)):
            q = list(key[1])
            q[u] += a
            q[v] += b
            loop.append(tuple(q))
        k = rng.randrange(4)
        loop = loop[k:] + loop[:k]
        F[key] = m.face([edge(loop[i], loop[(i + 1) % 4]) for i in range(4)])
        return (F[key], 2 if side == 0 else 1)
    cells = [(i, j, k) for i in range(n[0]) for j in range(n[1]) for k in range(n[2])]
    rng.shuffle(cells)
    cells = cells[:rng.randint(1, min(5, len(cells)))]
    solids = []
    for c in cells:
        fs = [face(c, ax, s) for ax in range(3) for s in (0, 1)]
        rng.shuffle(fs)
        sh = m.shape('Sh', [(f, o, None) for f, o in fs])
        so = m.shape('So', [(sh, 1, None)])
        solids.append(so)
    return solids, cells, abs(np.linalg.det(M)), V


def terrain(m, n, rng):
    """triangulated graph"""
    T, _ = frame(rng, False)
    nx, ny = n[0] + 1, n[1] + 1
    V = {(i, j): m.vertex(T((i, j, rng.uniform(-.3, .3)))) for i in range(nx) for j in range(ny)}
    E = {}

    def edge(a, b):
        if (b, a) in E:
            return (E[b, a], 2)
        if (a, b) not in E:
            E[a, b] = m.edge(V[a], V[b])
        return (E[a, b], 1)
    faces, area = [], 0
    for i in range(nx - 1):
        for j in range(ny - 1):
            a, b, c, d = (i, j), (i + 1, j), (i + 1, j + 1), (i, j + 1)
            for t in ((a, b, c), (a, c, d)):
                faces.append(m.face([edge(t[k], t[(k + 1) % 3]) for k in range(3)]))
                P = [np.array(V[x]['pt']) for x in t]
                area += np.linalg.norm(np.cross(P[1] - P[0], P[2] - P[0])) / 2
    return m.shape('Sh', [(f, 1, None) for f in faces]), area, len(faces)


def pack(k):
    out = []
    for x in k:
        if out and out[-1][0] == x:
            out[-1][1] += 1
        else:
            out.append([x, 1])
    return tuple((x, n) for x, n in out)


def curved(m, rng, rat):
    """face on a B-spline surface with its four boundary curves, all explicit"""
    deg = [rng.choice([1, 2, 2, 3]) for _ in range(2)]
    ks = [bsref.gen_knots(rng, d, 3, inner_mult=False) for d in deg]
    P = np.array(bsref.gen_poles(rng, [len(k[0]) - d - 1 for k, d in zip(ks, deg)], 3, rat))
    P[:, :, 2] *= .2
    for i in range(P.shape[0]):
        for j in range(P.shape[1]):
            P[i, j, 0] = P[i, j, 0] * .1 + i
            P[i, j, 1] = P[i, j, 1] * .1 + j
    S = bs.Surface([bs.SplineBasis(d, k[0]) for d, k in zip(deg, ks)], P, rational=rat)
    rec = (int(rat), tuple(deg), tuple(tuple(tuple(float(x) for x in p) for p in row) for row in P), pack(ks[0][0]), pack(ks[1][0]))
    surf = m.reg(bw.surface_from_bs(S), rec=rec)
    dom = [(k[0][0], k[0][-1]) for k in ks]
    cor = [(dom[0][a], dom[1][b]) for a, b in ((0, 0), (1, 0), (1, 1), (0, 1))]
    V = [m.vertex([float(x) for x in bsref.surface_point(ks[0][0], deg[0], ks[1][0], deg[1], P.tolist(), u, v, rat)]) for u, v in cor]
    E = []
    for i in range(4):
        a, b = i, (i + 1) % 4
        e = m.edge(V[a], V[b])
        ax = i % 2
        kn, dg = ks[ax][0], deg[ax]
        row = [P[:, 0], P[-1, :], P[:, -1][::1], P[0, :]][i]
        back = i >= 2
        t = (kn[-1], kn[0]) if back else (kn[0], kn[-1])
        if back:
            # edge runs against the parameter of the surface: build it with reversed poles and mirrored knots
            kk = [kn[0] + kn[-1] - x for x in reversed(kn)]
            row = row[::-1]
        else:
            kk = kn
        c3 = bs.Curve(bs.SplineBasis(dg, kk), np.array(row), rational=rat)
        c3d = m.reg(bw.curve_from_bs(c3), rec=(int(rat), dg, tuple(tuple(float(x) for x in p) for p in row), pack(kk)))
        t3 = (kk[0], kk[-1])
        e['obj'].attach_to_3d_curve(t3, c3d['obj'])
        e['repr'].append({'kind': 1, 't': t3, 'curve': c3d, 'loc': None})
        line = [cor[a], cor[b]]
        c2 = bs.Curve(bs.SplineBasis(1, [kk[0]] * 2 + [kk[-1]] * 2), np.array(line))
        c2d = m.reg(bw.curve_from_bs(c2), rec=(0, 1, tuple(tuple(float(x) for x in p) for p in line), pack([kk[0]] * 2 + [kk[-1]] * 2)))
        e['obj'].attach_to_2d_curve(t3, c2d['obj'], surf['obj'])
        e['repr'].append({'kind': 2, 't': t3, 'curve': c2d, 'surf': surf, 'loc': None})
        E.append((e, 1))
    f = m.face(E, surface=surf)
    return f, S


def free(m, rng):
    """arbitrary graph of shapes; only the text is judged"""
    V = [m.vertex([m.num() for _ in range(3)], rng.choice([None, 1e-7, .5, 1 / 3])) for _ in range(rng.randint(2, 6))]
    E, surfs = [], []
    for _ in range(rng.randint(2, 8)):
        a, b = rng.choice(V), rng.choice(V)
        e = m.edge(a, b, rng.choice([None, 1e-5]))
        e['noends'] = True
        if rng.random() < .3:
            fl = tuple(rng.randint(0, 1) for _ in range(3))
            e['obj'].set_edge_flags(*fl)
            e['flags3'] = fl
        if rng.random() < .5:
            dg = rng.randint(1, 3)
            k = bsref.gen_knots(rng, dg, 3, inner_mult=False)[0]
            rat = rng.random() < .3
            P = [[float(m.num()) for _ in range(3)] + ([1.5] if rat else []) for _ in range(len(k) - dg - 1)]
            c = m.reg(bw.Curve3D(P, pack(k), rat, dg), rec=(int(rat), dg, tuple(map(tuple, P)), pack(k)))
            loc = rng.choice([None, m.loc()])
            t = (k[0], k[-1])
            e['obj'].attach_to_3d_curve(t, c['obj'], *([] if loc is None else [loc['obj']]))
            e['repr'].append({'kind': 1, 't': t, 'curve': c, 'loc': loc})
        for _ in range(rng.choice([0, 0, 1, 2])):
            if not surfs or rng.random() < .5:
                P = np.array(bsref.gen_poles(rng, [3, 4], 3, False))
                ku, kv = (0., 0., 0., 1., 1., 1.), (-1., -1., -1., .25, 2., 2., 2.)
                surfs.append(m.reg(bw.Surface(P, (pack(ku), pack(kv))), rec=(0, (2, 2), tuple(tuple(tuple(map(float, p)) for p in r) for r in P), pack(ku), pack(kv))))
            s = rng.choice(surfs)
            rat = rng.random() < .3
            P = [[float(m.num()) for _ in range(2)] + ([.75] if rat else []) for _ in range(3)]
            k = (0., 0., 0., .5, .5, .5)
            c = m.reg(bw.Curve2D(P, pack(k), rat), rec=(int(rat), 2, tuple(map(tuple, P)), pack(k)))
            loc = rng.choice([None, m.loc()])
            t = rng.choice([(0., .5), (.125, .25)])
            e['obj'].attach_to_2d_curve(t, c['obj'], s['obj'], *([] if loc is None else [loc['obj']]))
            e['repr'].append({'kind': 2, 't': t, 'curve': c, 'surf': s, 'loc': loc})
        E.append(e)
    locs = [m.loc() for _ in range(3)]
    L = lambda: rng.choice([None, None] + locs)
    W = [m.shape('Wi', [(rng.choice(E), rng.randint(1, 4), L()) for _ in range(rng.randint(1, 5))]) for _ in range(rng.randint(1, 3))]
    top = W + E[:2] + V[:1]
    for w in W:
        if w['closed'] and rng.random() < .8:
            P = np.array(bsref.gen_poles(rng, [3, 3], 3, False))
            k = (0., 0., 0., 1., 1., 1.)
            s = m.reg(bw.Surface(P, (pack(k), pack(k))), rec=(0, (2, 2), tuple(tuple(tuple(map(float, p)) for p in r) for r in P), pack(k), pack(k)))
            loc = L()
            kw = {'location': loc['obj']} if loc is not None else {}
            f = m.reg(bw.Face(m.ref(w, 1), s['obj'], **kw), type='Fa', tol=1e-3, ch=[(w, 1, None)], surf=s, loc=loc)
            sh = m.shape('Sh', [(f, rng.randint(1, 4), L())])
            so = m.shape('So', [(sh, 1, L())])
            top += [f, sh, so]
            if rng.random() < .5:
                top.append(m.shape('Cs', [(so, rng.randint(1, 2), L())]))
    for d in top:
        if rng.random() < .3:
            fl = [rng.randint(0, 1) for _ in range(7)]
            if d['type'] == 'Wi':
                d['closed'] = bool(fl[4])
            d['obj'].set_flags(tuple(fl))
            d['flags'] = ''.join(map(str, fl))
    C = []
    for _ in range(rng.randint(1, 3)):
        ch = [(rng.choice(top), rng.randint(1, 4), L()) for _ in range(rng.randint(1, 6))]
        c = m.shape('Co', ch)
        if rng.random() < .3:
            c['obj'].set_free_shapes()
            for d, _, _ in ch:
                if 'flags' in d:
                    d['flags'] = '1' + d['flags'][1:]
        C.append(c)
    return C, [rng.choice([m.reg(bw.Location(), kind='id')] + locs) for _ in C]


def reject(m, rng, mon):
    """models which must be refused"""
    v = [m.vertex([rng.random() for _ in range(3)])['obj'] for _ in range(4)]
    e = [bw.Edge([v[i], v[(i + 1) % 4]]) for i in range(4)]
    k = [(0., 3), (1., 3)]
    line = lambda a, b: bs.Curve(bs.SplineBasis(2, [0, 0, 0, 1, 1, 1.]), np.array([a, (np.array(a) + b) / 2, b]))
    far = bw.curve_from_bs(line(v[0].point, v[1].point + [0, 0, 1.]))
    todo = {
        'open wire': lambda: bw.Face(e[:3]), 'open wire object': lambda: bw.Face([bw.Wire(e[:2])]),
        'wire of vertices': lambda: bw.Wire([v[0]]), 'shell of edges': lambda: bw.Shell([e[0]]), 'solid of faces': lambda: bw.Solid([bw.Face(e)]),
        'edge of edges': lambda: bw.Edge([e[0], e[1]]), 'one vertex': lambda: bw.Edge([v[0]]), 'three vertices': lambda: bw.Edge(v[:3]),
        'location 2x4': lambda: bw.Location([[1, 0, 0, 0]] * 2), 'location text': lambda: bw.Location([[1, 0, 0, '0']] * 3), 'location 3x3': lambda: bw.Location([[1, 0, 0]] * 3),
        'composed power': lambda: bw.ComposedLocation([(bw.Location([[1, 0, 0, 0]] * 3), 1.5)]), 'composed matrix': lambda: bw.ComposedLocation([([[1, 0, 0, 0]] * 3, 1)]),
        'point 2D': lambda: bw.Vertex([1, 2]), 'point text': lambda: bw.Vertex([1, 2, '3']), 'curve dim': lambda: bw.Curve3D([[0, 0]] * 3, k), 'curve2 dim': lambda: bw.Curve2D([[0, 0, 0]] * 3, k),
        'knots': lambda: bw.Curve3D([[0, 0, 0]] * 4, k), 'knots few': lambda: bw.Curve2D([[0, 0]] * 2, k), 'surface ragged': lambda: bw.Surface([[[0, 0, 0]] * 3, [[0, 0, 0]] * 2, [[0, 0, 0]] * 3], (k, k)),
        'surface knots': lambda: bw.Surface([[[0, 0, 0]] * 3] * 4, (k, k)), 'rational poles': lambda: bw.Curve3D([[0, 0, 0]] * 3, k, rational=True),
        'curve far from vertex': lambda: e[0].attach_to_3d_curve((0., 1.), far), 'vertex far from curve': lambda: v[2].attach_to_3d_curve(.25, bw.curve_from_bs(line(v[0].point, v[1].point))),
        'face of faces': lambda: bw.Face([bw.Face(e)]), 'compound of text': lambda: bw.Compound(['x']), 'ref of text': lambda: bw.ShapeRef('x'),
    }
    for name in rng.sample(sorted(todo), 8):
        try:
            todo[name]()
        except (bw.ParamError, AssertionError):
            pass
        except Exception as ex:
            if type(ex) is not Exception:
                raise
        else:
            raise Violation('accepted', 'writer accepted a wrong model: ' + name)
        mon.ev('rejected')


def attached(rng, mon):
    """vertices and edges given also by curves and surfaces: consistent ones are accepted and written, others refused"""
    r = np.random.default_rng(rng.randrange(10 ** 9))
    kn = [0, 0, 0, .5, 1, 1, 1.]
    P = r.uniform(-1, 1, (4, 4, 3)) + r.choice([2., 50., -300.])
    S = bs.Surface((bs.SplineBasis(2, kn), bs.SplineBasis(2, kn)), P)
    Q = r.uniform(.05, .95, (4, 2))
    c2 = bs.Curve(bs.SplineBasis(2, kn), Q)
    t0, t1 = [float(x) for x in np.sort(r.uniform(0, 1, 2))]
    at = lambda t: S.eval(*c2.eval(t))
    C = bs.Curve(bs.SplineBasis(2, kn), r.uniform(-1, 1, (4, 3)) + 3)
    bS, b2, bC = bw.surface_from_bs(S), bw.curve_from_bs(c2), bw.curve_from_bs(C)
    far = np.abs(P).max() * r.choice([-.05, .05, .4, 1], 3)

    def refused(name, f):
        try:
            f()
        except Exception as ex:
            if type(ex) not in (Exception, AssertionError, bw.ParamError):
                raise
            mon.ev('rejected')
            return
        raise Violation('accepted', 'writer accepted a wrong model: ' + name)
    a, b = bw.Vertex(at(t0).tolist()), bw.Vertex(at(t1).tolist())
    w = bw.Vertex((at(t1) + far).tolist())
    e = bw.Edge([a, b])
    e.attach_to_2d_curve((t0, t1), b2, bS)
    refused('edge whose curve on the surface ends elsewhere', lambda: bw.Edge([a, w]).attach_to_2d_curve((t0, t1), b2, bS))
    refused('edge whose curve on the surface starts elsewhere', lambda: bw.Edge([w, b]).attach_to_2d_curve((t0, t1), b2, bS))
    uv = [c2.eval(t) for t in (t0, t1)]
    g = bw.Edge([a, b])
    g.attach_to_plane(bS, *uv)
    v = bw.Vertex(at(t0).tolist())
    v.attach_to_2d_curve(t0, b2, bS)
    v.attach_to_surface(float(uv[0][0]), float(uv[0][1]), bS)
    refused('vertex out of the surface', lambda: w.attach_to_surface(float(uv[1][0]), float(uv[1][1]), bS))
    refused('vertex out of the curve on the surface', lambda: w.attach_to_2d_curve(t1, b2, bS))
    q = bw.Vertex(C.eval(t0).tolist())
    q.attach_to_3d_curve(t0, bC)
    refused('vertex out of the curve', lambda: bw.Vertex((C.eval(t0) + [.3, 0, 0]).tolist()).attach_to_3d_curve(t0, bC))
    L = bw.Location()
    parts = [(e, 1, 0, 1), (g, 1, 0, 1), (v, 1, 0, 1), (q, 0, 1, 0)]
    f = io.StringIO()
    bw.write_model(f, bw.Compound([x[0] for x in parts]), L)
    rd = Reader(f.getvalue())
    mon.ev('attached')
    # the curve of e and v, the line of g; the curve of q; surface; vertices a, b, v, q, two edges and the compound
    mon.need((len(rd.c2), len(rd.c3), len(rd.surf), len(rd.shapes)) == (2, 1, 1, 7), 'attached', '{} 2D curves, {} 3D curves, {} surfaces, {} shapes written, expected 2, 1, 1, 7',
             len(rd.c2), len(rd.c3), len(rd.surf), len(rd.shapes))


# ---------------------------------------------------------------- execution

def text(c, loc):
    f = io.StringIO()
    bw.write_model(f, c['obj'], loc['obj'])
    return f.getvalue()


def run(case, mon):
    rng = random.Random(case['seed'])
    m = Model(rng)
    kind = case['kind']
    mon.state(kind, case['n'], case['affine'])
    if kind == 'reject':
        reject(m, rng, mon)
        attached(rng, mon)
        return
    mon.ev('models')
    occ = None
    ident = m.reg(bw.Location(), kind='id')
    if kind == 'bricks':
        solids, cells, vol, V = bricks(m, case['n'], case['affine'], rng)
        C = [m.shape('Co', [(s, 1, None) for s in solids])]
        if rng.random() < .5:
            C.append(m.shape('Co', [(s, rng.choice([1, 2]), rng.choice([None, m.loc()])) for s in rng.sample(solids, rng.randint(1, len(solids)))]))
        locs = [rng.choice([ident, m.loc(rigid=True), m.loc(rigid=True)]) for _ in C]
        occ = ('vol', len(solids), vol if case['affine'] else None)
    elif kind == 'terrain':
        sh, area, n = terrain(m, case['n'], rng)
        C = [m.shape('Co', [(sh, 1, None)])]
        locs = [rng.choice([ident, m.loc(rigid=True)])]
        occ = ('area', n, area)
    elif kind == 'curved':
        fs = [curved(m, rng, rng.random() < .3)[0] for _ in range(rng.randint(1, 3))]
        C = [m.shape('Co', [(f, rng.choice([1, 2]), None) for f in fs])]
        locs = [rng.choice([ident, m.loc(rigid=True)])]
        occ = ('faces', len(fs), None)
    else:
        C, locs = free(m, rng)
    first, text0 = {}, None
    for step in range(2 * len(C) + rng.randint(1, 3)):
        i = step if step < len(C) else rng.randrange(len(C))
        if rng.random() < .3:
            repr(rng.choice(C)['obj'])
        t = text(C[i], locs[i])
        mon.ev('texts')
        rd = Reader(t)
        Compare(mon, rd, C[i], locs[i])
        size = [len(x) for x in (rd.shapes, rd.c2, rd.c3, rd.surf, rd.locs)]
        mon.state(kind, size)
        # numbering of curves may differ between writings, their number may not
        # (all parts of other models are parts of the first one, so they add no curves to shared edges)
        if i in first and (kind != 'bricks' or i == 0):
            mon.need(size == first[i], 'repeated', 'numbers of shapes, curves, surfaces, locations {} of the same model were {} before', size, first[i])
        first.setdefault(i, size)
        text0 = t if i == 0 else text0
    if occ and case['occ']:
        load(text0, occ, C[0], locs[0], mon)


def load(t, occ, root, loc, mon):
    import gmsh
    path = os.path.join(os.environ['VERIF_SCRATCH'], 'm%d.brep' % os.getpid())
    with open(path, 'w') as f:
        f.write(t)
    if not gmsh.isInitialized():
        gmsh.initialize(['-v', '0'], interruptible=False)
    gmsh.option.setNumber('General.Verbosity', 0)
    gmsh.option.setNumber('General.Terminal', 0)
    gmsh.clear()
    try:
        r = gmsh.model.occ.importShapes(path)
    except Exception as e:
        raise Violation('occ load', 'OpenCASCADE does not read the model: {}'.format(e))
    finally:
        os.remove(path)
    gmsh.model.occ.synchronize()
    mon.ev('occ models')
    kind, n, val = occ
    all_ = reach(root)
    cnt = [sum(1 for d in all_.values() if d['type'] == k) for k in ('Ve', 'Ed', 'Fa', 'So')]
    got = [len(gmsh.model.getEntities(d)) for d in range(4)]
    mon.need(got == cnt, 'occ counts', 'OpenCASCADE reads {} vertices, edges, faces, solids, model has {}', got, cnt)
    T = mat(loc)
    if kind == 'vol':
        mon.need(len(r) == n, 'occ solids', '{} solids read, {} written', len(r), n)
        for d, tag in r:
            mon.ev('occ solids')
            v = gmsh.model.occ.getMass(d, tag)
            if val is not None:
                mon.need(abs(abs(v) - val) <= 1e-6 * val, 'occ volume', 'volume {} expected {}', v, val)
            else:
                mon.need(abs(v) > 0, 'occ volume', 'volume {}', v)
    elif kind == 'area':
        a = sum(gmsh.model.occ.getMass(2, tag) for _, tag in gmsh.model.getEntities(2))
        mon.need(abs(a - val) <= 1e-6 * val, 'occ area', 'area {} expected {}', a, val)
    # vertices after the location
    want = sorted(tuple((T @ np.array(d['pt'] + (1,)))[:3]) for d in all_.values() if d['type'] == 'Ve')
    have = [gmsh.model.getValue(0, tag, []) for _, tag in gmsh.model.getEntities(0)]
    want, have = np.array(want), np.array(have)
    sc = np.abs(want).max() + 1
    for p in want:
        k = np.abs(have - p).max(axis=1)
        mon.need(k.min() <= 1e-6 * sc, 'occ points', 'vertex {} not among points read by OpenCASCADE', p)
