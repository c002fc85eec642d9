"""B08: convex hull and minimum area rectangle of planar points against exact monotone chain and brute force over all directions."""
import random
from fractions import Fraction as Fr
import numpy as np
from bgem.bspline import bspline_approx as ba

LEVEL = 'exploration'
RULE = ('One execution = one planar point set (random, on a circle, lattice with many collinear points, duplicates, near-collinear, thin, offset, 3 to 400 points); hull compared with an exact '
        'monotone chain, rectangle with the best over all exact hull edge directions. Distinct = (kind, number of points, number of hull vertices).')
ASSUMPTIONS = ['hull vertices may include or miss points within rounding (1e-9 of the extent) of the hull boundary']
REQUIRED = {'hulls': 400, 'rectangles': 300, 'hull vertices': 3000, 'ordered vertices': 1000, 'degenerate': 40, 'points': 20000}


def cases(tier, rng):
    out = []
    for _ in range(2500 if tier == "quick" else 20000):
        out.append({'kind': rng.choice(['normal', 'normal', 'uniform', 'circle', 'lattice', 'lattice', 'dup', 'thin', 'near', 'line', 'rot', 'big']),
                    'n': rng.choice([3, 4, 5, 8, 20, 60, 400]), 'seed': rng.randrange(10 ** 9)})
    return out


def points(case):
    r = np.random.default_rng(case['seed'])
    n, kind = case['n'], case['kind']
    a = r.uniform(0, 2 * np.pi)
    R = np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
    if kind == 'normal':
        return r.normal(size=(n, 2))
    if kind == 'big':
        return r.normal(size=(n, 2)) * r.choice([100, 1, .01]) + r.normal(size=2) * r.choice([1e5, 1e6])
    if kind == 'uniform':
        return r.uniform(size=(n, 2))
    if kind == 'circle':
        t = r.uniform(0, 2 * np.pi, n)
        return np.column_stack([np.cos(t), np.sin(t)]) * r.choice([1, 3.7])
    if kind == 'lattice':
        return r.integers(0, 1 + int(n ** .6) + 1, size=(n, 2)).astype(float)
    if kind == 'dup':
        p = r.normal(size=(max(2, n // 3), 2))
        return p[r.integers(0, len(p), n)]
    if kind == 'thin':
        return (r.uniform(size=(n, 2)) * [1, 1e-4]) @ R.T
    if kind == 'near':
        return (np.column_stack([r.uniform(size=n), 1e-15 * r.normal(size=n)])) @ R.T
    if kind == 'line':
        t = r.integers(0, 10, n) * .25
        d = [(1, 0), (0, 1), (1, 1), (2, -3)][r.integers(4)]
        return np.array([t * d[0], t * d[1]]).T + r.integers(-3, 3, 2)
    m = int(np.sqrt(n)) + 1
    g = np.array([[i / m, j / m] for i in range(m + 1) for j in range(m + 1)])
    return g[r.permutation(len(g))] @ R.T * 3 + r.normal(size=2)


def chain(P):
    P = sorted(set((Fr(x), Fr(y)) for x, y in P))
    if len(P) < 3:
        return P
    def half(Q):
        H = []
        for p in Q:
            while len(H) > 1 and (H[-1][0] - H[-2][0]) * (p[1] - H[-2][1]) - (H[-1][1] - H[-2][1]) * (p[0] - H[-2][0]) <= 0:
                H.pop()
            H.append(p)
        return H[:-1]
    return half(P) + half(P[::-1])


def seg_dist(P, A, B):
    """distance of every point of P from the closest of segments A[i]B[i]"""
    d = B - A
    L = np.einsum('ij,ij->i', d, d)
    L[L == 0] = 1
    v = P[:, None, :] - A[None]
    t = np.clip(np.einsum('pij,ij->pi', v, d) / L, 0, 1)
    return np.linalg.norm(v - t[:, :, None] * d[None], axis=2).min(axis=1)


def run(case, mon):
    P = points(case)
    keep = P.copy()
    H = ba.convex_hull_2d(P)
    mon.need(np.array_equal(keep, P), 'input changed', 'points passed to convex_hull_2d were changed')
    mon.ev('hulls')
    ref = np.array([[float(x) for x in p] for p in chain(P.tolist())])
    mon.state(case['kind'], len(P), len(ref))
    ext = np.max(P.max(axis=0) - P.min(axis=0))
    eps = 1e-9 * ext + 1e-12 * np.abs(P).max()
    rows = {tuple(p) for p in P.tolist()}
    mon.need(np.array_equal(H[0], H[-1]), 'hull closed', 'hull is not closed: {} .. {}', H[0], H[-1])
    for h in H:
        mon.ev('hull vertices')
        mon.need(tuple(h) in rows, 'hull vertex', 'hull vertex {} is not an input point', h)
    # every exact hull vertex lies on the polygon, every reported vertex lies on the boundary of the exact hull
    seq = [tuple(h) for h in H[:-1].tolist()]
    n = len(ref)
    d = seg_dist(ref, H[:-1], H[1:])
    mon.need(d.max() <= eps, 'hull missing', 'extreme point {} is {} from the hull', ref[d.argmax()], d.max())
    if n >= 2:
        d = seg_dist(H, ref, np.roll(ref, -1, axis=0))
        mon.need(d.max() <= eps, 'hull inner', 'hull vertex {} is {} inside of the hull', H[d.argmax()], d.max())
    mon.ev('points', len(P))
    area = 0.5 * sum(a[0] * b[1] - a[1] * b[0] for a, b in zip(ref - ref[0], np.roll(ref - ref[0], -1, axis=0)))
    if area < 1e-6 * ext * ext:
        mon.ev('degenerate')
    if area > 1e-6 * ext * ext:
        A = 0.5 * sum(a[0] * b[1] - a[1] * b[0] for a, b in zip(H[:-1] - ref[0], H[1:] - ref[0]))
        mon.need(abs(abs(A) - area) <= 1e-8 * ext * ext, 'hull area', 'hull area {} expected {} (vertices not in cyclic order?)', A, area)
        # cyclic order, each vertex once; vertices almost collinear with their neighbours may be swapped by rounding
        prev, nxt = np.roll(ref, 1, axis=0), np.roll(ref, -1, axis=0)
        far = [seg_dist(p[None], a[None], b[None])[0] > 1e-7 * ext for p, a, b in zip(ref, prev, nxt)]
        idx = {tuple(p): i for i, p in enumerate(ref.tolist()) if far[i]}
        mon.ev('ordered vertices', len(idx))
        s = [idx[h] for h in seq if h in idx]
        if A < 0:
            s = s[::-1]
        k = s.index(min(s))
        s = s[k:] + s[:k]
        mon.need(s == sorted(set(s)), 'hull order', 'hull vertices out of order or repeated: {}', s)
        rect(H, ref, P, ext, eps, area, mon)


def rect(H, ref, P, ext, eps, area, mon):
    keep = H.copy()
    Q = ba.min_bounding_rect(H)
    mon.ev('rectangles')
    mon.need(np.array_equal(keep, H), 'input changed', 'hull was changed')
    mon.need(np.shape(Q) == (4, 2), 'rectangle', 'rectangle {}', Q)
    d = [Q[(i + 1) % 4] - Q[i] for i in range(4)]
    sc = 1e-9 * (ext + np.abs(P).max())
    mon.need(np.abs(d[0] + d[2]).max() <= sc and np.abs(d[1] + d[3]).max() <= sc and abs(d[0] @ d[1]) <= sc * (np.linalg.norm(d[0]) + np.linalg.norm(d[1])), 'rectangle', 'not a rectangle: {}', Q.tolist())
    o = Q[1]
    e1, e2 = Q[2] - o, Q[0] - o
    w, h = np.linalg.norm(e1), np.linalg.norm(e2)
    mon.need(e1[0] * e2[1] - e1[1] * e2[0] > 0, 'rectangle', 'corners {} are not counter-clockwise', Q.tolist())
    for v, L in ((e1 / w, w), (e2 / h, h)):
        c = (P - o) @ v
        mon.need(c.min() >= -10 * sc and c.max() <= L + 10 * sc, 'rectangle contains', 'points reach {} .. {} of the side {}', c.min(), c.max(), L)
    best = np.inf
    for a, b in zip(ref, np.roll(ref, -1, axis=0)):
        u = (b - a) / np.linalg.norm(b - a)
        x, y = (ref - a) @ u, (ref - a) @ np.array([-u[1], u[0]])
        best = min(best, (x.max() - x.min()) * (y.max() - y.min()))
    mon.need(w * h <= best + 1e-6 * best + 10 * sc * ext, 'rectangle area', 'area {} but {} is possible', w * h, best)
