"""
Independent B-spline reference: Cox-de Boor in exact rational arithmetic, bottom up (all degrees of one interval at once),
and generators of knot vectors, bases, poles. Knows nothing about the code under test.
"""
from fractions import Fraction as Fr
import numpy as np


def interval(knots, deg, t):
    """Index k of the non-empty knot interval used for t: knots[k] <= t < knots[k+1], the last one for the end of the domain."""
    n = len(knots) - deg - 1
    k = None
    for i in range(deg, n):
        if knots[i] < knots[i + 1] and knots[i] <= t:
            k = i
    return k


def nonzero(knots, deg, t, k=None):
    """values of basis functions k-deg..k of the given degree at t (right limits; left at the end of the domain)"""
    t = Fr(t)
    if k is None:
        k = interval(knots, deg, t)
    N = [Fr(1)]
    for p in range(1, deg + 1):
        M = [Fr(0)] * (p + 1)
        for j in range(p):                      # function k-p+1+j of degree p-1
            a, b = Fr(knots[k - p + 1 + j]), Fr(knots[k + 1 + j])
            w = N[j] / (b - a)
            M[j] += (b - t) * w
            M[j + 1] += (t - a) * w
        N = M
    return k, N


def basis(knots, deg, t):
    n = len(knots) - deg - 1
    k, N = nonzero(knots, deg, t)
    out = [Fr(0)] * n
    for j, v in enumerate(N):
        out[k - deg + j] = v
    return out


def basis_diff(knots, deg, t):
    n = len(knots) - deg - 1
    out = [Fr(0)] * n
    if deg == 0:
        return out
    k = interval(knots, deg, Fr(t))
    _, N = nonzero(knots, deg - 1, t, k)        # functions k-deg+1..k of degree deg-1
    for j, v in enumerate(N):
        i = k - deg + 1 + j
        w = deg * v / (Fr(knots[i + deg]) - Fr(knots[i]))
        out[i] += w
        out[i - 1] -= w
    return out


def curve_point(knots, deg, poles, t, rational=False):
    B = basis(knots, deg, t)
    dim = len(poles[0]) - (1 if rational else 0)
    idx = [i for i, b in enumerate(B) if b]
    w = [Fr(float(poles[i][dim])) if rational else 1 for i in idx]
    den = sum(B[i] * wi for i, wi in zip(idx, w))
    return [sum(B[i] * wi * Fr(float(poles[i][d])) for i, wi in zip(idx, w)) / den for d in range(dim)]


def surface_point(ku, du, kv, dv, poles, u, v, rational=False):
    Bu, Bv = basis(ku, du, u), basis(kv, dv, v)
    dim = len(poles[0][0]) - (1 if rational else 0)
    num = [Fr(0)] * dim
    den = Fr(0)
    for i, a in enumerate(Bu):
        if not a:
            continue
        for j, b in enumerate(Bv):
            if not b:
                continue
            w = a * b * (Fr(float(poles[i][j][dim])) if rational else 1)
            den += w
            for d in range(dim):
                num[d] += w * Fr(float(poles[i][j][d]))
    return [x / den for x in num]


def gen_knots(rng, deg, max_int=6, unit=False, inner_mult=True):
    """JSON-able full knot vector, clamped; returns (knots, multiplicities of the breaks, breaks)"""
    n = rng.randint(1, max_int)
    kind = rng.choice(['eq', 'irr', 'irr', 'geo', 'int'])
    if kind == 'eq':
        br = [i / n for i in range(n + 1)]
    elif kind == 'geo':
        q = rng.choice([.02, .3, 3., 20.])
        s = [q ** i for i in range(n)]
        br = [0.]
        for x in s:
            br.append(br[-1] + x / sum(s))
        br[-1] = 1.
    elif kind == 'int':
        br = [float(i) for i in range(n + 1)]
    else:
        br = [0.] + sorted(rng.uniform(.02, .98) for _ in range(n - 1)) + [1.]
    if unit:
        br = [b / br[-1] for b in br]
    elif rng.random() < .5:
        a, b = rng.choice([(-1, 2), (10, .5), (1000, 300), (-.25, 1e-3), (-7, 7), (0, 1e4)])
        br = [a + b * x for x in br]
    br = sorted(set(br))
    mult = [deg + 1] + [(rng.randint(1, max(1, deg)) if inner_mult and rng.random() < .25 else 1) for _ in br[1:-1]] + [deg + 1]
    knots = [b for b, m in zip(br, mult) for _ in range(m)]
    return knots, mult, br


def probes(rng, br, n=8):
    """parameters: ends, knots, neighbours of knots, mid points, random"""
    out = [br[0], br[-1], float(np.nextafter(br[0], br[-1])), float(np.nextafter(br[-1], br[0]))]
    for b in rng.sample(br, min(3, len(br))):
        out += [b, min(br[-1], float(np.nextafter(b, np.inf))), max(br[0], float(np.nextafter(b, -np.inf)))]
    for _ in range(n):
        i = rng.randrange(len(br) - 1)
        out.append(min(max(br[i] + (br[i + 1] - br[i]) * rng.choice([.5, rng.random(), rng.random()]), br[0]), br[-1]))
    return out


def gen_poles(rng, shape, dim, rational=False, big=False):
    sc = rng.choice([1, 1, 100., 1e-3, 1e5]) if big else 1.
    off = [rng.choice([0, 0, 1e3, 1e6]) * sc if big else 0. for _ in range(dim)]

    def one():
        p = [off[d] + sc * rng.uniform(-1, 1) for d in range(dim)]
        return p + ([rng.choice([.1, .5, 1., 1., 2., 7.])] if rational else [])

    def rec(sh):
        return [rec(sh[1:]) if len(sh) > 1 else one() for _ in range(sh[0])]
    return rec(shape)
