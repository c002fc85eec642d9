"""Exact model of unions of unit cells of a cubic lattice (cells of all dimensions in doubled integer coordinates) for checks of the geometry wrapper."""
import itertools
import math
from collections import Counter
import numpy as np


def dim_of(c):
    return (c[0] & 1) + (c[1] & 1) + (c[2] & 1)


def block(lo, hi):
    """cells of the highest dimension of the closed box lo..hi (integer corners; equal coordinates give lower dimension)"""
    r = [range(2 * a + 1, 2 * b, 2) if a < b else (2 * a,) for a, b in zip(lo, hi)]
    return frozenset(itertools.product(*r))


def facets(c):
    for k in range(3):
        if c[k] & 1:
            for s in (-1, 1):
                yield c[:k] + (c[k] + s,) + c[k + 1:]


def closure(cells):
    out = set()
    for c in cells:
        out.update(itertools.product(*[(x - 1, x, x + 1) if x & 1 else (x,) for x in c]))
    return out


def boundary(cells):
    """facets with odd number of the cells"""
    c = Counter(f for x in cells for f in facets(x))
    return frozenset(f for f, n in c.items() if n & 1)


def normal(c):
    """for a 2-cell the axis of its normal"""
    return [k for k in range(3) if not c[k] & 1][0]


def components(cells, wall):
    """connected parts of cells of one dimension through facets that are not walls"""
    cells = set(cells)
    by_facet = {}
    for c in cells:
        for f in facets(c):
            if f not in wall:
                by_facet.setdefault(f, []).append(c)
    left, out = set(cells), []
    while left:
        stack = [left.pop()]
        comp = set(stack)
        while stack:
            for f in facets(stack.pop()):
                for d in by_facet.get(f, ()):
                    if d in left:
                        left.remove(d)
                        comp.add(d)
                        stack.append(d)
        out.append(frozenset(comp))
    return out


def coplanar_parts(cells):
    parts = {}
    for c in cells:
        k = normal(c)
        parts.setdefault((k, c[k]), set()).add(c)
    return parts


def walls(d, own, ents):
    """facets that split the entity with cells `own` of dimension d (2 or 3) in a fragment of entities [(dim, cells)]"""
    w = set()
    if d == 3:
        for e, cells in ents:
            w |= boundary(cells) if e == 3 else set(cells) if e == 2 else set()
    elif d == 2:
        some = next(iter(own))
        plane = (normal(some), some[normal(some)])
        for e, cells in ents:
            if e == 1:
                w |= set(cells)
            elif e >= 2:
                for p, part in coplanar_parts(cells if e == 2 else boundary(cells)).items():
                    if p == plane:
                        w |= boundary(part)
                    else:
                        w |= {c for c in closure(part) if dim_of(c) == 1}
        w = {c for c in w if c[plane[0]] == plane[1]}
    return w


class Frame:
    """similarity map of the lattice into the space and its steps for the code under test"""

    def __init__(self, rng, n, plain=False):
        self.k = 1.0
        self.A = np.eye(3)
        self.b = np.zeros(3)
        self.steps = []
        for _ in range(0 if plain else rng.choice([0, 1, 2, 3])):
            kind = rng.choice(['scale', 'rotate', 'translate'])
            c = [round(rng.uniform(-3, 3), 3) for _ in range(3)]
            if kind == 'scale':
                k = rng.choice([.5, 2., 3., .1])
                self.k *= k
                M = k * np.eye(3)
                step = ('scale', [k] * 3, c)
            elif kind == 'rotate':
                ax = [rng.choice([0, 0, 1, -1, 2, .5]) for _ in range(3)]
                ax = ax if any(ax) else [0, 0, 1]
                ang = rng.choice([math.pi / 2, math.pi, -math.pi / 2, .3, -1.1, 2.5])
                M = rotation(ax, ang)
                step = ('rotate', ax, ang, c)
            else:
                self.b = self.b + np.array(c)
                self.steps.append(('translate', c))
                continue
            if rng.random() < .5:
                c = [0, 0, 0]
                step = step[:-1]
            self.A = M @ self.A
            self.b = M @ (self.b - np.array(c)) + np.array(c)
            self.steps.append(step)

    def apply(self, obj, rng=None):
        for s in self.steps:
            args = [np.array(a, float) if isinstance(a, list) and rng and rng.random() < .3 else a for a in s[1:]]
            r = getattr(obj, s[0])(*args)
            assert r is obj
        return obj

    def point(self, x):
        return self.A @ np.array(x, float) + self.b

    def cell(self, c):
        return self.point([x / 2 for x in c])


def retry_frames(run, case, mon, Monitor, Violation):
    """OCC sometimes fails on geometry that is right; a fault of the code under test does not depend on the place of the model"""
    first = None
    for k in range(3):
        m = Monitor()
        try:
            run(dict(case, frame=k, plain=case['plain'] if k == 0 else False), m)
        except Violation as e:
            first = first or e
            continue
        if k:
            mon.ev('OCC failure in one of placements')
        mon.events.update(m.events)
        mon.sigs |= m.sigs
        mon.violations += m.violations
        return
    raise first


def rotation(axis, angle):
    a = np.array(axis, float)
    a = a / np.linalg.norm(a)
    K = np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])
    return np.eye(3) + math.sin(angle) * K + (1 - math.cos(angle)) * K @ K
