"""G05: boolean operations of the geometry wrapper act on exactly the given point sets and every piece keeps the region of its source."""
import gc
import itertools
import random
from collections import Counter
import numpy as np
from vlib import geomodel as gm, gmshutil
from vlib.core import Violation, Monitor
from bgem.gmsh import gmsh as G

LEVEL = 'exploration'
RULE = ('One execution = boxes and rectangles on a lattice (touching, overlapping, nested, crossing, mixed dimensions, several regions), placed by a random similarity '
        'through the real constructors and transforms, then a random sequence of cut, intersect, fragment, split_by_cut, select_by_intersect, copy, group, region changes, '
        'splits and boundaries. After each operation every entity of the result is compared with an exact lattice model: which unit cells it contains (asking OCC '
        'point by point), its region, the masses, no entity extends over a separating wall, tools are preserved. Distinct = (operation, dimensions, overlap of arguments, number of pieces).')
ASSUMPTIONS = ['entities of a result are not used again after an operation consumed another set containing them', 'boundaries of an entity take part in operations only through copies',
               'cut and intersect: dimension of the tool is at least the dimension of the object']
REQUIRED = {'cells': 20000, 'op fragment': 50, 'op cut': 50, 'op intersect': 30, 'op ffragment': 30, 'op split_by_cut': 20, 'op select': 20, 'op boundary': 40, 'op boundary_per_region': 20}
NO_RLIMIT = True
NO_SHRINK = True
CPU_S = 120
N = 4


def cases(tier, rng):
    return [{'seed': rng.getrandbits(40), 'shapes': rng.choice([2, 3, 4, 6]), 'ops': rng.choice([1, 2, 3, 5]), 'plain': rng.random() < .4,
             'dims': rng.choice(['3', '3', '2', '23', '23'])} for _ in range(900 if tier == 'quick' else 30000)]


class Set:
    """an ObjectSet of the real code with its model: entities as (dim, lattice cells, region name)"""

    def __init__(self, obj, ents, conformal=False, base=()):
        self.obj, self.ents, self.conformal, self.base = obj, ents, conformal, set(base)

    def cells(self):
        c = Counter()
        for d, cells, reg in self.ents:
            for x in cells:
                c[x] += 1
        return c

    def dims(self):
        return sorted({e[0] for e in self.ents})


class World:
    def __init__(self, case, mon):
        self.rng = random.Random(case['seed'])
        self.mon = mon
        self.f = G.GeometryOCC('m', verbose=False)
        self.frame = gm.Frame(random.Random(case['seed'] + case.get('frame', 0)), N, case['plain'])
        self.frame_rng = random.Random(case['seed'])
        self.sets = []

    # ---- construction
    def shape(self, dims):
        rng = self.rng
        d = int(rng.choice(dims))
        lo = [rng.randrange(N) for _ in range(3)]
        hi = [rng.randint(a + 1, N) for a in lo]
        if d == 2:
            k = rng.choice([0, 1, 2, 2])
            lo[k] = hi[k] = rng.randint(0, N)
        side = [float(b - a) for a, b in zip(lo, hi)]
        mid = [(a + b) / 2 for a, b in zip(lo, hi)]
        how = rng.random()
        if d == 3:
            if how < .5:
                o = self.f.box(side, mid)
            else:
                o = self.f.box(side).translate(mid)
        elif k == 2 and how < .6:
            o = self.f.rectangle(side[:2], mid)
        else:
            i, j = [x for x in range(3) if x != k]
            pts = []
            for a, b in ((0, 0), (1, 0), (1, 1), (0, 1)):
                p = list(lo)
                p[i], p[j] = (lo, hi)[a][i], (lo, hi)[b][j]
                pts.append(p)
            r = rng.randrange(4)
            pts = pts[r:] + pts[:r]
            if rng.random() < .5:
                pts.reverse()
            o = self.f.make_polygon(np.array(pts, float) if rng.random() < .5 else pts)
        self.frame.apply(o, self.frame_rng)
        reg = rng.choice([None, 'a', 'b', 'c', 'd']) if d == 3 else rng.choice([None, 'f', 'g', 'h'])
        if reg:
            o.set_region(reg)
        else:
            reg = 'default_%dd' % d
        return Set(o, [(d, gm.block(lo, hi), reg)], True)

    # ---- observation
    def probe(self, obj, expected, what, where_to_look=None):
        """compare entities of the ObjectSet with expected {(dim, region): Counter(cells)}; -> entities of the model"""
        mon, f = self.mon, self.f
        mon.need(obj.factory is f and len(obj.dim_tags) == len(obj.regions) == obj.size, 'inconsistent set', '{}: {} {}', what, obj.dim_tags, obj.regions)
        f.synchronize()
        gmsh = G.gmsh
        universe = {}
        for (d, reg), c in expected.items():
            universe.setdefault(d, set()).update(c)
        for d, c in (where_to_look or {}).items():
            universe.setdefault(d, set()).update(c)
        pts = {d: [(c, self.frame.cell(c)) for c in cs] for d, cs in universe.items()}
        known = {}
        ents, got = [], {}
        mass = 0.
        for (d, t), r in zip(obj.dim_tags, obj.regions):
            mon.need(r.dim in (None, d), 'region dimension', '{}: {} of entity {}', what, r, (d, t))
            if (d, t) not in known:
                try:
                    bb = np.array(gmsh.model.getBoundingBox(d, t))
                except Exception as e:
                    raise Violation('missing entity', '%s: entity %s of the result: %s' % (what, (d, t), e))
                e = 1e-4 * self.frame.k
                cells = frozenset(c for c, p in pts.get(d, ()) if (p > bb[:3] - e).all() and (p < bb[3:] + e).all() and inside(d, t, p, e))
                m = f.model.getMass(d, t) / self.frame.k ** d
                if d == 3 and abs(m - len(cells)) > .1:
                    cells = self.by_boundary(t)
                mon.need(abs(m - len(cells)) < 1e-5 * (1 + m), 'entity not made of cells', '{}: entity {} of region {} has mass {} but contains {} cells of arguments', what, (d, t), r.name, m, len(cells))
                mon.ev('cells', len(cells))
                known[(d, t)] = cells
            cells = known[(d, t)]
            ents.append((d, cells, r.name))
            got.setdefault((d, r.name), Counter()).update(cells)
            mass += len(cells) * self.frame.k ** d
        for key in set(expected) | set(got):
            a, b = +expected.get(key, Counter()), +got.get(key, Counter())
            if a != b:
                miss, extra = a - b, b - a
                raise Violation('wrong cells', '%s: dimension %d region %s: missing %s, surplus %s (of %d)' % (what, key[0], key[1], sorted(miss)[:5], sorted(extra)[:5], sum(a.values())))
        mon.need(abs(obj.mass() - mass) <= 1e-6 * (1 + mass), 'mass', '{}: {} should be {}', what, obj.mass(), mass)
        return ents

    def by_boundary(self, t):
        """cells of a volume by parity of its boundary squares below (the OCC classifier fails for volumes with embedded faces)"""
        gmsh = G.gmsh
        e = 1e-4 * self.frame.k
        squares = Counter()
        for d, s in gmsh.model.getBoundary([(3, t)], combined=True, oriented=False):
            for c in itertools.product(range(1, 2 * N, 2), range(1, 2 * N, 2), range(0, 2 * N + 1, 2)):
                if inside(2, s, self.frame.cell(c), e):
                    squares[c] += 1
        return frozenset(c for c in itertools.product(range(1, 2 * N, 2), repeat=3) if sum(squares[c[0], c[1], z] for z in range(0, c[2], 2)) & 1)

    def split_check(self, before, ents, what):
        """no entity extends over a wall between parts of arguments"""
        for d in (2, 3):
            for src in before:
                if src[0] != d:
                    continue
                comps = None
                for e in ents:
                    if e[0] == d and e[1] & src[1]:
                        self.mon.need(e[1] <= src[1], 'not fragmented', '{}: piece {} not within {}', what, sorted(e[1])[:4], sorted(src[1])[:4])
                        if comps is None:
                            comps = gm.components(src[1], gm.walls(d, src[1], [b[:2] for b in before]))
                        self.mon.need(sum(1 for c in comps if c & e[1]) == 1, 'not fragmented', '{}: entity of dimension {} extends over a wall, cells {}', what, d, sorted(e[1])[:6])

    def gone(self, s, *results):
        """an operation consumed the set s: forget what shares its entities or depends on them"""
        mine = s.tags
        self.sets = [x for x in self.sets if x is not s and not (x.tags & mine) and not (x.base & mine)]

    def remember(self, *sets):
        for s in sets:
            s.tags = set(s.obj.dim_tags)
            if s.obj.size:
                self.sets.append(s)

    def pick(self, n=1, dims=None, no_base=True):
        ok = [s for s in self.sets if (dims is None or all(d in dims for d in s.dims())) and not (no_base and s.base)]
        return self.rng.sample(ok, n) if len(ok) >= n else None

    def independent(self, sets):
        """sets do not share entities and are not boundaries of each other"""
        return not any(a.tags & b.tags or a.base & b.tags or b.base & a.tags for a, b in itertools.combinations(sets, 2))


def inside(d, t, p, eps):
    m = G.gmsh.model
    if not m.isInside(d, t, p.tolist()):
        return False
    # for faces and curves OCC ignores the distance from them
    return d == 3 or np.linalg.norm(np.array(m.getClosestPoint(d, t, p.tolist())[0]) - p) < eps


def total(ents, f=lambda c, d: c):
    out = {}
    for d, cells, reg in ents:
        out.setdefault((d, reg), Counter()).update(f(cells, d))
    return out


def tool_cells(tools):
    cl = set()
    for t in tools:
        for d, cells, reg in t.ents:
            cl |= gm.closure(cells)
    return cl


def preserved(w, tools, what):
    for t in tools:
        w.mon.need(t.obj.dim_tags is not None and set(t.obj.dim_tags) == t.tags, 'tool changed', '{}: {}', what, t.obj.dim_tags)
        w.probe(t.obj, total(t.ents), what + ' (preserved tool)')


def consumed(w, s, what):
    w.mon.need(s.obj.dim_tags is None, 'object still valid', '{}: the consumed set still has {}', what, s.obj.dim_tags)
    w.gone(s)


def faces_touch(ents):
    """a rectangle lies in the boundary of a box: GMSH may then lose parts of the map from arguments to results"""
    b = set()
    for d, c, r in ents:
        if d == 3:
            b |= gm.boundary(c)
    return any(d == 2 and c & b for d, c, r in ents)


def operation(w):
    rng, mon = w.rng, w.mon
    op = rng.choice(['cut', 'cut', 'intersect', 'fragment', 'fragment', 'ffragment', 'ffragment', 'split_by_cut', 'select', 'copy', 'group', 'set_region', 'dimtag_regions', 'modify', 'split_region',
                     'split_dim', 'boundary', 'boundary', 'boundary_per_region', 'remove_small', 'select_boundary', 'ungrouped'])
    if op in ('cut', 'intersect', 'fragment'):
        s = w.pick(1)
        if not s:
            return
        s = s[0]
        if op == 'intersect' and len(s.dims()) > 1:
            return
        tools = w.pick(rng.choice([1, 1, 2, 3]), None if op == 'fragment' else [3] if max(s.dims()) == 3 else [2, 3], False)
        if not tools or not w.independent([s] + tools) or (len(s.dims()) > 1 and faces_touch(s.ents)) or (op == 'fragment' and faces_touch(s.ents + [e for t in tools for e in t.ents])):
            return mon.ev('skipped: rectangle in the boundary of a box')
        if op != 'fragment':
            if max(s.dims()) == 2 and len({d for t in tools for d in t.dims()}) > 1 and op == 'intersect':
                return
        cl = tool_cells(tools)
        if op == 'cut':
            exp = total(s.ents, lambda c, d: [x for x in c if x not in cl])
        elif op == 'intersect':
            exp = total(s.ents, lambda c, d: [x for x in c if x in cl])
        else:
            exp = total(s.ents)
        what = '%s %s by %s' % (op, s.dims(), [t.dims() for t in tools])
        r = getattr(s.obj, op)(*[t.obj for t in tools])
        ents = w.probe(r, exp, what)
        if op == 'fragment':
            w.split_check(s.ents + [e for t in tools for e in t.ents], ents, what)
        else:
            w.split_check(s.ents if op == 'intersect' else [], ents, what)
        consumed(w, s, what)
        preserved(w, tools, what)
        w.remember(Set(r, ents, op == 'fragment'))
        mon.state(op, s.dims(), [t.dims() for t in tools], len(ents), len(s.ents))
    elif op == 'ffragment':
        sets = w.pick(rng.choice([1, 2, 2, 3, 4]))
        if not sets or not w.independent(sets):
            return
        if faces_touch([e for s in sets for e in s.ents]):
            return mon.ev('skipped: rectangle in the boundary of a box')
        what = 'factory.fragment %s' % [s.dims() for s in sets]
        before = [e for s in sets for e in s.ents]
        res = w.f.fragment(*[s.obj for s in sets])
        mon.need(len(res) == len(sets), 'number of results', '{}: {}', what, len(res))
        new = []
        for s, r in zip(sets, res):
            ents = w.probe(r, total(s.ents), what)
            w.split_check(before, ents, what)
            new.append(Set(r, ents, True))
        # one common entity for a common piece: a cell is in a single entity of its dimension
        where = {}
        for n in new:
            for dt, e in zip(n.obj.dim_tags, n.ents):
                for c in e[1]:
                    mon.need(where.setdefault(c, dt) == dt, 'common piece twice', '{}: cell {} in {} and {}', what, c, where[c], dt)
        for s in sets:
            consumed(w, s, what)
        w.remember(*new)
        mon.state(op, [s.dims() for s in sets], [len(n.ents) for n in new])
    elif op == 'split_by_cut':
        s, t = w.pick(2) or (None, None)
        if not s or not w.independent([s, t]):
            return
        ca, cb = s.cells(), t.cells()
        if max(ca.values()) > 1 or max(cb.values()) > 1 or faces_touch(s.ents + t.ents):
            return
        what = 'split_by_cut %s %s' % (s.dims(), t.dims())
        two = rng.random() < .3 and len([x for x in w.sets if not x.base]) > 2
        before = s.ents + t.ents
        r = s.obj.split_by_cut(t.obj)
        mon.need(len(r) == 4, 'number of results', '{}', len(r))
        parts = [total(s.ents, lambda c, d: [x for x in c if x not in cb]), total(t.ents, lambda c, d: [x for x in c if x not in ca]),
                 total(s.ents, lambda c, d: [x for x in c if x in cb]), total(t.ents, lambda c, d: [x for x in c if x in ca])]
        new = []
        for o, e, nm in zip(r, parts, ('cut', 'tool rest', 'isec of object', 'isec of tool')):
            ents = w.probe(o, e, what + ' ' + nm)
            w.split_check(before, ents, what)
            new.append(Set(o, ents, True))
        mon.need(set(new[2].obj.dim_tags) == set(new[3].obj.dim_tags), 'intersections differ', '{}: {} {}', what, new[2].obj.dim_tags, new[3].obj.dim_tags)
        consumed(w, s, what)
        w.gone(t)
        w.remember(*new)
        mon.state(op, s.dims(), t.dims(), [len(n.ents) for n in new])
    elif op in ('select', 'select_boundary'):
        s = w.pick(1, None, False)
        if not s:
            return
        s = s[0]
        tools = w.pick(rng.choice([1, 1, 2]), [3] if max(s.dims()) == 3 else [2, 3] if max(s.dims()) == 2 else None, False)
        if not tools or len({d for x in [s] for d in x.dims()}) > 1 or len({d for t in tools for d in t.dims()}) > 1:
            return
        if s in tools:
            return
        exp, sure = [], True
        for i, (d, cells, reg) in enumerate(s.ents):
            hits = []
            for t in tools:
                for e, tc, treg in t.ents:
                    x = frozenset(c for c in cells if c in gm.closure(tc))
                    if x:
                        hits.append(x)
            if hits:
                exp.append(i)
                every = [x[:2] for y in [s] + tools for x in y.ents]
                others = [x[1] for x in s.ents if x[1] is not cells and x[1] & cells]
                if len(hits) > 1 or hits[0] != cells or others or d < 2 or len(gm.components(cells, gm.walls(d, cells, every))) > 1:
                    sure = False
        what = 'select_by_intersect %s by %s' % (s.dims(), [t.dims() for t in tools])
        try:
            r = s.obj.select_by_intersect(*[t.obj for t in tools])
        except G.BoolOperationError:
            mon.need(not sure, 'selection refused', '{}', what)
            mon.ev('selection refused')
            w.probe(s.obj, total(s.ents), what + ' (object)')
            return
        mon.need([tuple(x) for x in r.dim_tags] == [s.obj.dim_tags[i] for i in exp], 'selection', '{}: {} selected, should be {} of {}', what, r.dim_tags,
                 [s.obj.dim_tags[i] for i in exp], s.obj.dim_tags)
        mon.need([x.name for x in r.regions] == [s.ents[i][2] for i in exp], 'selection', '{}: regions {}', what, r.regions)
        w.probe(s.obj, total(s.ents), what + ' (object)')
        preserved(w, tools, what)
        op = 'select'
        mon.state(op, s.dims(), [t.dims() for t in tools], len(exp), len(s.ents))
    elif op == 'copy':
        s = w.pick(1, None, False)
        if not s:
            return
        s = s[0]
        c = s.obj.copy()
        mon.need(not set(c.dim_tags) & s.tags, 'copy', 'shares entities {} {}', c.dim_tags, s.obj.dim_tags)
        ents = w.probe(c, total(s.ents), 'copy')
        mon.need(ents == s.ents, 'copy', 'order of entities')
        w.remember(Set(c, ents, False))
    elif op in ('group', 'ungrouped'):
        sets = w.pick(rng.choice([2, 2, 3]))
        if not sets or not w.independent(sets):
            return
        g = w.f.group(*[s.obj for s in sets])
        mon.need(list(g.dim_tags) == [t for s in sets for t in s.obj.dim_tags] and list(g.regions) == [r for s in sets for r in s.obj.regions], 'group', '{}', g.dim_tags)
        ents = w.probe(g, total([e for s in sets for e in s.ents]), 'group')
        if op == 'group':
            for s in sets:
                w.sets.remove(s)
        w.remember(Set(g, ents))
    elif op == 'set_region':
        s = w.pick(1, None, False)
        if not s or len(s[0].dims()) > 1:
            return
        s = s[0]
        d = s.dims()[0]
        name = rng.choice(['abcd', 'fgh', 'e', 'p'][3 - d]) + rng.choice(['', '1'])
        r = s.obj.set_region(name) if rng.random() < .5 else s.obj.set_region(G.Region.get(name, d if rng.random() < .5 else None))
        mon.need(r is s.obj, 'set_region', 'result')
        s.ents = [(d, c, name) for d, c, reg in s.ents]
        w.probe(s.obj, total(s.ents), 'set_region')
        for x in w.sets:
            w.mon.need([g.name for g in x.obj.regions] == [e[2] for e in x.ents], 'other set changed', 'set_region: {} {}', x.obj.regions, [e[2] for e in x.ents])
    elif op == 'dimtag_regions':
        s = w.pick(1, None, False)
        if not s or any(len(x[2]) > 12 for x in s[0].ents):
            return
        s = s[0]
        s.obj.set_region_from_dimtag()
        s.ents = [(d, c, '%d_%d' % tuple(dt)) for (d, c, reg), dt in zip(s.ents, s.obj.dim_tags)]
        w.probe(s.obj, total(s.ents), 'set_region_from_dimtag')
        for x in w.sets:
            w.mon.need([g.name for g in x.obj.regions] == [e[2] for e in x.ents], 'other set changed', 'set_region_from_dimtag: {} {}', x.obj.regions, [e[2] for e in x.ents])
    elif op == 'modify':
        s = w.pick(1, None, False)
        if not s or len(s[0].dims()) > 1 or any(len(e[2]) > 12 for e in s[0].ents):
            return
        s = s[0]
        fmt = rng.choice(['x{}', '{}_y', '.{}'])
        r = s.obj.modify_regions(fmt)
        mon.need(r is s.obj, 'modify_regions', 'result')
        s.ents = [(d, c, fmt.format(reg)) for d, c, reg in s.ents]
        w.probe(s.obj, total(s.ents), 'modify_regions')
        ids = {}
        for g in s.obj.regions:
            mon.need(ids.setdefault(g.name, g.id) == g.id, 'modify_regions', 'two regions {}', g.name)
        for x in w.sets:
            w.mon.need([g.name for g in x.obj.regions] == [e[2] for e in x.ents], 'other set changed', 'modify_regions: {} {}', x.obj.regions, [e[2] for e in x.ents])
    elif op == 'split_region':
        s = w.pick(1, None, False)
        if not s or len(s[0].dims()) > 1:
            return
        s = s[0]
        parts = s.obj.split_by_region()
        want = {}
        for dt, r in zip(s.obj.dim_tags, s.obj.regions):
            want.setdefault(r.id, []).append(dt)
        mon.need(sorted((p.regions[0].id, sorted(p.dim_tags)) for p in parts) == sorted((k, sorted(v)) for k, v in want.items()), 'split_by_region', '{}', [(p.regions, p.dim_tags) for p in parts])
        mon.need(all(len({r.id for r in p.regions}) == 1 and len(p.regions) == len(p.dim_tags) for p in parts), 'split_by_region', 'regions')
    elif op == 'split_dim':
        s = w.pick(1, None, False)
        if not s:
            return
        s = s[0]
        parts = s.obj.split_by_dimension()
        mon.need(len(parts) == 4, 'split_by_dimension', '{}', len(parts))
        for d, p in enumerate(parts):
            want = [(dt, r.name) for dt, r in zip(s.obj.dim_tags, s.obj.regions) if dt[0] == d]
            mon.need(sorted(zip(p.dim_tags, [r.name for r in p.regions])) == sorted(want), 'split_by_dimension', '{}', p.dim_tags)
        mon.need(s.obj.have_common_dim() == (s.dims()[0] if len(s.dims()) == 1 else None), 'have_common_dim', '{} {}', s.obj.have_common_dim(), s.dims())
    elif op == 'boundary':
        s = w.pick(1, [2, 3], False)
        if not s or len(s[0].dims()) > 1 or any(dt in s[0].obj.dim_tags[:i] for i, dt in enumerate(s[0].obj.dim_tags)):
            return
        s = s[0]
        d = s.dims()[0]
        comb = rng.random() < .5
        if comb and not s.conformal:
            return
        b = s.obj.get_boundary(combined=comb)
        reg = 'default_%dd' % (d - 1)
        if comb:
            c = Counter(x for e in s.ents for x in gm.boundary(e[1]))
            exp = {(d - 1, reg): Counter(x for x, n in c.items() if n & 1)}
            ents = w.probe(b, exp, 'combined boundary')
        else:
            al = Counter(x for e in s.ents for x in gm.boundary(e[1]))
            n = Counter()
            known = w.probe_cells(b, set(al))
            for dt, cells in known:
                n.update(cells)
            for x in al:
                mon.need(1 <= n[x] <= al[x], 'boundary', 'cell {} of the boundary {} times, {} entities', x, n[x], al[x])
            mon.need(all(r.name == reg for r in b.regions) and set(n) == set(al), 'boundary', 'regions or surplus cells')
            ents = [(d - 1, cells, reg) for dt, cells in known]
        w.remember(Set(b, ents, False, s.tags | s.base))
        mon.state(op, d, comb, len(ents), len(s.ents))
    elif op == 'boundary_per_region':
        s = w.pick(1, [2, 3], False)
        if not s or len(s[0].dims()) > 1 or not s[0].conformal or any(dt in s[0].obj.dim_tags[:i] for i, dt in enumerate(s[0].obj.dim_tags)):
            return
        s = s[0]
        d = s.dims()[0]
        fmt = rng.choice([None, 'B_{}', '.{}'])
        bs = s.obj.get_boundary_per_region() if fmt is None else s.obj.get_boundary_per_region(fmt)
        by_id = {}
        for e, r in zip(s.ents, s.obj.regions):
            by_id.setdefault(r.id, (r.name, []))[1].append(e)
        mon.need(len(bs) == len(by_id), 'boundary per region', '{} sets for {} regions', len(bs), len(by_id))
        for b, (name, ents) in zip(bs, by_id.values()):
            c = Counter(x for e in ents for x in gm.boundary(e[1]))
            bn = (fmt or '.{}').format(name)
            w.probe(b, {(d - 1, bn): Counter(x for x, n in c.items() if n & 1)}, 'boundary of region ' + name)
            mon.need(len({r.id for r in b.regions}) <= 1, 'boundary per region', 'regions {}', b.regions)
        w.probe(s.obj, total(s.ents), 'boundary per region (object)')
        mon.state(op, d, len(bs), len(s.ents))
    elif op == 'remove_small':
        s = w.pick(1, None, False)
        if not s or len(s[0].dims()) > 1:
            return
        s = s[0]
        d = s.dims()[0]
        lim = rng.choice([.5, 1.5, 3.5, 6.5])
        tags = list(s.obj.dim_tags)
        r = s.obj.remove_small_mass(lim * w.frame.k ** d)
        keep = [i for i, e in enumerate(s.ents) if len(e[1]) > lim]
        mon.need(r is s.obj and list(s.obj.dim_tags) == [tags[i] for i in keep] and [x.name for x in s.obj.regions] == [s.ents[i][2] for i in keep], 'remove_small_mass', 'limit {} masses {}: kept {} of {} regions {}',
                 lim, [len(e[1]) for e in s.ents], s.obj.dim_tags, tags, s.obj.regions)
        s.ents = [s.ents[i] for i in keep]
        s.tags = set(s.obj.dim_tags)
        if not keep:
            w.sets.remove(s)
    mon.ev('op ' + op)


def probe_cells(self, obj, universe):
    f = self.f
    f.synchronize()
    pts = [(c, self.frame.cell(c)) for c in universe]
    out = []
    for d, t in obj.dim_tags:
        cells = frozenset(c for c, p in pts if gm.dim_of(c) == d and inside(d, t, p, 1e-4 * self.frame.k))
        m = f.model.getMass(d, t) / self.frame.k ** d
        self.mon.need(abs(m - len(cells)) < 1e-5 * (1 + m), 'entity not made of cells', 'boundary: entity {} has mass {} but contains {} cells', (d, t), m, len(cells))
        self.mon.ev('cells', len(cells))
        out.append(((d, t), cells))
    return out


World.probe_cells = probe_cells


def deduplicate(w):
    """the model with removed duplicates: the same point set, conforming, nothing twice"""
    gmsh, f, mon = G.gmsh, w.f, w.mon
    f.synchronize()
    pts = [(c, w.frame.cell(c)) for c in itertools.product(range(1, 2 * N, 2), repeat=3)]
    e = 1e-4 * w.frame.k
    squares = [(c, w.frame.cell(c)) for c in itertools.product(range(2 * N + 1), repeat=3) if sum(x % 2 for x in c) == 2]

    def near(some, d, t):
        bb = np.array(gmsh.model.getBoundingBox(d, t))
        return [c for c, p in some if (p > bb[:3] - e).all() and (p < bb[3:] + e).all() and inside(d, t, p, e)]

    def volumes():
        f.synchronize()
        out = []
        for d, t in gmsh.model.getEntities(3):
            cells = frozenset(near(pts, 3, t))
            m = f.model.getMass(3, t) / w.frame.k ** 3
            if abs(m - len(cells)) > .1:
                return None    # the OCC classifier
            out.append(cells)
        return out
    before = volumes()
    if not before or any(d == 2 and not gmsh.model.getAdjacencies(2, t)[0].size for d, t in gmsh.model.getEntities(2)):
        return
    f.remove_duplicate_entities()
    after = volumes()
    if after is None:
        return
    what = 'remove_duplicate_entities'
    count = Counter(c for v in after for c in v)
    mon.need(set(count) == {c for v in before for c in v}, 'wrong cells', '{}: {} cells from {}', what, len(count), len({c for v in before for c in v}))
    mon.need(max(count.values()) == 1, 'common piece twice', '{}: {} of {} cells', what, sum(n > 1 for n in count.values()), len(count))
    # neighbours share a face: each face is a face of one volume on the surface of the union, of two volumes inside
    for d, t in gmsh.model.getEntities(2):
        n = len(gmsh.model.getAdjacencies(2, t)[0])
        where = near(squares, 2, t)
        for c in where:
            k = [i % 2 for i in c].index(0)
            sides = sum(tuple(x + s * (i == k) for i, x in enumerate(c)) in count for s in (-1, 1))
            mon.need(n == sides, 'duplicate face', '{}: face {} has {} volumes and is between {} cells', what, t, n, sides)
    mon.ev('duplicates removed', len(before) != len(after) or len(count) < sum(map(len, before)))
    mon.ev('models without duplicates')


def run(case, mon):
    gm.retry_frames(run_once, case, mon, Monitor, Violation)


def run_once(case, mon):
    gmshutil.quiet()
    w = World(case, mon)
    try:
        for _ in range(case['shapes']):
            w.remember(w.shape(case['dims']))
        for s in list(w.sets):
            w.probe(s.obj, total(s.ents), 'constructed')
        if len(w.sets) > 2 and w.rng.random() < .5:
            a, b = w.rng.sample(w.sets, 2)
            g = w.f.group(a.obj, b.obj)
            w.sets.remove(a)
            w.sets.remove(b)
            w.remember(Set(g, a.ents + b.ents))
        n = 0
        for _ in range(case['ops'] * 6):
            before = dict(mon.events)
            operation(w)
            n += any(k.startswith('op ') and v != before.get(k) for k, v in mon.events.items())
            if n >= case['ops'] or not w.sets:
                break
        if w.rng.random() < .1:
            deduplicate(w)
    finally:
        gmshutil.close(w.f)
