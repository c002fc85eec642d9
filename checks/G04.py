"""G04: healing a mesh leaves a conforming mesh of the same regions without bad elements, does not touch good meshes and ends."""
import copy
import os
import random
from collections import Counter, defaultdict
import numpy as np
from scipy.spatial import Delaunay
from vlib.core import Violation
from bgem.gmsh import gmsh_io, heal_mesh

LEVEL = 'exploration'
RULE = ('One execution = a conforming simplex mesh (Delaunay of points made to give slivers, short edges, flat faces; 2 or 3 dimensions; regions, boundary and interface '
        'elements, lines; sparse ids, shuffled nodes, scales, shifts; optionally duplicate, degenerate elements and coinciding nodes) healed by the real code. Monitors: '
        'structure, node to element map, regions, conformity (every free or interface face has its lower dimensional element), signed volume, quality, short edges, idempotence, '
        'the written file. Distinct = (dimension, defects, healing steps used).')
ASSUMPTIONS = ['conforming input of points, lines, triangles, tetrahedra', 'defects are isolated (healing of every step is local); the fraction of elements may at most double',
               'coinciding or very close nodes are at most few per cent of the mesh']
REQUIRED = {'healed': 60, 'good': 20, 'bad elements': 300, 'conforming': 100, 'volume exact': 40}
CPU_S = 120
NO_SHRINK = True
VERBOSE = True


def cases(tier, rng):
    out = []
    for i in range(320 if tier == 'quick' else 8000):
        out.append({'seed': rng.getrandbits(40), 'dim': rng.choice([2, 3, 3, 3]), 'n': rng.choice([5, 15, 40]) if i % 7 else 80, 'grid': rng.choice([3, 3, 4]),
                    'defect': rng.choice(['lattice', 'node', 'edge', 'face', 'tet', 'tet', 'mixed', 'none', 'none', 'boundary']), 'eps': 10 ** rng.uniform(-5, -1.5),
                    'extra': rng.choice(['', '', '', 'dupl', 'degen', 'coincide']), 'tol': rng.choice([.003, .01, .02, .02, .03]), 'node_tol': rng.choice([1e-4, 1e-4, 1e-5, 1e-6]),
                    'scale': rng.choice([1, 1, 600, 1e-3, 1e4]), 'shift': rng.choice([0, 0, 0, 1, 100, 1e4]), 'sparse': rng.random() < .4, 'np': rng.random() < .3,
                    'near': rng.random() < .35, 'flip': rng.random() < .3})
    return out


def points(case, rng, R):
    dim = case['dim']
    g = np.linspace(0, 1, case['grid'])
    P = []
    for a in g:
        for b in g:
            for c in (g if dim == 3 else [0.]):
                p = [a, b, c][:dim]
                if any(x in (0, 1) for x in p):
                    P.append(p)
    inner = [list(R.uniform(.05, .95, dim)) for _ in range(case['n'])]
    if rng.random() < .5:
        for _ in range(case['n'] // 3):
            inner.append(list(R.uniform(.05, .95, dim - 1)) + [.5])
    eps = case['eps']
    d = case['defect']
    if d == 'lattice':
        m = rng.choice([2, 3])
        h = .8 / m
        inner = []
        for idx in np.ndindex(*(m,) * dim):
            inner.append([.1 + h * (a + .5) + h * eps * R.uniform(-1, 1) for a in idx])
    elif d not in ('none', 'boundary'):
        kinds = {'node': 1, 'edge': 2, 'face': 3, 'tet': 4}
        base = [np.array(p) for p in inner]
        for _ in range(rng.randint(1, 4)):
            k = kinds.get(d) or rng.randint(1, 4)
            k = min(k, dim + 1)
            q = base[R.randint(len(base))]
            near = sorted(base, key=lambda p: np.linalg.norm(p - q))[:k]
            if d == 'tet' and len(near) == 4 and dim == 3:
                # fourth point into the plane and to the circle of the other three: flat quad
                a, b, c = near[:3]
                w = R.uniform(.3, .7, 2)
                x = a + (b - a) * w[0] + (c - a) * w[1] + (b + c - 2 * a) * .3
                x = x + eps * .2 * R.uniform(-1, 1, dim)
            else:
                w = R.dirichlet([2] * k)
                x = sum(wi * ci for wi, ci in zip(w, near)) + eps * .2 * R.uniform(-1, 1, dim)
            if .02 < x.min() and x.max() < .98:
                inner.append(list(x))
    elif d == 'boundary':
        for _ in range(rng.randint(1, 3)):
            p = list(R.uniform(.1, .9, dim))
            j = rng.randrange(dim)
            p[j] = eps * .3 if rng.random() < .5 else 1 - eps * .3
            inner.append(p)
    return np.array(P + inner)


def make(case):
    """-> GmshIO of a conforming mesh"""
    rng = random.Random(case['seed'])
    R = np.random.RandomState(rng.getrandbits(30))
    dim = case['dim']
    X = points(case, rng, R)
    cells = []
    for s in Delaunay(X).simplices:
        v = np.linalg.det(X[s[1:]] - X[s[0]])
        s = [int(i) for i in s]
        if (v < 0) != case['flip']:
            s[0], s[1] = s[1], s[0]
        cells.append((s, abs(v)))
    # exactly flat cells on the hull of the grid
    cells = [s for s, v in cells if not (v < 1e-12 and any((X[s][:, j] == e).all() for j in range(dim) for e in (0., 1.)))]
    used = sorted({i for s in cells for i in s})
    ids = rng.sample(range(1, 20 * len(used)), len(used)) if case['sparse'] else list(range(1, len(used) + 1))
    nid = dict(zip(used, ids))
    m = gmsh_io.GmshIO()
    for i in used:
        p = [(x + case['shift']) * case['scale'] for x in X[i]] + [0.0] * (3 - dim)
        m.nodes[nid[i]] = np.array(p) if case['np'] else p
    els = []
    sub = defaultdict(list)
    ax = rng.randrange(dim)
    for s in cells:
        reg = 1 if np.mean(X[s], axis=0)[ax] < .5 else 2
        r = s if rng.random() < .5 else s[1:3] + s[:1] + s[3:]            # even permutation
        els.append(({3: 2, 4: 4}[len(s)], [reg, reg], [nid[i] for i in r]))
        for o in range(dim + 1):
            sub[tuple(sorted(s[j] for j in range(dim + 1) if j != o))].append(reg)
    lines = defaultdict(int)
    for f, regs in sub.items():
        if len(regs) == 1 or regs[0] != regs[1]:
            g = list(f)
            rng.shuffle(g)
            t = 10 if len(regs) == 1 else 11
            els.append(({2: 1, 3: 2}[len(f)], [t, t], [nid[i] for i in g]))
            if t == 11 and dim == 3:
                for a in range(3):
                    lines[tuple(sorted((f[a], f[a - 1])))] += 1
    for f, c in lines.items():
        if c == 1:
            els.append((1, [20, 20], [nid[i] for i in f]))
    els.append((15, [30, 30], [rng.choice(ids)]))
    eids = rng.sample(range(1, 20 * len(els)), len(els)) if case['sparse'] else list(range(1, len(els) + 1))
    order = list(range(len(els)))
    rng.shuffle(order)
    for e, k in zip(eids, order):
        m.elements[e] = els[k]
    m.physical = {'"a"': (1, dim), '"b"': (2, dim)}
    top = max(m.elements)
    extra = case['extra']
    pick = [e for e in m.elements if len(m.elements[e][2]) == dim + 1]
    if extra == 'dupl':
        for k in range(rng.randint(1, 3)):
            t, tg, n = m.elements[rng.choice(pick)]
            n = n[1:3] + n[:1] + n[3:]
            m.elements[top + 1 + k] = (t, tg, n)
    elif extra == 'degen':
        for k in range(rng.randint(1, 3)):
            t, tg, n = m.elements[rng.choice(pick)]
            n = list(n)
            n[1] = n[0]
            m.elements[top + 1 + k] = (t, tg, n)
    elif extra == 'coincide':
        # an inner node doubled: cells on one side of a plane through the node use the copy
        hull = {i for f, r in sub.items() if len(r) == 1 for i in f}
        inn = [i for i in used if i not in hull]
        if inn:
            i = rng.choice(inn)
            new = max(m.nodes) + 1
            m.nodes[new] = copy.copy(m.nodes[nid[i]])
            for e, (t, tg, n) in list(m.elements.items()):
                if nid[i] in n and rng.random() < .5:
                    m.elements[e] = (t, tg, [new if k == nid[i] else k for k in n])
    return m


def gamma(X):
    return (heal_mesh.Triangle if len(X) == 3 else heal_mesh.Tetrahedron)(X).gmsh_gamma()


def bad_elements(m, tol, abs_tol):
    bad, short = [], []
    for e, (t, tg, n) in m.elements.items():
        if len(n) < 2:
            continue
        X = np.array([m.nodes[i] for i in n], dtype=float)
        L = [np.linalg.norm(X[i] - X[j]) for i in range(len(n)) for j in range(i)]
        if min(L) < abs_tol:
            short.append(e)
        if len(n) > 2:
            if not gamma(X) > tol:
                bad.append(e)
    return bad, short


def near_tolerance(m, tol, rng, mon):
    """tolerance just below the quality of an element touching a worse one: healing the latter may spoil the former"""
    q = {e: gamma(np.array([m.nodes[i] for i in n], dtype=float)) for e, (t, tg, n) in m.elements.items() if len(n) > 2}
    low = sorted((v, e) for e, v in q.items() if .002 < v < .05)
    pick = [v for v, e in low if any(q[f] < .9 * v and set(m.elements[f][2]) & set(m.elements[e][2]) for f in q if q[f] < .05)]
    if not pick:
        return tol
    mon.ev('near tolerance')
    return rng.choice(pick) * (1 - 10 ** rng.uniform(-3, -1))


def largest_cluster(m, els):
    """number of elements of the largest set of bad elements connected by nodes"""
    root = {}

    def find(i):
        while root.setdefault(i, i) != i:
            i = root[i]
        return i
    for e in els:
        n = m.elements[e][2]
        for i in n[1:]:
            root[find(i)] = find(n[0])
    return max(Counter(find(m.elements[e][2][0]) for e in set(els)).values(), default=0)


def duplicates(m):
    c = Counter((t, frozenset(n)) for t, tg, n in m.elements.values())
    return [k for k, v in c.items() if v > 1], [e for e, (t, tg, n) in m.elements.items() if len(set(n)) < len(n)]


def topology(m, dim):
    """faces of the cells that lack an element, faces with more than two cells, signed volume, volume of regions"""
    faces = defaultdict(list)
    vol = 0.0
    reg = Counter()
    seen = set()
    have = {frozenset(n) for t, tg, n in m.elements.values() if len(n) == dim}
    for e, (t, tg, n) in m.elements.items():
        if len(n) != dim + 1 or (t, frozenset(n)) in seen or len(set(n)) < len(n):
            continue
        seen.add((t, frozenset(n)))
        X = np.array([m.nodes[i] for i in n], dtype=float)[:, :dim]
        v = np.linalg.det(X[1:] - X[0])
        vol += v
        reg[tg[0]] += abs(v)
        for o in range(dim + 1):
            faces[frozenset(n[:o] + n[o + 1:] if isinstance(n, list) else list(n[:o]) + list(n[o + 1:]))].append(tg[0])
    free = [f for f, r in faces.items() if (len(r) == 1 or len(set(r)) > 1) and f not in have]
    multi = [(f, len(r)) for f, r in faces.items() if len(r) > 2]
    outer = {f for f, r in faces.items() if len(r) == 1}
    return free, multi, vol, reg, outer


class Log:
    """standard output of the code under test: which healing steps were used"""

    def __init__(self):
        self.text = []

    def write(self, s):
        self.text.append(s)

    def flush(self):
        pass


def steps(text):
    c = Counter()
    for name, pat in (('case merge', 'heal short edge'), ('case close', 'heal close nodes'), ('case quad', 'flat quad case'), ('case tria', 'flat tria case'),
                      ('case flat triangle', 'heal small triangle'), ('case dupl', 'heal dupl els'), ('case degen', 'heal degen node'), ('case side', 'degen side')):
        k = text.count(pat)
        if k:
            c[name] = k
    return c


def run(case, mon):
    import contextlib
    m = make(case)
    dim, tol = case['dim'], case['tol']
    if case['near']:
        tol = near_tolerance(m, tol, random.Random(case['seed']), mon)
    coords = np.array([list(p) for p in m.nodes.values()])
    diam = np.max(coords.max(axis=0) - coords.min(axis=0))
    abs_tol = case['node_tol'] * diam
    bad, short = bad_elements(m, tol, abs_tol)
    dup, deg = duplicates(m)
    cluster = largest_cluster(m, bad + short)
    free, multi, vol0, reg0, outer0 = topology(m, dim)
    if case['extra'] != 'coincide' and (free or multi):
        return mon.ev('generator: not conforming')
    orig = copy.deepcopy((m.nodes, m.elements, m.physical))
    path = os.path.join(os.environ['VERIF_SCRATCH'], 'h%d.msh' % os.getpid())
    log = Log()
    with contextlib.redirect_stdout(log), np.errstate(all='ignore'):
        if case['seed'] % 3 == 0:
            m.filename = path
            m.write_ascii()
            h = heal_mesh.HealMesh.read_mesh(path, case['node_tol'])
            m = h.mesh
        else:
            h = heal_mesh.HealMesh(m, path, case['node_tol'])
        h.heal_mesh(gamma_tol=tol)
    used = steps(''.join(log.text))
    for k, v in used.items():
        mon.ev(k, v)
    mon.ev('bad elements', len(bad))
    mon.state(dim, case['defect'], case['extra'], sorted(used), min(len(bad), 20))
    nodes, els = m.nodes, m.elements
    # structure
    for e, (t, tg, n) in els.items():
        mon.need(len(set(n)) == len(n) and all(i in nodes for i in n), 'structure', 'element {}: {}', e, n)
        mon.need(t == {1: 15, 2: 1, 3: 2, 4: 4}[len(n)], 'structure', 'element {} of type {} with nodes {}', e, t, n)
    d2, _ = duplicates(m)
    mon.need(not d2, 'duplicate elements', '{}', d2[:3])
    want = defaultdict(set)
    for e, (t, tg, n) in els.items():
        for i in n:
            want[i].add(e)
    mon.need(all(set(h.node_els.get(i, ())) == want[i] for i in nodes), 'node to element map', 'differs')
    mon.need(all(np.all(np.isfinite(np.array(p, dtype=float))) and len(p) == 3 for p in nodes.values()), 'structure', 'coordinates')
    # regions and identity of elements
    kinds = {(t, tuple(tg)) for t, tg, n in orig[1].values()}
    for e, (t, tg, n) in els.items():
        mon.need((t, tuple(tg)) in kinds, 'region', 'element {}: type {} tags {}', e, t, tg)
        if e in orig[1]:
            o = orig[1][e]
            mon.need(o[0] == t and list(o[1]) == list(tg) and set(o[2]) == set(n), 'element changed', 'element {}: {} was {}', e, (t, tg, n), o)
        else:
            mon.need(e > max(orig[1]), 'element number', 'new element {}', e)
    mon.need(m.physical == orig[2], 'physical names', '{}', m.physical)
    hit_limit = h.max_ele_id > 2 * max(orig[1])
    if not bad and not short and not dup and not deg:
        mon.ev('good')
        same = set(els) == set(orig[1]) and all(list(els[e][2]) == list(orig[1][e][2]) for e in els) and set(nodes) == set(orig[0]) and \
            all(list(nodes[i]) == list(orig[0][i]) for i in nodes)
        mon.need(same, 'good mesh changed', '{} elements were {}, steps {}', len(els), len(orig[1]), dict(used))
    else:
        mon.ev('healed')
    # conformity
    if case['extra'] != 'coincide':
        f2, m2, vol, reg, outer = topology(m, dim)
        mon.need(not f2, 'not conforming', '{} faces without neighbour or element, for example {}; steps {}', len(f2), [sorted(f) for f in f2[:2]], dict(used))
        # chains of touching bad elements: merging may glue two parts of one region along a face (then each pair of its cells is consistent)
        if m2 and cluster > 4 and all(k % 2 == 0 for f, k in m2):
            mon.ev('glued face')
            m2 = []
        mon.need(not m2, 'not conforming', '{} faces with more than two cells, steps {}', len(m2), dict(used))
        mon.ev('conforming')
        full = diam ** dim * (6 if dim == 3 else 2)         # volumes are determinants
        if outer == outer0 and all(list(nodes[i]) == list(orig[0][i]) for f in outer for i in f):
            mon.ev('volume exact')
            mon.need(abs(vol - vol0) <= 1e-9 * abs(vol0) * (1 + case['shift']), 'volume', 'signed volume {} was {}, steps {}', vol, vol0, dict(used))
        mon.need(abs(vol - vol0) <= .03 * abs(vol0), 'volume', 'signed volume {} was {}, steps {}', vol, vol0, dict(used))
        for r in reg0:
            mon.need(abs(reg[r] - reg0[r]) <= .1 * full, 'region volume', 'region {}: {} was {}', r, reg[r], reg0[r])
    # quality
    bad2, short2 = bad_elements(m, tol, abs_tol * .999)
    if not hit_limit:
        mon.need(not bad2, 'bad elements left', '{} (were {}), steps {}', bad2[:5], len(bad), dict(used))
        mon.need(not short2, 'close nodes left', '{} (were {}), steps {}', short2[:5], len(short), dict(used))
    else:
        mon.ev('limit')
    # healing is a fixed point; the file holds the healed mesh
    if not hit_limit:
        again = copy.deepcopy((nodes, els))
        with contextlib.redirect_stdout(Log()), np.errstate(all='ignore'):
            h2 = heal_mesh.HealMesh(m, path, case['node_tol'] * .99)
            h2.heal_mesh(gamma_tol=tol)
        mon.need(set(again[1]) == set(els) and all(list(again[1][e][2]) == list(els[e][2]) for e in els) and
                 all(list(again[0][i]) == list(nodes[i]) for i in nodes), 'not a fixed point', 'healed again: steps changed the mesh')
        mon.ev('fixed point')
    with contextlib.redirect_stdout(Log()):
        h.write()
        hp = path[:-4] + '_healed.msh'
        mon.need(os.path.exists(hp), 'written file', 'missing')
        g = gmsh_io.GmshIO(hp)
    mon.need(set(g.elements) == set(els) and all(g.elements[e][0] == els[e][0] and list(g.elements[e][2]) == list(els[e][2]) for e in els) and
             all(list(g.nodes[i]) == list(nodes[i]) for i in nodes), 'written file', 'differs from the mesh')
    os.unlink(hp)
    if os.path.exists(path):
        os.unlink(path)
