"""G03: element quality measures have their geometric meaning for every shape and numbering; the statistics count every element once and list exactly the bad ones."""
import itertools
import math
import os
from fractions import Fraction as Fr
import numpy as np
from bgem.gmsh import gmsh_io, heal_mesh

LEVEL = 'exploration'
RULE = ('One execution = one triangle or tetrahedron (regular, random, needle, sliver, exactly flat, coinciding nodes; scales 1e-6 to 1e6) whose measures are compared with '
        'values computed from exact rational squares, under all node permutations, motions and scaling; or one mesh whose quality statistics (also the YAML output) are '
        'recounted. Distinct = (kind, magnitude of gamma).')
ASSUMPTIONS = ['finite coordinates', 'relative accuracy of gamma limited by cancellation: compared where the shape is not flatter than 1e-5', 'meshes of points, lines, triangles and tetrahedra']
REQUIRED = {'tetrahedra': 1000, 'triangles': 600, 'flat': 200, 'statistics': 60, 'bad elements': 60}


def gen_shape(rng, k=None):
    dim = rng.choice([2, 3, 3])
    k = k or rng.choice(['random', 'random', 'sliver', 'needle', 'flat', 'coincide', 'lattice', 'regular', 'circle'])
    n = dim + 1
    if k == 'lattice':
        P = [[float(rng.randint(-3, 3)) for _ in range(3)] for _ in range(n)]
    elif k == 'regular':
        P = [[1., 1., 1.], [1., -1., -1.], [-1., 1., -1.], [-1., -1., 1.]][:n]
    elif k == 'circle':
        P = [[math.cos(a), math.sin(a), 0.] for a in (rng.uniform(0, 6.28) for _ in range(n))] if rng.random() < .5 else \
            rng.sample([[3., 4., 0.], [5., 0., 0.], [-3., 4., 0.], [0., -5., 0.], [4., -3., 0.]], n)
    else:
        P = [[rng.uniform(-1, 1) for _ in range(3)] for _ in range(n)]
        if k in ('sliver', 'flat'):
            e = 0.0 if k == 'flat' else 10 ** rng.uniform(-6, -1)
            for p in P:
                p[2] = e * p[2]
            if dim == 2:
                for p in P:
                    p[1] = e * p[1]
        if k == 'needle':
            e = 10 ** rng.uniform(-6, -1)
            P[1] = [a + e * b for a, b in zip(P[0], P[1])]
        if k == 'coincide':
            P[1] = list(P[0])
    s = 10.0 ** rng.choice([0, 0, 0, -6, -3, 3, 6])
    P = [[s * x for x in p] for p in P]
    if k not in ('flat', 'coincide', 'lattice', 'circle') and rng.random() < .3:
        far = rng.choice([10, 10, 1e3, 1e6])
        o = [rng.uniform(-far, far) * s for _ in range(3)]
        P = [[a + b for a, b in zip(p, o)] for p in P]
    rng.shuffle(P)
    return k, P


def cases(tier, rng):
    out = []
    for i in range(12000 if tier == 'quick' else 400000):
        if i % 10 == 9:
            out.append({'kind': 'stats', 'shapes': [gen_shape(rng)[1] for _ in range(rng.randint(1, 12))], 'lines': rng.randint(0, 3),
                        'tol': rng.choice([.01, .02, .1, .5, 1e-6]), 'yaml': rng.random() < .3})
        else:
            k, P = gen_shape(rng)
            out.append({'kind': k, 'P': P, 'perm': rng.randrange(24), 'rot': [rng.gauss(0, 1) for _ in range(4)], 'scale': 10 ** rng.uniform(-2, 2)})
    return out


def exact(P):
    """exact squares of edges and faces, exact signed volume; then floats of the measures"""
    P = [[Fr(x) for x in p] for p in P]
    sub = lambda a, b: [x - y for x, y in zip(a, b)]
    cross = lambda a, b: [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
    dot = lambda a, b: sum(x * y for x, y in zip(a, b))

    def sq(x):
        # correctly scaled square root of a fraction
        if x == 0:
            return 0.0
        e = (x.numerator.bit_length() - x.denominator.bit_length()) // 2
        return math.ldexp(math.sqrt(float(x / Fr(4) ** e)), e)
    n = len(P)
    r = {}
    E = {(i, j): sq(dot(sub(P[j], P[i]), sub(P[j], P[i]))) for i in range(n) for j in range(i + 1, n)}
    r['edges'] = E
    tri = lambda a, b, c: (lambda v: sq(dot(v, v)) / 2)(cross(sub(b, a), sub(c, a)))
    mx = max(E.values())
    if n == 3:
        A = r['measure'] = tri(*P)
        a, b, c = E[1, 2], E[0, 2], E[0, 1]
        p = a * b * c
        r['gamma'] = 0.0 if not A else 16 * A * A / ((a + b + c) * p)      # 2 r / R = 2 (A/s) / (abc/4A)
        r['flow'] = 0.0 if not A else 4 / math.sqrt(3) * A / p ** (2 / 3)
        r['flat'] = 0.0 if not mx else 2 * A / mx / mx
    else:
        V = dot(sub(P[1], P[0]), cross(sub(P[2], P[0]), sub(P[3], P[0]))) / 6
        r['measure'] = float(V)
        v = abs(float(V))
        F = [tri(*[P[j] for j in range(4) if j != i]) for i in range(4)]
        r['faces'] = F
        prods = [E[0, 1] * E[2, 3], E[0, 2] * E[1, 3], E[0, 3] * E[1, 2]]
        a, b, c = prods
        if v == 0:
            r['gamma'] = r['flow'] = r['flat'] = 0.0
        else:
            R = math.sqrt(max(0, (a + b + c) * (a + b - c) * (a - b + c) * (-a + b + c))) / 24 / v
            r['R'] = R
            r['cancel'] = min(a + b - c, a - b + c, -a + b + c) / max(prods)
            r['gamma'] = 9 * v / sum(F) / R if R else math.inf
            # pairs of faces and their common edge: faces opposite to i and j share the edge of the two other nodes
            s = 0.0
            for i in range(4):
                for j in range(i + 1, 4):
                    k, l = [m for m in range(4) if m not in (i, j)]
                    s += F[i] * F[j] * E[k, l] ** 2
            r['flow'] = v * (sum(F) / s) ** .75 / (2 * math.sqrt(2 / 3) / 9)
            r['flat'] = 3 * v / max(F) / mx
    return r


def shape_of(P):
    return (heal_mesh.Triangle if len(P) == 3 else heal_mesh.Tetrahedron)(np.array(P))


def close(a, b, tol, scale=None):
    return abs(a - b) <= tol * (scale if scale is not None else max(abs(a), abs(b)))


def run(case, mon):
    if case['kind'] == 'stats':
        return stats(case, mon)
    P = case['P']
    n = len(P)
    ref = exact(P)
    sh = shape_of(P)
    mon.ev('tetrahedra' if n == 4 else 'triangles')
    with np.errstate(all='ignore'):
        g, fl, fi, se, me = sh.gmsh_gamma(), sh.smooth_grad_error_indicator(), sh.flat_indicator(), sh.small_edge_ratio(), sh.measure
    mx, mn = max(ref['edges'].values()), min(ref['edges'].values())
    size = max(abs(x) for p in P for x in p) + mx
    amp = 1e-15 * (size / mx if mx else 1)            # relative accuracy of differences of coordinates
    flatness = ref['flat']
    mon.state(case['kind'], n, int(math.log10(max(ref['gamma'], 1e-30)) * 2), int(math.log10(mx or 1)))
    mon.need(close(abs(me), abs(ref['measure']), 40 * amp, mx ** (n - 1)) and (n == 3 or me * ref['measure'] >= 0 or abs(ref['measure']) < 40 * amp * mx ** 3), 'measure',
             '{} expected {} for {}', me, ref['measure'], P)
    mon.need(len(sh.edge_lens) == len(ref['edges']) and all(close(x, y, 40 * amp, mx) for x, y in zip(sorted(sh.edge_lens), sorted(ref['edges'].values()))), 'edges', '{} expected {}',
             sh.edge_lens, ref['edges'])
    mon.need(close(se, mn / mx if mx else 0, 40 * amp, 1), 'small edge ratio', '{} expected {}', se, mn / mx if mx else 0)
    mon.need(close(fi, flatness, 300 * amp, 1) or flatness < 1e-6 and 0 <= fi < 1e-5, 'flat indicator', '{} expected {}', fi, flatness)
    for name, v in (('gamma', g), ('flow', fl)):
        mon.need(not math.isnan(v) and -1e-9 <= v <= 1 + 1e-9, name + ' range', '{} for {}', v, P)
    if ref['gamma'] == 0 or flatness < 1e-13:
        mon.ev('flat')
        mon.need(g <= 1e-6 and fl <= 1e-5, 'flat element has quality', 'gamma {} flow {} for {}', g, fl, P)
    elif flatness > 1e-5 and mn > 1e-5 * mx:
        tol = 1e-14 * size / mx / min(flatness, mn / mx) ** 2 * 100
        if ref.get('cancel', 1) > 1e-6:
            mon.need(close(g, ref['gamma'], min(.3, tol / ref.get('cancel', 1)), 1 if tol > 1e-6 else None), 'gamma', '{} expected {} for {}', g, ref['gamma'], P)
        mon.need(close(fl, ref['flow'], min(.3, tol), 1 if tol > 1e-6 else None), 'flow', '{} expected {} for {}', fl, ref['flow'], P)
        if case['kind'] == 'regular':
            mon.need(abs(g - 1) < 1e-12 + 1e3 * amp and abs(fi - (math.sqrt(2 / 3) if n == 4 else math.sqrt(3) / 2)) < 1e-12 + 1e3 * amp, 'regular', '{} {}', g, fi)
        # the same for every numbering, position and scale
        perms = list(itertools.permutations(range(n)))
        a, b, c, d = (np.array(case['rot']) / np.linalg.norm(case['rot']))
        Q = np.array([[1 - 2 * (c * c + d * d), 2 * (b * c - a * d), 2 * (b * d + a * c)], [2 * (b * c + a * d), 1 - 2 * (b * b + d * d), 2 * (c * d - a * b)],
                      [2 * (b * d - a * c), 2 * (c * d + a * b), 1 - 2 * (b * b + c * c)]])
        for p in perms if case['perm'] % 4 == 0 else [perms[case['perm'] % len(perms)]]:
            X = case['scale'] * np.array(P)[list(p)] @ Q.T
            s2 = shape_of(X)
            mon.ev('transformed')
            t2 = max(1e-9, min(.3, 10 * tol / ref.get('cancel', 1)))
            mon.need(close(s2.gmsh_gamma(), g, t2) and close(s2.smooth_grad_error_indicator(), fl, t2), 'invariance', 'permutation {}: gamma {} {} flow {} {}', p, g,
                     s2.gmsh_gamma(), fl, s2.smooth_grad_error_indicator())
            if n == 4:
                par = sum(p[i] > p[j] for i in range(4) for j in range(i + 1, 4)) % 2
                mon.need(close(s2.measure, (-1) ** par * me * case['scale'] ** 3, t2), 'orientation', 'permutation {}: volume {} of {}', p, s2.measure, me)
    if n == 4:
        X = np.array(P)
        mon.need(all(close(x, y, 100 * amp, mx * mx) for x, y in zip(sorted(sh.face_areas), sorted(ref['faces']))), 'faces', '{} expected {}', sh.face_areas, ref['faces'])
        # normals: each orthogonal to its face, all outer or all inner (according to the orientation of nodes)
        if flatness > 1e-4:
            for f, nrm, area in zip(sh.vtxs_faces, sh.face_normals, sh.face_areas):
                opp = ({0, 1, 2, 3} - set(f)).pop()
                out = -np.sign(me) * (nrm @ (X[opp] - X[f[0]]))
                mon.need(abs(np.linalg.norm(nrm) - 2 * area) <= 1e-9 * mx * mx and max(abs(nrm @ (X[f[1]] - X[f[0]])), abs(nrm @ (X[f[2]] - X[f[0]]))) <= 1e-9 * size * mx ** 2
                         and out >= 0, 'face normals', 'face {}: normal {} of {}', f, nrm, P)
            dist, nv = sh.skew_line_dist()
            a_, b_ = X[1] - X[0], X[3] - X[2]
            mon.need(abs(abs(dist) * np.linalg.norm(np.cross(a_, b_)) - 6 * abs(me)) <= 1e-9 * size * mx ** 2 and abs(nv @ a_) + abs(nv @ b_) <= 1e-6 * mx, 'skew distance', '{} {}', dist, nv)
        elif mx > 0:
            nv = sh.common_normal()
            # no direction is much closer to orthogonal to all edges
            mon.need(abs(np.linalg.norm(nv) - 1) < 1e-9 and np.max(np.abs(np.array(sh.edge_vectors) @ nv)) <= 10 * (flatness + amp * 10) * mx, 'common normal', '{} for {}', nv, P)


def stats(case, mon):
    m = gmsh_io.GmshIO()
    nid = eid = 0
    for P in case['shapes']:
        ids = []
        for p in P:
            nid += 1
            m.nodes[nid] = p
            ids.append(nid)
        eid += 3
        m.elements[eid] = ({3: 2, 4: 4}[len(P)], [1, 1], ids)
    for i in range(case['lines']):
        eid += 1
        m.elements[eid] = (1, [2, 2], [1, 2]) if i % 2 else (15, [3, 3], [1])
    import copy
    keep = copy.deepcopy((m.nodes, m.elements))
    h = heal_mesh.HealMesh(m)
    mon.ev('statistics')
    with np.errstate(all='ignore'):
        hist, bins, bad = h.quality_statistics(bad_el_tol=case['tol'])
    mon.need(set(hist) == set(bad) == {'flow_stats', 'gamma_stats'}, 'statistics', 'names {} {}', list(hist), list(bad))
    mon.need(list(bins[:-1]) == [2.0 ** k for k in range(-15, 1)] and bins[-1] == math.inf, 'bins', '{}', bins)
    for name, meth in (('flow_stats', 'smooth_grad_error_indicator'), ('gamma_stats', 'gmsh_gamma')):
        q = {}
        for e, (t, tg, ids) in m.elements.items():
            if len(ids) > 2:
                with np.errstate(all='ignore'):
                    q[e] = getattr(shape_of([m.nodes[i] for i in ids]), meth)()
        mon.need(sorted(bad[name]) == sorted(e for e in q if q[e] <= case['tol']), 'bad elements', '{} {} expected {}', name, bad[name], {e: v for e, v in q.items() if v <= case['tol']})
        mon.ev('bad elements', len(bad[name]))
        want = [0] * len(bins)
        for v in q.values():
            want[next(i for i, b in enumerate(bins) if v < b)] += 1
        mon.need(list(hist[name]) == want, 'histogram', '{} {} expected {}', name, hist[name], want)
        mon.ev('counted', len(q))
    if case['yaml']:
        import yaml
        path = os.path.join(os.environ['VERIF_SCRATCH'], 's%d.yaml' % os.getpid())
        with np.errstate(all='ignore'):
            h.stats_to_yaml(path, el_tol=case['tol'])
        with open(path) as f:
            y = yaml.safe_load(f)
        os.unlink(path)
        for name in hist:
            mon.need(y[name]['hist'] == hist[name].tolist() and y[name]['bins'] == bins.tolist() and y[name]['bad_elements'] == bad[name] and y[name]['bad_el_tol'] == case['tol'],
                     'yaml', '{}', y[name])
    mon.need((m.nodes, m.elements) == keep, 'mesh changed', 'statistics changed the mesh')
