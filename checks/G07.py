"""G07: the mesh of a geometry is conforming, fills exactly the entities of the given objects and its physical groups are their regions."""
import gc
import itertools
import os
import random
from collections import Counter
import numpy as np
from vlib import geomodel as gm, gmshutil, mshref
from vlib.core import Violation, Monitor
from checks.G05 import World, Set, total, faces_touch
from bgem.gmsh import gmsh as G, options

LEVEL = 'exploration'
RULE = ('One execution = boxes and rectangles on a lattice fragmented, given regions (equal names, equal regions of several sets, boundary regions), placed by a random similarity; some of the sets, '
        'boundaries and steps are passed to make_mesh with or without elimination of other shapes, to dimension 1, 2 or 3. The written mesh (own parser) and the mesh in GMSH are compared with '
        'the lattice model: physical groups one to one with regions, each element inside of cells of its region, measures, every face and edge shared by as many elements as it must be, steps of '
        'curves, no other elements; other formats are read again; after reinit another model follows in the same factory. Distinct = (dimensions, elimination, number of regions, entities).')
ASSUMPTIONS = ['all shapes are fragmented together before meshing', 'one make_mesh for a model', 'a region has entities of one dimension']
REQUIRED = {'elements': 20000, 'physical groups': 300, 'faces': 20000, 'eliminated': 20, 'steps': 50, 'unique names': 20, 'formats': 50, 'models': 200}
NO_RLIMIT = True
NO_SHRINK = True
CPU_S = 120
DIM = {15: 0, 1: 1, 2: 2, 4: 3}


def cases(tier, rng):
    return [{'seed': rng.getrandbits(40), 'shapes': rng.choice([1, 2, 2, 3, 4]), 'plain': rng.random() < .4, 'dims': rng.choice(['3', '3', '2', '23', '23'])}
            for _ in range(250 if tier == 'quick' else 6000)]


def run(case, mon):
    gm.retry_frames(run_once, case, mon, Monitor, Violation)


def run_once(case, mon):
    gmshutil.quiet()
    gmshutil.workdir()
    w = World(case, mon)
    try:
        mon.need(sole(), 'second factory', 'the second factory was made')
        for i in range(2):
            model(w, case, mon)
            w.f.reinit()
            mon.need(not w.f.all_entities(), 'reinit', 'entities left {}', w.f.all_entities()[:5])
            w.sets = []
    finally:
        gmshutil.close(w.f)


def sole():
    try:
        G.GeometryOCC('other')
    except Exception:
        gc.collect()
        return True
    return False


def uv(w, p):
    """doubled lattice coordinates of a point"""
    fr = w.frame
    return 2 * np.linalg.solve(fr.A, np.array(p, float) - fr.b)


def cell_of(x):
    """the lattice cell of a point of doubled coordinates: even coordinates are exact"""
    out = []
    for a in x:
        e = round(a / 2) * 2
        out.append(e if abs(a - e) < 1e-5 else int(a // 2) * 2 + 1)
    return tuple(out)


def around(c):
    """cells of all dimensions whose closure contains the cell"""
    return itertools.product(*[(x,) if x & 1 else (x - 1, x, x + 1) for x in c])


def measure(P):
    P = np.array(P)
    E = P[1:] - P[0]
    if len(E) == 0:
        return 1.
    return float(np.sqrt(max(0., np.linalg.det(E @ E.T)))) / [1, 1, 2, 6][len(E)]


def model(w, case, mon):
    rng, f = w.rng, w.f
    gmsh = G.gmsh
    raw = [w.shape(case['dims']) for _ in range(case['shapes'])]
    while faces_touch([e for s in raw for e in s.ents]):
        raw.pop()
    # ---- regions: names shared by several regions, one region of several sets
    byname = {}
    clash = rng.random() < .3
    if len({s.ents[0][0] for s in raw}) == 1 and rng.random() < .5:
        for s in raw:
            s.obj.set_region('of any dimension')
    for s in raw:
        d = s.ents[0][0]
        r = .55 if clash else rng.random()
        if r < .3:
            name = s.ents[0][2].replace('default_', 'def')
            s.obj.set_region(G.Region.get(name + str(d)) if rng.random() < .5 else G.Region.get(name + str(d), d))
        elif r < .5:
            name = 'reg%d' % d
            reg = byname.setdefault(name, G.Region.get(name, d))
            s.obj.set_region(reg)
        elif clash:
            s.obj.set_region(G.Region.get(rng.choice(['a%d', 'a%d', 'a%d_0', 'a%d_1', 'a%d_0_0']) % d))
        elif r < .6:
            s.obj.set_region(rng.choice(['a%d', 'a%d_0', 'a%d_1']) % d if rng.random() < .5 else G.Region.get('a%d' % d, d))
        s.ents = [(d, s.ents[0][1], s.obj.regions[0].name)]
    what = 'fragment of %s' % [s.dims() for s in raw]
    if len(raw) == 1 and rng.random() < .5:
        sets = raw
    else:
        res = f.fragment(*[s.obj for s in raw])
        sets = [Set(r, w.probe(r, total(s.ents), what), True) for s, r in zip(raw, res)]
    everything = [e for s in sets for e in s.ents]
    # ---- objects: some of the sets, with boundaries
    objs = list(sets)
    if rng.random() < .5 and len(sets) > 1:
        objs = rng.sample(sets, rng.randint(1, len(sets) - 1))
    boundaries = []
    bases = list(objs)
    for s in bases:
        if rng.random() < .35:
            d = s.dims()[0]
            uni = {c for x in (s.ents) for c in gm.boundary(x[1])}
            if rng.random() < .5:
                bs = s.obj.get_boundary_per_region(rng.choice(['.{}', 'B{}', '{}']))
            else:
                bs = [s.obj.get_boundary(combined=rng.random() < .5)]
                if rng.random() < .7:
                    bs[0].set_region(rng.choice(['bound%d', 'a%d', 'a%d_1']) % (d - 1))
            for b in bs:
                if b.size:
                    boundaries.append(Set(b, [(d - 1, cells, r.name) for (dt, cells), r in zip(w.probe_cells(b, uni), b.regions)]))
    objs += boundaries
    rng.shuffle(objs)
    # ---- mesh parameters
    k = w.frame.k
    size = rng.choice([.7, 1., 1.6])
    m = options.Mesh()
    m.CharacteristicLengthMin = 0.
    m.CharacteristicLengthMax = size * k
    m.MinimumCurvePoints = 2    # straight lines are general curves after scaling
    if rng.random() < .3:
        m.Algorithm3D = rng.choice([options.Algorithm3d.Delaunay, options.Algorithm3d.HXT])
    if rng.random() < .3:
        m.Algorithm = rng.choice([options.Algorithm2d.MeshAdapt, options.Algorithm2d.Delaunay, options.Algorithm2d.FrontalDelaunay])
    f.synchronize()
    step = None
    curves = set()
    if rng.random() < .5:
        s = rng.choice(objs)
        step = rng.choice([.3, .4]) * size * k
        o = s.obj
        if rng.random() < .3:
            while o.dim_tags[0][0]:
                o = o.get_boundary(combined=False)    # its points
        o.set_mesh_step(step)
        lower = gmsh.model.getBoundary(s.obj.dim_tags, combined=False, oriented=False, recursive=True)
        pts = {x for x in lower if x[0] == 0}
        for c in gmsh.model.getEntities(1):
            if set(gmsh.model.getBoundary([c], oriented=False)) <= pts:
                curves.add(tuple(c))
    top = max(d for s in objs for d in s.dims())
    mdim = top if rng.random() < .8 else rng.randint(1, 3)
    elim = rng.random() < .6
    # ---- expected
    def clos(dts):
        out = set(map(tuple, dts))
        for dt in list(out):
            d = [dt]
            while d:
                d = [tuple(x) for x in gmsh.model.getBoundary(d, combined=False, oriented=False)] if d[0][0] > 0 else []
                out |= set(d)
        return out
    mine = clos([dt for s in objs for dt in s.obj.dim_tags])
    every = set(map(tuple, gmsh.model.getEntities()))
    inner = set()    # embedded in an object, belongs to its shape
    for d, e in mine:
        if d >= 2:
            inner |= clos(gmsh.model.mesh.getEmbedded(d, e))
    keep = mine if elim else every
    expected = {}
    for s in objs:
        for dt, reg, e in zip(s.obj.dim_tags, s.obj.regions, s.ents):
            x = expected.setdefault(reg.id, {'reg': reg, 'name': reg.name, 'dim': dt[0], 'cells': set(), 'ents': set()})
            mon.need(e[2] == reg.name and x['dim'] == dt[0], 'region of an entity', '{} {} {}', dt, reg, e[2])
            x['cells'] |= e[1]
            x['ents'].add(tuple(dt))
    args = [s.obj for s in objs]
    what = 'mesh of %s dim %d%s, steps %s %s' % ([(s.dims(), s.obj.size) for s in objs], mdim, ' eliminate' if elim else '', size, step)
    f.make_mesh(args, mdim, elim) if rng.random() < .5 else f.make_mesh(args, dim=mdim, eliminate=elim)
    mon.ev('models')
    if elim and every - mine:
        mon.ev('eliminated')
    # ---- the mesh in GMSH
    now = set(map(tuple, gmsh.model.getEntities()))
    mon.need(keep <= now <= keep | inner, 'entities of the model', '{}: missing {}, surplus {}', what, sorted(keep - now)[:5], sorted(now - keep - inner)[:5])
    keep = now
    nodes, els = gmshutil.api_mesh(gmsh)
    meshed = {(d, e) for t, ns, d, e in els.values()}
    want = {x for x in keep if x[0] <= mdim}
    mon.need(meshed == want, 'meshed entities', '{}: not meshed {}, surplus {}', what, sorted(want - meshed)[:5], sorted(meshed - want)[:5])
    if step:
        for d, e in curves & meshed:
            lens = [np.linalg.norm(np.subtract(nodes[ns[0]], nodes[ns[1]])) for t, ns, dd, ee in els.values() if (dd, ee) == (1, e)]
            mon.need(max(lens) <= 1.6 * step and min(lens) >= .4 * step, 'mesh step', '{}: curve {} has segments {} to {}', what, e, min(lens), max(lens))
            mon.ev('steps')
    for t, ns, d, e in els.values():
        if d == 1 and (1, e) not in curves:
            l = np.linalg.norm(np.subtract(nodes[ns[0]], nodes[ns[1]]))
            mon.need(l <= 1.6 * size * k, 'mesh step', '{}: curve {} has segment {}', what, e, l)
    # ---- the written file
    name = rng.choice(['out.msh2', 'out.dir/x.y.msh2', os.path.abspath('abs.msh2')])
    os.makedirs('out.dir', exist_ok=True)
    f.write_mesh(name)
    msh = mshref.parse_ascii(open(name).read())
    groups = {x['reg'].name: x for x in expected.values()}
    names = Counter(x['name'] for x in expected.values())
    mon.need(len(groups) == len(expected), 'names of regions not unique', '{}: {}', what, sorted((x['name'], x['reg'].name, x['reg'].id) for x in expected.values()))
    for g, x in groups.items():
        if names[x['name']] == 1:
            mon.need(g == x['name'], 'name of a region', '{}: {} instead of {}', what, g, x['name'])
        else:
            mon.need(g.startswith(x['name'] + '_') and g[len(x['name']) + 1:].isdigit(), 'name of a region', '{}: {} instead of {}', what, g, x['name'])
            mon.ev('unique names')
    phys = {n.strip('"'): v for n, v in msh['physical'].items()}
    mon.need(set(phys) == set(groups), 'physical names', '{}: {} instead of {}', what, sorted(phys), sorted(groups))
    mon.need(len({v for v in phys.values()}) == len(phys), 'physical names', '{}: repeated ids {}', what, phys)
    mon.ev('physical groups', len(phys))
    for n, (i, d) in phys.items():
        mon.need(d == groups[n]['dim'], 'physical dimension', '{}: {} {} instead of {}', what, n, d, groups[n]['dim'])
    by_phys = {(d, i): n for n, (i, d) in phys.items()}
    got = Counter()
    shapes = [set() for _ in range(4)]
    seen = set()
    pos = {i: uv(w, p) for i, p in msh['nodes'].items()}
    for i, (t, tags, ns) in msh['elements'].items():
        mon.need(t in DIM, 'element type', '{}: {}', what, t)
        d = DIM[t]
        mon.need((d, tags[0]) in by_phys, 'physical id of an element', '{}: {} of dimension {}, groups {}', what, tags, d, phys)
        x = groups[by_phys[d, tags[0]]]
        mon.need((d, tags[1]) in x['ents'], 'entity of an element', '{}: element of {} is from entity {}, should be {}', what, x['reg'].name, tags[1], sorted(x['ents'])[:5])
        mon.need((d, tags[0], frozenset(ns)) not in seen, 'repeated element', '{}: {} {}', what, i, ns)
        seen.add((d, tags[0], frozenset(ns)))
        P = [pos[n] for n in ns]
        v = measure(P)
        mon.need(d == 0 or v > 1e-9, 'degenerate element', '{}: {} {}', what, i, ns)
        c = cell_of(np.mean(P, axis=0))
        mon.need(any(y in x['cells'] for y in around(c)), 'element outside of its region', '{}: element {} of {} in the cell {}', what, i, x['reg'].name, c)
        got[by_phys[d, tags[0]]] += v / 2 ** d
        shapes[d].add(frozenset(ns))
    mon.ev('elements', len(msh['elements']))
    for n, x in groups.items():
        vol = sum(1 for c in x['cells']) if x['dim'] <= mdim else 0
        mon.need(abs(got[n] - vol) < 1e-5 * (1 + vol), 'measure of a region', '{}: {} of dimension {}: {} instead of {}', what, n, x['dim'], got[n], vol)
    # ---- conformity: of all that is in the file
    cells = {d: {c for x in groups.values() if x['dim'] == d and d <= mdim for c in x['cells']} for d in (1, 2, 3)}
    for d in (3, 2):
        count = Counter(g for s in shapes[d] for g in itertools.combinations(sorted(s), d))
        for g, n in count.items():
            P = np.array([pos[i] for i in g])
            c = cell_of([.371, .2437, .3853][:d] @ P if d == 3 else .371 * P[0] + .629 * P[1])
            need = sum(1 for y in around(c) if y in cells[d])
            if gm.dim_of(c) == d:
                need *= 2
            mon.need(n == need, 'not conforming', '{}: {} of dimension {} in the cell {} belongs to {} elements, should to {}', what, g, d - 1, c, n, need)
        mon.ev('faces', len(count))
        for s in shapes[d - 1]:
            c = cell_of(np.array([.371, .2437, .3853] if d == 3 else [.371, .629]) @ np.array([pos[i] for i in sorted(s)]))
            if any(y in cells[d] for y in around(c)) and cells[d]:
                mon.need(tuple(sorted(s)) in count, 'not conforming', '{}: element {} of dimension {} in the cell {} is not a side of elements', what, sorted(s), d - 1, c)
    used = {n for _, _, ns in msh['elements'].values() for n in ns}
    mon.need(used <= set(msh['nodes']), 'nodes of elements', '{}', what)
    xyz = {}
    for i in used:
        key = tuple(np.round(pos[i] * 1e5).astype(int).tolist())
        mon.need(key not in xyz, 'two nodes at one place', '{}: {} {}', what, i, xyz.get(key))
        xyz[key] = i
    mon.state(case['dims'], elim, mdim, len(groups), len(mine))
    formats(w, what, mon, els, nodes, {k[0] for k in seen})


def formats(w, what, mon, els, nodes, dims):
    if not dims:
        return
    rng, f, gmsh = w.rng, w.f, G.gmsh
    F = G.MeshFormat
    todo = rng.sample([None, F.msh, F.msh2, F.unv, F.vtk, F.mesh] + [F.stl] * (2 in dims), 2)
    made = []
    for fm in todo:
        name = 'm.' + (fm.name if fm is not None else 'msh')
        if os.path.exists(name):
            os.remove(name)
        if fm is None:
            f.write_mesh()
        elif rng.random() < .5:
            f.write_mesh(name)
        else:
            f.write_mesh(format=fm)
        mon.need(os.path.exists(name) and os.path.getsize(name) > 50, 'format', '{}: {} not written', what, name)
        made.append(name)
        head = open(name, 'rb').read(300)
        ok = {'msh': b'$MeshFormat', 'msh2': b'$MeshFormat\n2.2 0', 'unv': b'2411', 'vtk': b'# vtk', 'mesh': b'MeshVersionFormatted', 'stl': b'solid'}[name[2:]]
        mon.need(ok in head, 'format', '{}: {} begins with {}', what, name, head[:60])
        mon.ev('formats')
    brep = None
    if rng.random() < .3:
        if rng.random() < .5:
            f.write_brep()
            brep = 'm.brep'
        else:
            f.write_brep('geo')
            brep = 'geo.brep'
        mass = {d: sum(gmsh.model.occ.getMass(*e) for e in gmsh.model.getEntities(d)) for d in (1, 2, 3)}
    size = [sum(measure([nodes[i] for i in ns]) for t, ns, d, e in els.values() if d == dim) for dim in (0, 1, 2, 3)]
    for name in made:
        if name.endswith(('msh', 'msh2', 'unv', 'vtk', 'mesh')):
            gmsh.clear()
            gmsh.open(name)
            n2, e2 = gmshutil.api_mesh(gmsh)
            for dim in (1, 2, 3):
                s2 = sum(measure([n2[i] for i in ns]) for ns in {tuple(sorted(e[1])) for e in e2.values() if e[2] == dim})
                mon.need((s2 > 0 if dim in dims else True) and s2 <= size[dim] * (1 + 1e-6), 'format', '{}: {} has measure {} of dimension {}, the mesh {}', what, name, s2, dim, size[dim])
            mon.ev('formats read again')
    if brep:
        gmsh.clear()
        gmsh.model.occ.importShapes(brep, highestDimOnly=False)
        gmsh.model.occ.synchronize()
        for d in mass:
            m2 = sum(gmsh.model.occ.getMass(*e) for e in gmsh.model.getEntities(d))
            mon.need(abs(m2 - mass[d]) <= 1e-6 * (mass[d] + 1e-9), 'brep', '{}: mass of dimension {}: {} in the file, {} in the model', what, d, m2, mass[d])
        mon.ev('brep')
