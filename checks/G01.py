"""G01: a mesh written to an MSH file reads back as the same mesh; files of other writers (also of GMSH) are read in full."""
import io
import os
import random
import numpy as np
from vlib import mshref, gmshutil
from vlib.core import Violation
from bgem.gmsh import gmsh_io

LEVEL = 'exploration'
RULE = ('One execution = one mesh (hostile ids, coordinates, tags, element types, names) sent through one path: written as text or binary and read by an independent '
        'parser and by GmshIO again, written by an independent writer in MSH 1, 2.x, binary with layout variations and read by GmshIO, or exchanged with GMSH in both '
        'directions. Every node, element and name is compared exactly. Distinct = (path, element types, tag counts, names).')
ASSUMPTIONS = ['names are unique over dimensions (the class stores them by name)', 'finite coordinates, ids below 2^31', 'element types of the MSH 2 format']
REQUIRED = {'nodes': 3000, 'elements': 3000, 'names': 300, 'gmsh exchange': 20, 'binary': 60, 'msh1': 40}
NO_RLIMIT = True
# one order per mesh: the API of GMSH reports one type of each shape of an entity
GMSH_TYPES = [[1, 2, 3, 4, 5, 6, 7, 15], [1, 2, 3, 4, 5, 6, 7, 15], [8, 9, 10, 11, 12, 13, 14, 15], [8, 9, 16, 11, 17, 18, 19, 15], [26, 21, 29, 15]]


def cases(tier, rng):
    out = []
    for i in range(6000 if tier == 'quick' else 300000):
        path = ['ascii', 'ascii', 'stream', 'binary', 'in2', 'in2', 'in1', 'inbin', 'gmsh-out', 'gmsh-in'][i % 10]
        plain = path.startswith('gmsh')
        m = mshref.gen_mesh(rng, 2 if plain or path == 'in1' else None, plain,
                            rng.choice(GMSH_TYPES) if plain else None)
        if path == 'in1':
            m['physical'] = {}
        out.append({'path': path, 'mesh': mshref.to_json(m), 'np': rng.random() < .4, 'seed': rng.getrandbits(30),
                    'how': rng.choice(['name', 'later', 'stream', 'init'])})
    return out


def state(io_):
    return {'nodes': io_.nodes, 'elements': io_.elements, 'physical': io_.physical}


def build(m, use_np):
    g = gmsh_io.GmshIO()
    for i, c in m['nodes'].items():
        g.nodes[i] = np.array(c) if use_np else list(c)
    for i, (t, tg, n) in m['elements'].items():
        g.elements[np.int64(i) if use_np else i] = (t, tuple(tg) if use_np else list(tg), np.array(n, dtype=int) if use_np else list(n))
    g.physical.update(m['physical'])
    return g


def same(mon, key, got, m):
    d = mshref.diff(got, m)
    mon.ev('nodes', len(m['nodes']))
    mon.ev('elements', len(m['elements']))
    mon.ev('names', len(m['physical']))
    mon.need(d is None, key, '{}', d)


def load(path, how):
    if how == 'init':
        return gmsh_io.GmshIO(path)
    g = gmsh_io.GmshIO()
    if how == 'later':
        g.filename = path
        g.read()
    elif how == 'stream':
        with open(path, 'r') as f:
            g.read(f)
    else:
        g.filename = path
        g.reset()
        g.read()
    return g


def run(case, mon):
    m = mshref.from_json(case['mesh'])
    rng = random.Random(case['seed'])
    kind = case['path']
    path = os.path.join(os.environ['VERIF_SCRATCH'], 'm%d.msh' % os.getpid())
    mon.state(kind, case['how'], sorted({e[0] for e in m['elements'].values()}), sorted({len(e[1]) for e in m['elements'].values()}), sorted(m['physical']))
    how = case['how'] if kind not in ('binary', 'inbin', 'gmsh-in') else ('init' if case['how'] == 'stream' else case['how'])
    if kind in ('ascii', 'stream', 'binary'):
        g = build(m, case['np'])
        if kind == 'binary':
            g.write_binary(path)
            mon.ev('binary')
            data = open(path, 'rb').read()
            try:
                p = mshref.parse_binary(data)
            except (ValueError, KeyError, IndexError) as e:
                raise Violation('written file', 'binary file is not valid: %r' % (e,))
        else:
            if kind == 'stream':
                s = io.StringIO()
                s.name = 'stream'
                g.write_ascii(s)
                text = s.getvalue()
                with open(path, 'w') as f:
                    f.write(text)
            else:
                g.filename = path
                g.write_ascii()
                text = open(path).read()
            try:
                p = mshref.parse_ascii(text)
            except (ValueError, KeyError, IndexError) as e:
                raise Violation('written file', 'not a valid MSH 2.2 text: %r' % (e,))
        same(mon, 'written mesh', p, m)
        same(mon, 'writing changed the mesh', state(g), m)
        h = load(path, how)
        same(mon, 'read mesh', state(h), m)
        # written again: the same mesh
        path2 = path + '2'
        if kind == 'binary':
            h.write_binary(path2)
        else:
            with open(path2, 'w') as f:
                h.write_ascii(f)
        same(mon, 'second roundtrip', state(load(path2, 'init')), m)
        os.unlink(path2)
        # an object may be reused for another mesh
        h.reset()
        mon.need(not h.nodes and not h.elements and not h.physical and not h.element_data, 'reset', 'data left after reset')
    elif kind in ('in1', 'in2', 'inbin'):
        if kind == 'inbin':
            mon.ev('binary')
            with open(path, 'wb') as f:
                f.write(mshref.write_binary(m, rng))
        else:
            mon.ev('msh1' if kind == 'in1' else 'msh2')
            with open(path, 'w', newline='') as f:
                f.write(mshref.write_ascii1(m, rng) if kind == 'in1' else mshref.write_ascii2(m, rng))
        same(mon, 'read mesh', state(load(path, how)), m)
    elif kind == 'gmsh-out':
        g = build(m, case['np'])
        bin_ = rng.random() < .4
        if bin_:
            g.write_binary(path)
        else:
            g.filename = path
            g.write_ascii()
        gmsh = gmshutil.session()
        try:
            gmsh.merge(path)
        except Exception as e:
            raise Violation('refused by GMSH', '%s' % e)
        mon.ev('gmsh exchange')
        check_gmsh(mon, gmsh, m, 'read by GMSH')
    else:
        # GMSH builds the mesh (discrete entities), writes it, we read it
        gmsh = gmshutil.session()
        gmsh.model.add('m')
        ents = {}
        for e, (t, tg, n) in m['elements'].items():
            d = mshref.dim_of(t)
            ents.setdefault((d, tg[1]), [tg[0], []])[1].append((t, e, n))
        ndef = False
        phys = {}
        for (d, tag), (ph, els) in sorted(ents.items()):
            gmsh.model.addDiscreteEntity(d, tag)
            if not ndef:
                gmsh.model.mesh.addNodes(d, tag, list(m['nodes']), [x for c in m['nodes'].values() for x in c])
                ndef = True
            for t in sorted({x[0] for x in els}):
                gmsh.model.mesh.addElementsByType(tag, t, [x[1] for x in els if x[0] == t], [n for x in els if x[0] == t for n in x[2]])
            phys.setdefault((d, ph), []).append(tag)
        for (d, ph), tags in phys.items():
            gmsh.model.addPhysicalGroup(d, tags, ph)
        names = {}
        for name, (i, d) in m['physical'].items():
            if (d, i) in phys and name not in names:
                gmsh.model.setPhysicalName(d, i, name[1:-1])
                names[name] = (i, d)
        gmsh.option.setNumber('Mesh.MshFileVersion', rng.choice([2.2, 2.2, 1.0]))
        v1 = gmsh.option.getNumber('Mesh.MshFileVersion') == 1.0
        gmsh.option.setNumber('Mesh.Binary', 0 if v1 else rng.randint(0, 1))
        save_all = rng.randint(0, 1)
        gmsh.option.setNumber('Mesh.SaveAll', save_all)
        gmsh.option.setNumber('Mesh.PreserveNumberingMsh2', 1)
        b = gmsh.option.getNumber('Mesh.Binary')
        gmsh.write(path)
        mon.ev('gmsh exchange')
        g = load(path, how)
        want_n, want_e = gmshutil.api_mesh(gmsh)
        mon.need(sorted(g.elements) == sorted(want_e) and len(g.nodes) <= len(want_n), 'read mesh', 'version {} binary {}: {} of {} elements, {} of {} nodes', v1, b,
                 len(g.elements), len(want_e), len(g.nodes), len(want_n))
        for e, (t, n, d, ent) in want_e.items():
            t2, tags, n2 = g.elements[e]
            mon.ev('elements')
            mon.need(t2 == t and list(n2) == n and list(tags)[:2] in [m['elements'][e][1]] + save_all * [[0, m['elements'][e][1][1]]], 'read mesh', 'element {}: {} expected {}', e, g.elements[e], m['elements'][e])
            mon.need(all(k in g.nodes for k in n), 'read mesh', 'nodes of the element {} are not read', e)
        for k, c in g.nodes.items():
            mon.ev('nodes')
            mon.need(np.allclose(c, want_n[k], rtol=1e-14 if b else 1e-15 * 100, atol=0), 'read mesh', 'node {}: {} expected {}', k, c, want_n[k])
        if not v1:
            mon.need(dict(g.physical) == names, 'read mesh', 'names {} expected {}', g.physical, names)
            mon.ev('names', len(names))
    if os.path.exists(path):
        os.unlink(path)


def check_gmsh(mon, gmsh, m, key):
    nodes, els = gmshutil.api_mesh(gmsh)
    used = {n for e in m['elements'].values() for n in e[2]}
    mon.need(sorted(els) == sorted(m['elements']), key, 'elements {} expected {}', sorted(els)[:20], sorted(m['elements'])[:20])
    for e, (t, n, d, ent) in els.items():
        mon.ev('elements')
        mon.need((t, n, ent) == (m['elements'][e][0], list(m['elements'][e][2]), m['elements'][e][1][1]), key, 'element {}: {} expected {}', e, (t, n, ent), m['elements'][e])
        ph = [int(x) for x in gmsh.model.getPhysicalGroupsForEntity(d, ent)]
        mon.need(m['elements'][e][1][0] in ph, key, 'element {}: physical groups {} expected {}', e, ph, m['elements'][e][1])
    for k, c in nodes.items():
        mon.ev('nodes')
        mon.need(k in m['nodes'] and list(m['nodes'][k]) == c, key, 'node {}: {} expected {}', k, c, m['nodes'].get(k))
    mon.need(used <= set(nodes), key, 'nodes {} missing', sorted(used - set(nodes))[:10])
    for name, (i, d) in m['physical'].items():
        if (d, i) in [tuple(x) for x in gmsh.model.getPhysicalGroups()]:
            mon.ev('names')
            mon.need(gmsh.model.getPhysicalName(d, i) == name[1:-1], key, 'name of {}: {!r} expected {!r}', (d, i), gmsh.model.getPhysicalName(d, i), name)
