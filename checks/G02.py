"""G02: fields on elements written to an MSH file are read back with the same values on the same elements, for every component count, time and file layout."""
import io
import math
import os
import random
import numpy as np
from vlib import mshref, gmshutil
from vlib.core import Violation
from bgem.gmsh import gmsh_io

LEVEL = 'exploration'
RULE = ('One execution = a set of element fields (1, 3, 9 or other number of components, vectors of scalars, integers, special values, any ids) written by write_fields or '
        'write_element_data (alone or behind a mesh) and read by an independent parser, by GmshIO and by GMSH; or a file of an independent writer with several '
        'times and fields read by GmshIO; or a damaged file that must be refused. Distinct = (path, fields, components, rows).')
ASSUMPTIONS = ['field names without quotes at their ends', 'float64 or integer values', 'one string tag per section (the reader refuses others)', 'text format (the reader has no binary data sections)', 'at least one element per field written']
REQUIRED = {'values': 20000, 'fields': 500, 'gmsh': 20, 'damaged': 30, 'times': 100}
NO_RLIMIT = True
NAMES = ['pressure', 'conductivity tensor', 'p_0', 'čas', 'x/y (m)', '1', 'region id', '$Data', 'a.b']


def gen_value(rng, plain):
    k = rng.randrange(10)
    if k == 0 and not plain:
        return rng.choice([math.inf, -math.inf, math.nan, -0.0, 5e-324, 1.7976931348623157e308])
    if k < 3:
        return rng.uniform(-1, 1) * 10.0 ** rng.randint(-30, 30)
    if k == 3:
        return float(rng.randint(-5, 5))
    return rng.gauss(0, 1)


def cases(tier, rng):
    out = []
    for i in range(4000 if tier == 'quick' else 200000):
        path = ['fields', 'fields', 'data', 'mesh+data', 'in', 'in', 'damaged', 'gmsh-out', 'data'][i % 9]
        plain = path.startswith('gmsh')
        n = rng.choice([1, 1, 2, 7, 50])
        ids = mshref.gen_ids(rng, n, 10 ** 5 if plain else 2 ** 31)
        fields = []
        for name in rng.sample(NAMES, rng.choice([1, 1, 2, 4])):
            c = rng.choice([1, 1, 3, 9] + [2, 4, 6] * (not plain))
            integer = rng.random() < .2
            times = sorted(rng.sample(range(0, 50), rng.choice([1, 2, 4]))) if path == 'in' else [0]
            fields.append({'name': name, 'comp': c, 'times': [[t, rng.choice([float(t), gen_value(rng, True), t * 86400.5]) if path in ('in', 'damaged') else 0] for t in times],
                           'flat': c == 1 and rng.random() < .6, 'int': integer,
                           'rows': [[[rng.randint(-2 ** 40, 2 ** 40) if integer else gen_value(rng, plain) for _ in range(c)] for _ in ids] for _ in times]})
        out.append({'path': path, 'ids': ids, 'fields': fields, 'seed': rng.getrandbits(30), 'how': rng.choice(['list', 'array', 'iter']),
                    'layout': rng.choice(['C', 'F', 'list'])})
    return out


def same(a, b):
    return (math.isnan(a) and math.isnan(b)) or (a == b and math.copysign(1, a) == math.copysign(1, b))


def values_of(f, i, layout):
    rows = f['rows'][i]
    v = np.array(rows, dtype=None if f['int'] else float)
    if f['flat']:
        v = v[:, 0]
    return np.asfortranarray(v) if layout == 'F' else v


def ids_of(case):
    ids = case['ids']
    return ids if case['how'] == 'list' else (np.array(ids) if case['how'] == 'array' else iter(ids))


def check_read(mon, g, case, fields):
    got = g.element_data
    mon.need(sorted(got) == sorted(f['name'] for f in fields), 'fields', 'fields {} expected {}', sorted(got), [f['name'] for f in fields])
    for f in fields:
        mon.ev('fields')
        times = got[f['name']]
        mon.need(sorted(times) == [t[0] for t in f['times']], 'times', 'time steps {} expected {}', sorted(times), f['times'])
        for (idx, time), rows in zip(f['times'], f['rows']):
            mon.ev('times')
            t, data = times[idx]
            mon.need(t == time, 'times', 'time of the step {}: {} expected {}', idx, t, time)
            data = {int(k): v for k, v in data.items()}
            want = dict(zip(case['ids'], rows))
            mon.need(sorted(data) == sorted(want), 'elements', 'elements {} expected {}', sorted(data)[:20], sorted(want)[:20])
            for e, row in want.items():
                mon.ev('values', len(row))
                mon.need(len(data[e]) == len(row) and all(same(float(a), float(b)) for a, b in zip(data[e], row)), 'values', 'field {} element {}: {} expected {}', f['name'], e, data[e], row)


def check_text(mon, text, case, fields, mesh=None):
    try:
        p = mshref.parse_ascii(text)
    except (ValueError, KeyError, IndexError, StopIteration, RuntimeError) as e:
        raise Violation('written file', 'not a valid MSH text: %r' % (e,))
    if mesh is not None:
        d = mshref.diff(p, mesh)
        mon.need(d is None, 'written file', 'mesh: {}', d)
    mon.need(len(p['data']) == len(fields), 'written file', '{} sections expected {}', len(p['data']), len(fields))
    for (st, rt, nt, vals), f in zip(p['data'], fields):
        mon.need(st == ['"%s"' % f['name']] and rt == [0.0] and nt[1:] == [f['comp'], len(case['ids'])] and nt[0] == 0, 'written file', 'head {} {} {}', st, rt, nt)
        mon.need([v[0] for v in vals] == case['ids'], 'written file', 'elements {}', [v[0] for v in vals])
        for (e, v), row in zip(vals, f['rows'][0]):
            mon.need(all(same(a, float(b)) for a, b in zip(v, row)), 'written file', 'element {}: {} expected {}', e, v, row)


def section(f, i, ids, rng, n=None, end=True):
    t, time = f['times'][i]
    rows = f['rows'][i]
    order = list(range(len(ids)))
    rng.shuffle(order)
    L = ['$ElementData', '1', '"%s"' % f['name'], '1', repr(time), '3', str(t), str(f['comp']), str(len(ids) if n is None else n)]
    L += [' '.join([str(ids[k])] + [repr(x) for x in rows[k]]) for k in order]
    return L + ['$EndElementData'] * end


def run(case, mon):
    rng = random.Random(case['seed'])
    kind = case['path']
    ids, fields = case['ids'], case['fields']
    path = os.path.join(os.environ['VERIF_SCRATCH'], 'd%d.msh' % os.getpid())
    mon.state(kind, case['how'], [(f['name'], f['comp'], f['flat'], f['int'], len(f['times'])) for f in fields], len(ids))
    head = ['$MeshFormat', '2.2 0 8', '$EndMeshFormat']
    if kind == 'fields':
        g = gmsh_io.GmshIO()
        # ids are used once per field: an iterator would be used up by the first one
        idl = ids if case['how'] != 'array' else np.array(ids)
        if rng.random() < .3:
            g.filename = path
            g.write_fields(None, idl, {f['name']: values_of(f, 0, case['layout']) for f in fields})
        else:
            g.write_fields(path, idl, {f['name']: values_of(f, 0, case['layout']) for f in fields})
        text = open(path).read()
        check_text(mon, text, case, fields)
        check_read(mon, gmsh_io.GmshIO(path), case, fields)
    elif kind in ('data', 'mesh+data'):
        g = gmsh_io.GmshIO()
        s = io.StringIO()
        mesh = None
        if kind == 'mesh+data':
            mesh = mshref.gen_mesh(rng)
            g.nodes, g.elements, g.physical = mesh['nodes'], mesh['elements'], mesh['physical']
            g.write_ascii(s)
        else:
            s.write('\n'.join(head) + '\n')
        vals = [values_of(f, 0, case['layout']) for f in fields]
        keep = [v.copy() for v in vals]
        for f, v in zip(fields, vals):
            g.write_element_data(s, ids_of(case), f['name'], v)
        mon.need(all(a.shape == b.shape and np.array_equal(a, b, equal_nan=not f['int']) for a, b, f in zip(vals, keep, fields)), 'values changed', 'writing changed the values')
        check_text(mon, s.getvalue(), case, fields, mesh)
        with open(path, 'w') as fl:
            fl.write(s.getvalue())
        h = gmsh_io.GmshIO(path)
        check_read(mon, h, case, fields)
        if mesh:
            d = mshref.diff({'nodes': h.nodes, 'elements': h.elements, 'physical': h.physical}, mesh)
            mon.need(d is None, 'mesh with data', '{}', d)
    elif kind in ('in', 'damaged'):
        secs = [(f, i) for f in fields for i in range(len(f['times']))]
        rng.shuffle(secs)
        mesh = mshref.gen_mesh(rng)
        text = mshref.write_ascii2(mesh, rng).replace('\r\n', '\n').split('\n')
        if text[-1] == '':
            text.pop()
        bad = rng.randrange(len(secs)) if kind == 'damaged' else None
        for k, (f, i) in enumerate(secs):
            if k == bad:
                how = rng.choice(['count', 'twice', 'components'] if len(ids) > 0 else ['count'])
                if how == 'count':
                    text += section(f, i, ids, rng, len(ids) + rng.randint(1, 3))
                elif how == 'twice':
                    text += section(f, i, ids, rng) + section(f, i, ids, rng)
                else:
                    S = section(f, i, ids, rng)
                    j = rng.randrange(9, 9 + len(ids))
                    S[j] = rng.choice([S[j] + ' 1.5', S[j].rsplit(' ', 1)[0]])
                    text += S
            else:
                text += section(f, i, ids, rng)
        with open(path, 'w') as fl:
            fl.write(rng.choice(['\n', '\r\n']).join(text) + '\n')
        if kind == 'damaged':
            mon.ev('damaged')
            try:
                h = gmsh_io.GmshIO(path)
            except Exception:
                h = None
            mon.need(h is None, 'damaged data accepted', '{} in section {} of {}', how, bad, len(secs))
        else:
            h = gmsh_io.GmshIO(path)
            check_read(mon, h, case, fields)
            d = mshref.diff({'nodes': h.nodes, 'elements': h.elements, 'physical': h.physical}, mesh)
            mon.need(d is None, 'mesh with data', '{}', d)
    else:
        gmsh = gmshutil.session()
        mon.ev('gmsh')
        gmsh.model.add('m')
        gmsh.model.addDiscreteEntity(2, 1)
        gmsh.model.mesh.addNodes(2, 1, [1, 2, 3], [0, 0, 0, 1, 0, 0, 0, 1, 0])
        gmsh.model.mesh.addElementsByType(1, 2, ids, [1, 2, 3] * len(ids))
        g = gmsh_io.GmshIO()
        g.write_fields(path, ids, {f['name']: values_of(f, 0, case['layout']) for f in fields})
        gmsh.merge(path)
        views = gmsh.view.getTags()
        mon.need(len(views) == len(fields), 'read by GMSH', '{} views expected {}', len(views), len(fields))
        for v, f in zip(views, fields):
            typ, tags, data, time, nc = gmsh.view.getModelData(int(v), 0)
            got = dict(zip([int(t) for t in tags], data))
            mon.ev('fields')
            mon.need(typ == 'ElementData' and nc == f['comp'] and time == 0, 'read by GMSH', '{} {} {}', typ, nc, time)
            for e, row in zip(ids, f['rows'][0]):
                mon.ev('values', len(row))
                mon.need(e in got and list(got[e]) == [float(x) for x in row], 'read by GMSH', 'element {}: {} expected {}', e, got.get(e), row)
    if os.path.exists(path):
        os.unlink(path)
