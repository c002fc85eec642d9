"""
Independent reader and writers of the MSH 1.0 / 2.2 formats (written from the format description), and a generator of hostile meshes.
A mesh is {'nodes': {id: [x, y, z]}, 'elements': {id: (type, [tags], [nodes])}, 'physical': {name: (id, dim)}}.
"""
import math
import struct

N_NODES = {1: 2, 2: 3, 3: 4, 4: 4, 5: 8, 6: 6, 7: 5, 8: 3, 9: 6, 10: 9, 11: 10, 12: 27, 13: 18, 14: 14, 15: 1, 16: 8, 17: 20, 18: 15, 19: 13, 20: 9, 21: 10, 22: 12, 23: 15, 24: 15, 25: 21, 26: 4, 27: 5,
           28: 6, 29: 20, 30: 35, 31: 56, 92: 64, 93: 125}
NAMES = ['rock', 'rock 2', '.side', 'fracture_0', 'top  wall', 'a,b;c', 'č. 7', '12', '-1', 'x' * 60, '$Nodes', 'End $', '{a: b}', '7 8 9', "it's", '#']


def gen_coord(rng):
    k = rng.randrange(9)
    if k == 0:
        return float(rng.randint(-3, 3))
    if k == 1:
        return rng.uniform(-1, 1)
    if k == 2:
        return rng.uniform(-1, 1) * 10.0 ** rng.randint(-20, 20)
    if k == 3:
        return rng.choice([-0.0, 1e-310, 5e-324, 1.7976931348623157e308, 0.1 + 0.2, 1 / 3, -1e22, 1e23, 2.0 ** 53 + 2])
    if k == 4:
        return struct.unpack('d', struct.pack('Q', rng.getrandbits(62)))[0]
    return rng.gauss(0, 100)


def gen_ids(rng, n, top=2 ** 31):
    k = rng.randrange(4)
    if k == 0:
        return list(range(1, n + 1))
    if k == 1:
        a = rng.choice([1, 5, 1000, top - n - 1])
        ids = list(range(a, a + n))
    else:
        ids = rng.sample(range(1, 10 * n + 10), n)
    rng.shuffle(ids)
    return ids


def dim_of(t):
    return {15: 0, 1: 1, 8: 1, 26: 1, 27: 1, 28: 1}.get(t, 2 if t in (2, 3, 9, 10, 16, 20, 21, 22, 23, 24, 25) else 3)


def gen_mesh(rng, n_tags=None, plain=False, types=None):
    """plain: what also GMSH accepts (two positive tags, moderate coordinates, quoted names used by the elements)"""
    nn = rng.choice([1, 2, 4, 9, 30]) if not plain else rng.choice([10, 12, 30])
    top = 10 ** 5 if plain else 2 ** 31      # GMSH keeps arrays indexed by ids
    nid = gen_ids(rng, nn, top)
    nodes = {}
    for i in nid:
        nodes[i] = [gen_coord(rng) for _ in range(3)] if not plain else [rng.choice([rng.uniform(-1, 1), rng.gauss(0, 1e3), float(rng.randint(-2, 2))]) for _ in range(3)]
    types = types or sorted(N_NODES)
    ne = rng.choice([0, 1, 3, 10, 40]) if not plain else rng.choice([1, 5, 40])
    elements = {}
    ent = {}
    for e in gen_ids(rng, ne, top):
        t = rng.choice(types)
        if N_NODES[t] > nn and plain:
            t = 15
        k = rng.choice([0, 1, 2, 2, 3, 4, 7]) if n_tags is None else n_tags
        tags = [rng.choice([0, 1, 2, 5, 100000, 2 ** 31 - 1, -1]) if not plain else rng.randint(1, 5) for _ in range(k)]
        if plain:       # one physical group per geometrical entity
            dim = dim_of(t)
            tags[0] = ent.setdefault((dim, tags[1]), tags[0])
        elements[e] = (t, tags, [rng.choice(nid) for _ in range(N_NODES[t])] if not plain else rng.sample(nid, N_NODES[t]))
    phys = {}
    used = set()
    for name in rng.sample(NAMES, rng.choice([0, 1, 3, 6])):
        d, i = rng.randint(0, 3), rng.choice([1, 2, 3, 4, 5]) if plain else rng.choice([1, 2, 3, 7, 100001])
        if plain and (d, i) in used:
            continue
        used.add((d, i))
        q = plain or rng.random() < .7 or ' ' in name[:1] or ' ' in name[-1:]
        phys['"%s"' % name if q else name] = (i, d)
    return {'nodes': nodes, 'elements': elements, 'physical': phys}


def to_json(m):
    return {'nodes': [[k] + list(v) for k, v in m['nodes'].items()],
            'elements': [[k] + [t, list(tg), list(n)] for k, (t, tg, n) in m['elements'].items()],
            'physical': [[k] + list(v) for k, v in m['physical'].items()]}


def from_json(j):
    return {'nodes': {r[0]: r[1:] for r in j['nodes']}, 'elements': {r[0]: (r[1], r[2], r[3]) for r in j['elements']},
            'physical': {r[0]: (r[1], r[2]) for r in j['physical']}}


def same_float(a, b):
    return a == b and math.copysign(1, a) == math.copysign(1, b)


def diff(a, b, exact=True):
    """None or the description of the first difference of two meshes (also with tuples or numpy numbers inside)"""
    for part in ('nodes', 'elements', 'physical'):
        A, B = a[part], b[part]
        if list(sorted(A)) != list(sorted(B)):
            return '%s: %s against %s' % (part, sorted(set(A) - set(B))[:5], sorted(set(B) - set(A))[:5])
        for k in A:
            if part == 'nodes':
                if len(A[k]) != 3 or len(B[k]) != 3 or not all(same_float(float(x), float(y)) for x, y in zip(A[k], B[k])):
                    return 'node %s: %s against %s' % (k, list(A[k]), list(B[k]))
            elif part == 'elements':
                x, y = [(e[0], [int(i) for i in e[1]], [int(i) for i in e[2]]) for e in (A[k], B[k])]
                if x != y:
                    return 'element %s: %s against %s' % (k, x, y)
            elif tuple(A[k]) != tuple(B[k]):
                return 'physical name %s: %s against %s' % (k, A[k], B[k])
    return None


def parse_ascii(text):
    """strict reading of MSH 2.2 ASCII text -> mesh; raises ValueError on anything irregular"""
    L = text.split('\n')
    if L and L[-1] == '':
        L.pop()
    it = iter(L)
    m = {'nodes': {}, 'elements': {}, 'physical': {}, 'data': []}
    first = True
    for head in it:
        if first and head != '$MeshFormat':
            raise ValueError('first section %r' % head)
        first = False
        if head == '$MeshFormat':
            if next(it).split() != ['2.2', '0', '8']:
                raise ValueError('format line')
        elif head == '$PhysicalNames':
            for _ in range(int(next(it))):
                d, i, name = next(it).split(' ', 2)
                if name in m['physical']:
                    raise ValueError('repeated name')
                m['physical'][name] = (int(i), int(d))
        elif head == '$Nodes':
            for _ in range(int(next(it))):
                i, x, y, z = next(it).split()
                if int(i) in m['nodes']:
                    raise ValueError('repeated node')
                m['nodes'][int(i)] = [float(x), float(y), float(z)]
        elif head == '$Elements':
            for _ in range(int(next(it))):
                c = [int(w) for w in next(it).split()]
                if c[0] in m['elements']:
                    raise ValueError('repeated element')
                nodes = c[3 + c[2]:]
                if len(nodes) != N_NODES[c[1]]:
                    raise ValueError('element %s' % c)
                m['elements'][c[0]] = (c[1], c[3:3 + c[2]], nodes)
        elif head == '$ElementData':
            st = [next(it) for _ in range(int(next(it)))]
            rt = [float(next(it)) for _ in range(int(next(it)))]
            nt = [int(next(it)) for _ in range(int(next(it)))]
            vals = []
            for _ in range(nt[2]):
                w = next(it).split()
                if len(w) != 1 + nt[1]:
                    raise ValueError('data row %s' % w)
                vals.append((int(w[0]), [float(x) for x in w[1:]]))
            m['data'].append((st, rt, nt, vals))
        else:
            raise ValueError('section %r' % head)
        if next(it, None) != '$End' + head[1:]:
            raise ValueError('end of %s' % head)
    return m


def parse_binary(b):
    pos = [0]

    def line():
        e = b.index(b'\n', pos[0])
        s = b[pos[0]:e].decode()
        pos[0] = e + 1
        return s

    def unpack(fmt):
        n = struct.calcsize('=' + fmt)
        v = struct.unpack('=' + fmt, b[pos[0]:pos[0] + n])
        pos[0] += n
        return v
    m = {'nodes': {}, 'elements': {}, 'physical': {}}
    if line() != '$MeshFormat' or line() != '2.2 1 8' or unpack('i') != (1,) or line() or line() != '$EndMeshFormat':
        raise ValueError('header')
    while pos[0] < len(b):
        head = line()
        n = int(line())
        if head == '$PhysicalNames':
            for _ in range(n):
                d, i, name = line().split(' ', 2)
                m['physical'][name] = (int(i), int(d))
        elif head == '$Nodes':
            for _ in range(n):
                v = unpack('i3d')
                m['nodes'][v[0]] = list(v[1:])
            if line():
                raise ValueError('after nodes')
        elif head == '$Elements':
            k = 0
            while k < n:
                t, c, nt = unpack('3i')
                for _ in range(c):
                    v = unpack('%di' % (1 + nt + N_NODES[t]))
                    m['elements'][v[0]] = (t, list(v[1:1 + nt]), list(v[1 + nt:]))
                k += c
            if line():
                raise ValueError('after elements')
        else:
            raise ValueError('section ' + head)
        if line() != '$End' + head[1:]:
            raise ValueError('end of ' + head)
    return m


def write_ascii2(m, rng):
    """MSH 2.2 text with legal variations of layout"""
    nl = rng.choice(['\n', '\n', '\r\n'])
    sp = rng.choice([' ', ' ', '  ', '\t'])
    f = rng.choice([repr, lambda x: '%.17g' % x, lambda x: '%.16e' % x])
    out = ['$MeshFormat', sp.join([rng.choice(['2.2', '2', '2.0', '2.1']), '0', '8']), '$EndMeshFormat']
    if rng.random() < .3:
        out = ['$Comments', 'made by a test', '1 2 3', '$EndComments'] + out
    sec = [['$Nodes', str(len(m['nodes']))] + [sp.join([str(i)] + [f(float(x)) for x in c]) for i, c in m['nodes'].items()] + ['$EndNodes'],
           ['$Elements', str(len(m['elements']))] + [sp.join(str(x) for x in [i, t, len(tg)] + list(tg) + list(n))
                                                     for i, (t, tg, n) in m['elements'].items()] + ['$EndElements']]
    ph = ['$PhysicalNames', str(len(m['physical']))] + ['%d %d %s' % (d, i, name) for name, (i, d) in m['physical'].items()] + ['$EndPhysicalNames']
    if m['physical'] or rng.random() < .5:
        sec.insert(rng.choice([0, 0, 0, 1, 2]), ph)
    if rng.random() < .2:
        sec.insert(rng.randint(0, len(sec)), ['$Periodic', '1', '0 1 2', '1', '4 1', '$EndPeriodic'])
    if rng.random() < .2:
        sec.append(['$NodeData', '1', '"n"', '1', '0.0', '3', '0', '1', '1', '1 5.0', '$EndNodeData'])
    blank = rng.random() < .3
    for s in sec:
        if blank and rng.random() < .6:
            out += [''] * rng.randint(1, 2)
        out += s
    if rng.random() < .3:
        out.append('')
    return nl.join(out) + (nl if rng.random() < .9 else '')


def write_ascii1(m, rng):
    f = rng.choice([repr, lambda x: '%.17g' % x])
    out = ['$NOD', str(len(m['nodes']))] + [' '.join([str(i)] + [f(float(x)) for x in c]) for i, c in m['nodes'].items()] + ['$ENDNOD']
    out += ['$ELM', str(len(m['elements']))]
    out += [' '.join(str(x) for x in [i, t] + list(tg) + [len(n)] + list(n)) for i, (t, tg, n) in m['elements'].items()] + ['$ENDELM']
    return '\n'.join(out) + '\n'


def write_binary(m, rng):
    b = b'$MeshFormat\n2.2 1 8\n' + struct.pack('=i', 1) + b'\n$EndMeshFormat\n'
    if m['physical'] or rng.random() < .5:
        b += ('$PhysicalNames\n%d\n' % len(m['physical']) + ''.join('%d %d %s\n' % (d, i, n) for n, (i, d) in m['physical'].items()) + '$EndPhysicalNames\n').encode()
    b += b'$Nodes\n%d\n' % len(m['nodes'])
    for i, c in m['nodes'].items():
        b += struct.pack('=i3d', i, *c)
    b += b'\n$EndNodes\n$Elements\n%d\n' % len(m['elements'])
    groups = {}
    for e, (t, tg, n) in m['elements'].items():
        groups.setdefault((t, len(tg)), []).append((e, tg, n))
    for (t, k), els in groups.items():
        while els:
            c = rng.randint(1, len(els))
            b += struct.pack('=3i', t, c, k)
            for e, tg, n in els[:c]:
                b += struct.pack('=%di' % (1 + k + len(n)), e, *(list(tg) + list(n)))
            els = els[c:]
    return b + b'\n$EndElements\n'
