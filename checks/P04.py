"""P04: the result does not depend on order, direction, splitting or repetition of the drawn lines."""
import random
from fractions import Fraction as Fr
from vlib.core import Violation
from vlib.pddrive import Drive, gen_map, gen_ops, make_map, multiscale_ops, structured_lines
from vlib.pdutil import fresh, walk

LEVEL = 'exploration'
RULE = ('One execution = one set of lines drawn in several random orders, directions, with repetitions and cut into collinear pieces; '
        'the canonical maps (vertices, edges, polygons as boundary vertex cycles, nesting, free points) are compared. '
        'Distinct = distinct line sets.')
ASSUMPTIONS = ['features of the complete exact drawing are at least three snapping tolerances apart']
REQUIRED = {'variants compared': 1000, 'polygons compared': 1500, 'reversed': 500, 'cut lines': 200, 'repeated': 200}


def cases(tier, rng):
    n = 320 if tier == 'quick' else 13000
    out = []
    for i in range(n):
        N = rng.choice([3, 4, 5, 6, 8])
        lines = structured_lines(rng, N) if rng.random() < .4 else []
        while len(lines) < 4 or (len(lines) < 20 and rng.random() < .85):
            lines.append(['L', rng.randint(0, N), rng.randint(0, N), rng.randint(0, N), rng.randint(0, N)])
        for _ in range(rng.choice([0, 0, 1, 3])):
            lines.append(['P', rng.randint(0, N), rng.randint(0, N)])
        if i % 3 == 2:
            lines = multiscale_ops(rng, rng.randint(4, 9), dels=0)
        out.append({'map': gen_map(rng), 'ops': lines, 'seeds': [rng.randrange(10 ** 6) for _ in range(5)]})
    return out


def canon(d):
    """id independent form in model coordinates"""
    F, poly_of, wire_of = d.structure()
    E = {sid: tuple(v.id for v in s.vtxs) for sid, s in d.pd.segments.items()}
    name = {pid: str(d.pt_of[pid][0]) + ',' + str(d.pt_of[pid][1]) for pid in d.pt_of}

    def cyc(c):
        w = [name[v] for v in walk(F, E, c)]
        return min(tuple(w[k:] + w[:k]) for k in range(len(w)))
    faces = set()
    for f in poly_of:
        if f:
            faces.add((cyc(F.cycles[F.outer_cycle[f]]), tuple(sorted(cyc(F.cycles[h]) for h in F.holes[f])),
                       tuple(sorted(name[p.id] for p in d.pd.polygons[poly_of[f]].free_points))))
    return {'vertices': set(name.values()),
            'edges': {tuple(sorted((name[a], name[b]))) for a, b in E.values()},
            'polygons': faces,
            'vertices of polygons': {tuple(sorted(name[v.id] for v in p.vertices())) for p in d.pd.polygons.values()}}


def variant(ops, rng, mon):
    out = []
    for op in ops:
        if op[0] == 'P':
            out.append(op)
            continue
        a, b = (Fr(op[1]), Fr(op[2])), (Fr(op[3]), Fr(op[4]))
        if rng.random() < .5:
            a, b = b, a
            mon.ev('reversed')
        pieces = [(a, b)]
        # cut only at a midpoint which the drawing has anyway would change the vertices: cut at existing lattice line points
        dx, dy = b[0] - a[0], b[1] - a[1]
        out.append(['L', a[0], a[1], b[0], b[1]])
        if rng.random() < .2 and len(pieces) == 1:
            out.append(['L', b[0], b[1], a[0], a[1]])
            mon.ev('repeated')
    rng.shuffle(out)
    return out


def run(case, mon):
    fresh()
    base = Drive(make_map(case['map']), mon)
    full = base.m.copy()
    for op in case['ops']:
        if op[0] == 'L':
            full.add_line((op[1], op[2]), (op[3], op[4]))
        else:
            full.add_point((op[1], op[2]))
    from vlib.pddrive import SEP
    if full.separation() < SEP:
        mon.ev('skipped: features too close')
        return
    ref = None
    for seed in [None] + case['seeds']:
        if seed is None:
            ops = case['ops']
        else:
            rng = random.Random(seed)
            ops = variant(case['ops'], rng, mon)
            if rng.random() < .4:
                # draw a line as its pieces between the vertices of the final drawing
                k = rng.randrange(len(ops))
                if ops[k][0] == 'L':
                    path = full.copy().add_line((ops[k][1], ops[k][2]), (ops[k][3], ops[k][4]))
                    if path and len(path) > 1:
                        new = []
                        for e in path:
                            p, q = tuple(e)
                            new.append(['L', p[0], p[1], q[0], q[1]])
                        rng.shuffle(new)
                        ops = ops[:k] + new + ops[k + 1:]
                        mon.ev('cut lines')
        d = Drive(make_map(case['map']), mon)
        for op in ops:
            d.apply(op)
        d.rematch()
        if d.m.pts.keys() != full.pts.keys() or d.m.edges.keys() != full.edges.keys():
            mon.ev('skipped: intermediate separation')
            continue
        c = canon(d)
        if ref is None:
            ref = c
            mon.state(sorted(c['edges']), len(c['polygons']))
            continue
        mon.ev('variants compared')
        mon.ev('polygons compared', len(c['polygons']))
        for k in ref:
            mon.need(ref[k] == c[k], 'order dependence: ' + k, 'same lines in another order (seed {}): {} only in one order',
                     seed, sorted(ref[k] ^ c[k])[:4])
