"""P02: the segments are exactly the arrangement of what was drawn; drawing returns the pieces of the line in order."""
from fractions import Fraction as Fr
from vlib.core import Violation
from vlib.pddrive import Drive, gen_map, gen_ops, make_map, multiscale_ops
from vlib.pdutil import fresh

LEVEL = 'exploration'
RULE = ('One execution = a history of drawn lines, points and deletions applied to the code and to an exact rational model; after '
        'every operation all points and segments are paired with the model, and the returned point / list of segments is compared '
        'with the exact chain. Distinct = distinct drawings (vertex and edge sets) reached.')
ASSUMPTIONS = ['features of the exact drawing are at least three snapping tolerances apart (closer ones are the subject of P03/P01)',
               'coordinates up to 1e4 times the size of the drawing']
REQUIRED = {'matched drawings': 3000, 'returned chains': 2000, 'crossings created': 500, 'collinear overlaps': 100, 'op D': 300, 'multiscale drawings': 500}


def cases(tier, rng):
    n = 1200 if tier == 'quick' else 40000
    out = []
    for i in range(n):
        N = rng.choice([3, 4, 5, 6, 8, 12])
        if i % 8 == 5:
            m = {'scale': 1.0, 'angle': rng.choice([0.0, rng.uniform(0, 6.28)]), 'shift': [0.0, 0.0]}
            out.append({'map': m if rng.random() < .5 else gen_map(rng), 'ops': multiscale_ops(rng, rng.randint(10, 30)), 'multi': 1})
        elif i % 4 == 3:
            # rational coordinates without lattice structure
            q = rng.choice([7, 64, 1000])
            R = lambda: rng.randrange(N * q) / q
            ops = []
            for _ in range(rng.randint(5, 18)):
                r = rng.random()
                ops.append(['D', round(rng.random(), 6)] if r < .15 else ['P', R(), R()] if r < .25 else ['L', R(), R(), R(), R()])
            out.append({'map': gen_map(rng), 'ops': ops})
        else:
            out.append({'map': gen_map(rng), 'ops': gen_ops(rng, rng.randint(8, 30), N, dels=rng.choice([0, .1, .3]),
                                                          dense=rng.choice([0, .5]))})
    return out


def run(case, mon):
    fresh()
    d = Drive(make_map(case['map']), mon)
    for op in case['ops']:
        before = d.m
        info = d.apply(op)
        if info is None:
            continue
        d.rematch()
        mon.ev('matched drawings')
        if case.get('multi'):
            mon.ev('multiscale drawings')
        mon.state(d.sig())
        if info[0] == 'P':
            p = d.result
            mon.need(d.pd.points.get(p.id) is p and d.pt_of[p.id] == info[1], 'returned point',
                     'adding a point at {} returned {}', d.map(info[1]), p)
        elif info[0] == 'L':
            path = info[3]
            if path is None:
                continue
            got = d.result
            mon.need(isinstance(got, list), 'returned chain', 'drawing a line returned {!r}', got)
            for s in got:
                mon.need(d.pd.segments.get(s.id) is s, 'returned chain', 'returned segment {} is not in the drawing', s.id)
            got = [d.seg_of[s.id] for s in got]
            mon.need(got == path, 'returned chain', 'line {} -> {}: returned {} pieces {}, exact chain has {} {}',
                     d.map(info[1]), d.map(info[2]), len(got), [sorted(map(str, e)) for e in got], len(path),
                     [sorted(map(str, e)) for e in path])
            mon.ev('returned chains')
            mon.ev('crossings created', len(d.m.pts) - len(before.pts))
            mon.ev('collinear overlaps', sum(1 for e in path if e in before.edges))
