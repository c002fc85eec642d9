"""B01: spline bases against exact Cox-de Boor recursion: values, derivatives, local support, lookup, packing."""
import numpy as np
from vlib import bsref
from bgem.bspline import bspline as bs

LEVEL = 'exploration'
RULE = ('One execution = one basis (degree 0-5, clamped knot vector with 1-6 intervals, multiple inner knots, any range, given as list, array, packed or equidistant) '
        'queried at ends, knots, neighbouring floats of knots and random parameters; every returned number is compared with exact rational arithmetic. '
        'Distinct = (degree, multiplicities, interval hit).')
ASSUMPTIONS = ['inner knots have multiplicity at most the degree (continuous splines)']
REQUIRED = {'values': 10000, 'derivatives': 10000, 'at knots': 1000, 'out of domain': 300, 'linear poles': 300, 'packed': 300, 'equidistant': 200}


def cases(tier, rng):
    out = []
    for _ in range(1600 if tier == 'quick' else 16000):
        deg = rng.choice([0, 1, 2, 2, 2, 3, 3, 4, 5])
        if rng.random() < .3:
            a = rng.choice([0, 0., -1, 10, -3.5, 1000.])
            b = a + rng.choice([1, 1., 2, 7, .1, 1000])
            c = {'eq': [rng.randint(1, 9), a, b]}
            br = [float(a) + (float(b) - float(a)) * i / c['eq'][0] for i in range(c['eq'][0])] + [float(b)]
            if rng.random() < .3 and c['eq'][1:] == [0., 1.]:
                c['eq'] = c['eq'][:1]
            c['mult'] = [deg + 1] + [1] * (len(br) - 2) + [deg + 1]
        else:
            knots, mult, br = bsref.gen_knots(rng, deg)
            c = {'knots': knots, 'mult': mult, 'how': rng.choice(['list', 'array', 'packed', 'tuple'])}
        c.update(deg=deg, br=br, t=bsref.probes(rng, br, 5), s=rng.random())
        out.append(c)
    return out


def make(case, mon):
    deg, br = case['deg'], case['br']
    if 'eq' in case:
        n, *r = case['eq']
        b = bs.SplineBasis.make_equidistant(deg, n, list(r)) if r else bs.SplineBasis.make_equidistant(deg, n)
        mon.ev('equidistant')
        full = [x for x, m in zip(br, case['mult']) for _ in range(m)]
        got = [float(x) for x in b.knots]
        w = br[-1] - br[0]
        mon.need(len(got) == len(full) and all(abs(x - y) <= 1e-12 * (w + abs(y)) for x, y in zip(got, full)), 'equidistant',
                 'knots {} expected {}', got, full)
        mon.need(got[0] == br[0] and got[-1] == br[-1] and all(x < y for x, y in zip(got[deg:-deg - 1] if deg else got[:-1], got[deg + 1:len(got) - deg])),
                 'equidistant', 'knots {} not increasing or not clamped', got)
        case['br'] = sorted(set(got))
        return b, got
    knots = case['knots']
    if case['how'] == 'packed':
        b = bs.SplineBasis.make_from_packed_knots(deg, [(k, m) for k, m in zip(br, case['mult'])])
    else:
        src = np.array(knots) if case['how'] == 'array' else list(knots) if case['how'] == 'list' else tuple(knots)
        b = bs.SplineBasis(deg, src)
        if case['how'] == 'array':
            src += 1.0
            mon.need([float(x) for x in b.knots] == knots, 'aliasing', 'knots follow later changes of the passed array')
    mon.need([float(x) for x in b.knots] == knots, 'knots', 'knots {} expected {}', list(b.knots), knots)
    return b, knots


def run(case, mon):
    deg = case['deg']
    b, knots = make(case, mon)
    br, mult = case['br'], case['mult']
    n = len(knots) - deg - 1
    w = br[-1] - br[0]
    mon.need(b.size == n, 'size', 'size {} expected {}', b.size, n)
    mon.need(tuple(b.domain) == (br[0], br[-1]) and b.domain_size == br[-1] - br[0], 'domain', 'domain {} size {}', b.domain, b.domain_size)
    if max(mult[1:-1] or [1]) == 1:
        mon.need(b.n_intervals == len(br) - 1, 'intervals', '{} intervals, expected {}', b.n_intervals, len(br) - 1)
    packed = [(float(k), m) for k, m in b.pack_knots()]
    mon.need(packed == list(zip(br, mult)), 'pack', 'packed {} expected {}', packed, list(zip(br, mult)))
    b2 = bs.SplineBasis.make_from_packed_knots(deg, b.pack_knots())
    mon.need(list(b2.knots) == list(b.knots), 'pack', 'knots lost by packing')
    mon.ev('packed')
    for i in range(n):
        s = b.fn_supp(i)
        mon.need(tuple(s) == (knots[i], knots[i + deg + 1]), 'support', 'support of {} is {}', i, s)
    if deg > 0:
        lp = b.make_linear_poles()
        mon.ev('linear poles')
        want = [sum(knots[i + 1:i + deg + 1]) / deg for i in range(n)]
        sc = max(abs(br[0]), abs(br[-1]))
        mon.need(len(lp) == n and all(abs(x - y) <= 1e-12 * (n + 1) * max(sc, w) for x, y in zip(lp, want)), 'linear poles', 'linear poles {} expected {}', lp, want)
    for t in case['t']:
        t = min(max(t, br[0]), br[-1])
        mon.need(b.in_domain(t), 'domain', '{} not in domain {}', t, b.domain)
        mon.need(b.check(t) == t, 'check', 'check({!r}) = {!r}', t, b.check(t))
        k = bsref.interval(knots, deg, t)
        it = b.find_knot_interval(t)
        mon.need(it == k - deg, 'interval', 'interval of {!r} is {} expected {} (knots {})', t, it, k - deg, knots)
        mon.need(tuple(b.knot_interval_bounds(it)) == (knots[k], knots[k + 1]), 'interval', 'bounds {}', b.knot_interval_bounds(it))
        mon.state(deg, mult, k, t in br)
        if t in br:
            mon.ev('at knots')
        B = bsref.basis(knots, deg, t)
        D = bsref.basis_diff(knots, deg, t)
        val = [b.eval(i, t) for i in range(n)]
        mon.ev('values', n)
        for i in range(n):
            mon.need(abs(val[i] - float(B[i])) <= 1e-11, 'value', 'basis {} at {!r}: {!r} expected {!r} (degree {}, knots {})', i, t, val[i], float(B[i]), deg, knots)
            mon.need(val[i] >= -1e-14 and (B[i] != 0 or val[i] == 0), 'value', 'basis {} at {!r}: {!r}, should be {!r}', i, t, val[i], float(B[i]))
        # smallest interval next to t bounds the derivative and its rounding error
        dmax = max([1.0] + [abs(float(x)) for x in D])
        dif = [b.eval_diff(i, t) for i in range(n)]
        mon.ev('derivatives', n)
        for i in range(n):
            mon.need(abs(dif[i] - float(D[i])) <= 1e-10 * dmax, 'derivative', 'derivative of {} at {!r}: {!r} expected {!r} (degree {}, knots {})',
                     i, t, dif[i], float(D[i]), deg, knots)
        vecs = [(b.eval_vector(it, t), B, 1e-11, 'vector'), (b.eval_diff_vector(it, t), D, 1e-10 * dmax, 'vector derivative')]
        if hasattr(b, 'eval_base_vector'):
            vecs += [(b.eval_base_vector(it, t), B, 1e-10, 'vector'), (b.eval_diff_base_vector(it, t), D, 1e-9 * dmax, 'vector derivative')]
            mon.ev('optimized')
        for vec, ref, tol, key in vecs:
            mon.need(len(vec) == deg + 1 and all(abs(x - float(r)) <= tol for x, r in zip(vec, ref[it:it + deg + 1])), key,
                     'at {!r} interval {}: {} expected {}', t, it, list(vec), [float(r) for r in ref[it:it + deg + 1]])
    # outside of the domain: tiny excess is snapped, anything larger is refused
    for end, sgn in ((br[0], -1), (br[-1], 1)):
        tol = (abs(end) + 1e-4) * 1e-10
        t = end + sgn * .5 * tol
        if t != end:
            mon.need(b.check(t) == end, 'check', 'check({!r}) = {!r} should be snapped to {}', t, b.check(t), end)
        for t in (end + sgn * 1e-3 * max(w, abs(end)) * (1 + case['s']), end + sgn * 10 * w, end + sgn * 3 * tol):
            if abs(t - end) < 2.9 * tol:
                continue
            mon.ev('out of domain')
            mon.need(not b.in_domain(t), 'domain', '{!r} reported in domain {}', t, b.domain)
            try:
                r = b.check(t)
            except IndexError:
                continue
            mon.need(False, 'check', 'check({!r}) = {!r} out of domain {} not refused', t, r, b.domain)
