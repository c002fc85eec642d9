"""P07: undo restores exactly the previous state, redo the undone one, over any history."""
from vlib import pddrive
from vlib.pddrive import gen_map, gen_ops, make_map, bp, TOL
from vlib.pdutil import fresh, snapshot, diff, pick
from bgem import undo

LEVEL = 'exploration'
RULE = ('One execution = a history of editing operations (grouped per user action, or ungrouped), undo/redo walks of random length, '
        'complete undo and complete redo. Every state is a full snapshot (ids, coordinates, end points, boundary vertices, free points, '
        'attributes) and the structure is recomputed exactly. Distinct = distinct snapshots.')
ASSUMPTIONS = ['every user action is recorded; nothing is changed outside of the recorded operations']
REQUIRED = {'undo': 3000, 'redo': 1500, 'states compared': 6000, 'complete undo': 150, 'complete redo': 150, 'new branch': 200,
            'ungrouped': 30, 'recording off': 30}


def cases(tier, rng):
    n = 1200 if tier == 'quick' else 35000
    out = []
    for i in range(n):
        k = i % 4
        N = rng.choice([3, 4, 5, 6, 8])
        ops = gen_ops(rng, rng.randint(10, 30), N, dels=.25, undo=.0, attr=.12, points=.1, structured=.4)
        walk = []
        for op in ops:
            walk.append(op)
            while rng.random() < .25:
                u = rng.random()
                walk.append(['U', rng.randint(1, 4)] if u < .6 else ['R', rng.randint(1, 3)])
        if k == 1:
            w = rng.choice([.5, 2.0, 10.0])
            walk = [[o[0]] + [rng.random() * w for _ in o[1:]] if o[0] in 'LP' else o for o in walk]
        out.append({'map': gen_map(rng), 'mode': ['grouped', 'grouped', 'ungrouped', 'grouped'][k], 'ops': walk, 'off': rng.random() < .3})
    return out


def do(pd, op, m):
    k = op[0]
    if k == 'L':
        pd.add_line(m(op[1:3]), m(op[3:5]))
    elif k == 'P':
        pd.add_point(m(op[1:3]))
    elif k == 'D':
        s = pick(pd.segments, op[1])
        if s is None:
            return False
        pd.delete_segment(s)
    elif k == 'Q':
        p = pick(pd.points, op[1])
        if p is None:
            return False
        pd.delete_point(p)
    elif k == 'A':
        o = pick({'s': pd.segments, 'p': pd.points, 'w': pd.polygons}[op[1]], op[2])
        if o is None:
            return False
        pd.set_attr(o, op[3])
    return True


def run(case, mon):
    st = fresh(enable=True)
    fm = make_map(case['map'])
    pd = bp.PolygonDecomposition(TOL * fm.scale)
    states = [snapshot(pd)]
    cur = 0

    def compare(what):
        s = snapshot(pd)
        d = diff(states[cur], s)
        mon.need(not d, what, '{} to state {}: {}', what, cur, d[:4])
        pddrive.structure(pd)
        mon.ev('states compared')

    def go(step, what):
        nonlocal cur
        if step < 0:
            mon.need(st.canundo(), 'canundo', 'nothing to undo at state {}', cur)
            st.undo()
            mon.ev('undo')
        else:
            mon.need(st.canredo(), 'canredo', 'nothing to redo at state {} of {}', cur, len(states) - 1)
            st.redo()
            mon.ev('redo')
        cur += step
        compare(what)

    if case['mode'] == 'ungrouped':
        # every elementary action is a state of its own
        for op in case['ops']:
            if op[0] in 'UR':
                continue
            n0 = st.undocount()
            full0 = snapshot(pd)
            if not do(pd, op, fm):
                continue
            n1 = st.undocount()
            full1 = snapshot(pd)
            for _ in range(n1 - n0):
                st.undo()       # the states in between are not planar yet (a point placed before its segment is split)
                mon.ev('undo')
            pddrive.structure(pd)
            d = diff(full0, snapshot(pd))
            mon.need(not d, 'undo', 'undo of the {} steps of {}: {}', n1 - n0, op, d[:4])
            for _ in range(n1 - n0):
                st.redo()
                mon.ev('redo')
            pddrive.structure(pd)
            d = diff(full1, snapshot(pd))
            mon.need(not d, 'redo', 'redo of the {} steps of {}: {}', n1 - n0, op, d[:4])
            mon.ev('states compared', 2)
        mon.ev('ungrouped')
        mon.state(full1 if case['ops'] else None)
        n = st.undocount()
        full = snapshot(pd)
        while st.canundo():
            st.undo()
            mon.ev('undo')
        d = diff(states[0], snapshot(pd))
        mon.need(not d, 'undo', 'complete undo: {}', d[:4])
        mon.ev('complete undo')
        while st.canredo():
            st.redo()
            mon.ev('redo')
        d = diff(full, snapshot(pd))
        mon.need(not d, 'redo', 'complete redo: {}', d[:4])
        mon.need(st.undocount() == n, 'redo', 'complete redo gives {} of {} actions', st.undocount(), n)
        mon.ev('complete redo')
        pddrive.structure(pd)
        return

    for op in case['ops']:
        if op[0] == 'U':
            for _ in range(min(op[1], cur)):
                go(-1, 'undo')
        elif op[0] == 'R':
            for _ in range(min(op[1], len(states) - 1 - cur)):
                go(1, 'redo')
        else:
            had_redo = cur < len(states) - 1
            with undo.group('user action'):
                ok = do(pd, op, fm)
            del states[cur + 1:]
            states.append(snapshot(pd))
            cur += 1
            mon.need(st.undocount() == cur, 'undocount', '{} actions done, {} recorded', cur, st.undocount())
            mon.need(not st.canredo(), 'canredo', 'redo offered after a new action')
            if had_redo:
                mon.ev('new branch')
            mon.state(states[cur])
    while cur > 0:
        go(-1, 'undo')
    mon.need(not st.canundo() and not pd.points and not pd.segments and len(pd.polygons) == 1, 'undo', 'complete undo does not give the empty drawing')
    mon.ev('complete undo')
    while cur < len(states) - 1:
        go(1, 'redo')
    mon.ev('complete redo')
    if case['off']:
        # with recording switched off nothing is recorded
        bp.disable_undo()
        n = st.undocount()
        for op in case['ops'][:4]:
            if op[0] not in 'UR':
                do(pd, op, fm)
        mon.need(st.undocount() == n, 'recording off', 'actions were recorded while recording is off')
        mon.ev('recording off')
