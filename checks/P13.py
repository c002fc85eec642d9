"""P13: the undo history behaves as a list of actions with a cursor, over any mixture of actions, groups, undo, redo and failures."""
import random
from bgem import undo

LEVEL = 'exploration'
RULE = ('One execution = a random program of undoable actions (some failing while done), nested groups (some left by an exception), undo, redo, clear, savepoints, '
        'recording switched off and on; oracle: a list of snapshots with a cursor. Distinct = (number of undos, redos, changed flag, nesting) states.')
ASSUMPTIONS = ['single thread']
REQUIRED = {'action': 5000, 'undo': 2000, 'redo': 1000, 'group': 500, 'nested group': 150, 'failed group': 150, 'failing action': 150,
            'savepoint': 300, 'off': 100, 'clear': 60, 'failing undo': 40, 'failing redo': 40, 'yields': 40, 'callback': 3000}


def cases(tier, rng):
    n = 4000 if tier == 'quick' else 6000

    def prog(depth, n):
        out = []
        for _ in range(n):
            r = rng.random()
            if r < .4:
                out.append(['a', rng.randrange(4), rng.randrange(100)])
            elif r < .45:
                out.append(['x', rng.randrange(4)])
            elif r < .6 and depth < 3:
                out.append(['g', prog(depth + 1, rng.randint(0, 5)), rng.random() < .25])
            elif depth:
                out.append(['a', rng.randrange(4), rng.randrange(100)])
            elif r < .78:
                out.append(['u', rng.randint(1, 3)])
            elif r < .9:
                out.append(['r', rng.randint(1, 3)])
            elif r < .95:
                out.append(['s'])
            elif r < .97:
                out.append(['off', [['a', rng.randrange(4), 7], ['u', 1], ['a', rng.randrange(4), 8]][:rng.randint(1, 3)]])
            elif r < .98:
                out.append(['c'])
            elif r < .985:
                out.append(['bad', rng.random() < .5])
            elif r < .99:
                out.append(['badr', rng.random() < .5])
            elif r < .995:
                out.append(['y', rng.randrange(4)])
            else:
                out.append(['u', 50])
        return out
    def long():
        return [['a', rng.randrange(4), rng.randrange(100)] for _ in range(rng.choice([300, 1200, 2500]))] + [o for o in prog(0, 60) if o[0] != 'c'] + [['u', 10000], ['r', 10000]]
    return [{'ops': prog(0, rng.randint(5, 50))} for _ in range(n)] + [{'ops': long()} for _ in range(n // 250)]


class Boom(Exception):
    pass


def run(case, mon):
    st = undo.Stack()
    undo.setstack(st)
    mon.need(undo.stack() is st, 'stack', 'the set stack is not used')
    calls = {'do': 0, 'undo': 0}
    st.docallback = lambda: calls.__setitem__('do', calls['do'] + 1)
    st.undocallback = lambda: calls.__setitem__('undo', calls['undo'] + 1)
    cells = [0, 0, 0, 0]

    @undo.undoable
    def put(i, v):
        old = cells[i]
        cells[i] = v
        yield 'put %d' % i, v
        cells[i] = old

    @undo.undoable
    def failing(i):
        raise Boom()
        yield 'never'

    @undo.undoable
    def bad_undo(i):
        old = cells[i]
        cells[i] = -5
        yield 'bad'
        raise Boom()
    runs = [0]

    @undo.undoable
    def bad_redo(i):
        runs[0] += 1
        old = cells[i]
        cells[i] = -6
        if runs[0] > 1:
            raise Boom()
        yield 'bad redo'
        cells[i] = old

    @undo.undoable
    def ret0():
        yield

    @undo.undoable
    def ret1():
        yield ('one',)

    @undo.undoable
    def ret2():
        yield 'two', 1, [2]
    states = [tuple(cells)]
    texts = []
    cur = 0
    saved = None        # index of the saved state on the current branch, None when unreachable/unset

    def push(text):
        nonlocal cur, saved
        if saved is not None and saved > cur:
            saved = None
        del states[cur + 1:]
        del texts[cur:]
        states.append(tuple(cells))
        texts.append(text)
        cur += 1

    def body(prog, depth):
        n = 0
        for op in prog:
            if op[0] == 'a':
                r = put(op[1], op[2])
                mon.need(r == op[2], 'result', 'undoable action returned {!r}', r)
                mon.ev('action')
                n += 1
            elif op[0] == 'x':
                try:
                    failing(op[1])
                    mon.need(False, 'exception lost', 'exception of an action was swallowed')
                except Boom:
                    mon.ev('failing action')
            else:
                mon.ev('nested group')
                n += grp(op, depth + 1)
        return n

    def grp(op, depth):
        n = 0
        try:
            with undo.group('group of {count}'):
                n = body(op[1], depth)
                if op[2]:
                    raise Boom()
        except Boom:
            mon.need(op[2], 'exception', 'unexpected exception')
            mon.ev('failed group')
        else:
            mon.need(not op[2], 'exception lost', 'exception inside a group was swallowed')
        mon.ev('group')
        return n

    def check(op):
        mon.need(tuple(cells) == states[cur], 'state', 'after {}: state {} expected {}', op[0], cells, states[cur])
        mon.need(st.undocount() == cur and st.canundo() == (cur > 0), 'undocount', 'after {}: undo count {} can {} expected {}', op[0],
                 st.undocount(), st.canundo(), cur)
        rest = len(states) - 1 - cur
        mon.need(st.redocount() == rest and st.canredo() == (rest > 0), 'redocount', 'after {}: redo count {} can {} expected {}', op[0],
                 st.redocount(), st.canredo(), rest)
        if cur:
            want = texts[cur - 1]
            mon.need(want is None or st.undotext() == ('Undo ' + want).strip(), 'text', 'undo text {!r} expected {!r}', st.undotext(), want)
        else:
            mon.need(st.undotext() is None, 'text', 'undo text {!r} with nothing to undo', st.undotext())
        if rest:
            want = texts[cur]
            mon.need(want is None or st.redotext() == ('Redo ' + want).strip(), 'text', 'redo text {!r} expected {!r}', st.redotext(), want)
        else:
            mon.need(st.redotext() is None, 'text', 'redo text {!r} with nothing to redo', st.redotext())
        mon.need(st.haschanged() == (saved is None or saved != cur), 'haschanged', 'after {}: changed {} (saved state {}, now {})', op[0],
                 st.haschanged(), saved, cur)
        mon.state(cur, rest, st.haschanged())

    check(['start'])
    for op in case['ops']:
        k = op[0]
        c0 = dict(calls)
        if k == 'a':
            body([op], 0)
            push('put %d' % op[1])
            mon.need(calls['do'] == c0['do'] + 1, 'callback', 'callback of a done action called {} times', calls['do'] - c0['do'])
            mon.ev('callback')
        elif k == 'x':
            body([op], 0)
        elif k == 'g':
            n = grp(op, 0)
            if n or not op[2]:
                direct = sum(1 for o in op[1] if o[0] == 'a')
                push('group of %d' % direct if all(o[0] in 'ax' for o in op[1]) else None)
            elif st.undocount() == cur + 1:
                push(None)      # an empty group left by an exception may or may not be recorded
        elif k == 'u':
            for _ in range(op[1]):
                st.undo()
                if cur:
                    cur -= 1
                    mon.ev('undo')
                    mon.need(calls['undo'] == c0['undo'] + 1, 'callback', 'undo callback was not called once')
                    c0 = dict(calls)
                check(op)
        elif k == 'r':
            for _ in range(op[1]):
                st.redo()
                if cur < len(states) - 1:
                    cur += 1
                    mon.ev('redo')
                    mon.need(calls['do'] == c0['do'] + 1, 'callback', 'callback of a redone action called {} times', calls['do'] - c0['do'])
                    c0 = dict(calls)
                mon.need(calls == c0, 'callback', 'callback called with nothing to redo')
                check(op)
        elif k == 's':
            st.savepoint()
            saved = cur
            mon.ev('savepoint')
        elif k == 'off':
            # recording off as the polygon package does it; the changes made meanwhile are taken back by hand
            keep = list(cells)
            from bgem.polygons import polygons as bp
            bp.disable_undo()
            n0 = st.undocount()
            for o in op[1]:
                if o[0] == 'a':
                    put(o[1], o[2])
                elif st.canundo():
                    cells[:] = keep
                    st.undo()
                    cur -= 1
                    keep = list(states[cur])
                    n0 -= 1
            mon.need(st.undocount() == n0, 'recording off', '{} actions recorded while off', st.undocount() - n0)
            bp.enable_undo()
            cells[:] = keep
            mon.ev('off')
        elif k == 'c':
            st.clear()
            states[:] = [tuple(cells)]
            texts[:] = []
            cur, saved = 0, None
            mon.ev('clear')
        elif k == 'y':
            r = [ret0, ret1, ret2, lambda: put(0, None)][op[1]]()
            mon.need(r == [None, None, (1, [2]), None][op[1]], 'result', 'undoable action {} returned {!r}', op, r)
            push(['', 'one', 'two', 'put 0'][op[1]])
            mon.ev('yields')
        elif k in ('bad', 'badr'):
            act = bad_undo if k == 'bad' else bad_redo
            runs[0] = 0
            if len(op) > 1 and op[1]:
                with undo.group('bad group'):
                    put(1, 5)
                    act(0)
                    put(1, 6)
            else:
                act(0)
            if k == 'badr':
                st.undo()
                mon.need(tuple(cells) == states[cur], 'state', 'after undo: state {} expected {}', cells, states[cur])
            c0 = dict(calls)
            try:
                (st.undo if k == 'bad' else st.redo)()
                mon.need(False, 'exception lost', 'exception of an undo or redo was swallowed')
            except Boom:
                mon.ev('failing undo' if k == 'bad' else 'failing redo')
            mon.need(calls == c0, 'callback', 'callback called by a failed undo or redo')
            mon.need(not st.canundo() and not st.canredo(), 'failed undo', 'history kept after a failed undo or redo')
            states[:] = [tuple(cells)]
            texts[:] = []
            cur, saved = 0, None
        check(op)
    while cur:
        st.undo()
        cur -= 1
        mon.ev('undo')
        check(['final undo'])
    while cur < len(states) - 1:
        st.redo()
        cur += 1
        mon.ev('redo')
        check(['final redo'])
