"""G09: option objects set exactly the named GMSH options, refuse unknown names and wrong types."""
import random
import numpy as np
from vlib import gmshutil
from vlib.core import Violation
from bgem.gmsh import gmsh as G, options

LEVEL = 'exploration'
RULE = ('One execution = a history of creating option objects (Mesh, Geometry, own subclasses) and assignments of valid and invalid names and values; the values of all known GMSH options are read '
        'before and after each step and compared with a model (dictionary). Distinct = (object, option, kind of the value, result).')
ASSUMPTIONS = ['the names of options of the installed GMSH']
REQUIRED = {'assignments': 5000, 'refused': 500, 'defaults': 500, 'reads': 100000}
CPU_S = 60
MESH = {'Algorithm': 2, 'Algorithm3D': 1, 'ToleranceInitialDelaunay': 1e-12, 'ToleranceEdgeLength': 0, 'AngleToleranceFacetOverlap': .1, 'AnisoMax': 1e-10, 'CharacteristicLengthFromPoints': 1,
        'CharacteristicLengthFromCurvature': 1, 'CharacteristicLengthExtendFromBoundary': None, 'CharacteristicLengthMin': None, 'CharacteristicLengthMax': None, 'CharacteristicLengthFactor': None,
        'QualityType': 2, 'MinimumCirclePoints': 6, 'MinimumCurvePoints': 6, 'RandomFactor': 1e-9, 'RandomFactor3D': 1e-12}
GEOM = {'Tolerance': 1e-8, 'ToleranceBoolean': 0, 'AutoCoherence': 1, 'OCCFixDegenerated': 0, 'OCCFixSmallEdges': 0, 'OCCFixSmallFaces': 0, 'OCCBooleanPreserveNumbering': 1, 'OCCSewFaces': 0}
ENUMS = {'Algorithm': {'MeshAdapt': 1, 'Automatic': 2, 'Delaunay': 5, 'FrontalDelaunay': 6, 'BAMG': 7, 'FrontalDelaunayQuads': 8, 'ParalelogramsPacking': 9},
         'Algorithm3D': {'Delaunay': 1, 'Frontal': 4, 'MMG3D': 7, 'RTree': 9, 'HXT': 10},
         'QualityType': {'SignedInversConditionNumber': 0, 'SignedInverseGradientError': 1, 'Gamma': 2, 'Distorsion': 3}}
CLASSES = {'Algorithm': options.Algorithm2d, 'Algorithm3D': options.Algorithm3d, 'QualityType': options.QualityType}


def cases(tier, rng):
    return [{'seed': rng.getrandbits(40), 'n': rng.choice([5, 20, 60])} for _ in range(600 if tier == 'quick' else 20000)]


class Own(options.OptionsBase):
    """user's options, also texts"""

    def __init__(self, size, text):
        super().__init__('General.')
        self.GraphicsFontSize = size
        self.DefaultFileName = text
        self.BackgroundGradient = bool
        self.TextEditor = str
        self.finish_init()


def run(case, mon):
    gmshutil.quiet()
    f = G.GeometryOCC('m')
    try:
        history(case, mon)
    finally:
        gmshutil.close(f)


def history(case, mon):
    rng = random.Random(case['seed'])
    opt = G.gmsh.option
    known = ['Mesh.' + n for n in MESH] + ['Geometry.' + n for n in GEOM] + ['General.GraphicsFontSize', 'General.Axes', 'General.BackgroundGradient', 'Mesh.SaveAll', 'Mesh.Smoothing', 'Geometry.OCCScaling',
                                                                              'Mesh.ElementOrder', 'General.Terminal']

    def read():
        mon.ev('reads', len(known))
        return {n: opt.getNumber(n) for n in known}
    state = read()

    def compare(what):
        now = read()
        for n in known:
            mon.need(now[n] == state[n] or abs(now[n] - state[n]) <= 1e-15 * abs(state[n]), 'option value', '{}: option {} is {}, should be {}', what, n, now[n], state[n])

    def write(n, v):
        state[n] = float(v)
    # names of one option in the installed GMSH are found by trying
    alias = {}
    for n in known:
        old = opt.getNumber(n)
        opt.setNumber(n, 3 if old != 3 else 2)
        alias[n] = [x for x in known if opt.getNumber(x) != state[x]]
        opt.setNumber(n, old)
    objs = []

    def create(kind):
        o = getattr(options, kind)()
        table = MESH if kind == 'Mesh' else GEOM
        for n, v in table.items():
            if v is not None:
                for x in alias[kind + '.' + n]:
                    write(x, v)
                write(kind + '.' + n, v)
                mon.ev('defaults')
        compare('defaults of ' + kind)
        return kind, o, table
    for _ in range(case['n']):
        r = rng.random()
        if not objs or r < .08:
            objs.append(create(rng.choice(['Mesh', 'Mesh', 'Geometry'])))
            continue
        if r < .12:
            size, text = rng.randrange(8, 30), 'own%d.geo' % rng.randrange(100)
            o = Own(size, text)
            write('General.GraphicsFontSize', size)
            editor = opt.getString('General.TextEditor')
            mon.need(opt.getString('General.DefaultFileName') == text, 'text option', 'default')
            for _ in range(4):
                n, t = rng.choice(['DefaultFileName', 'TextEditor']), 'a %d' % rng.randrange(100)
                setattr(o, n, t)
                text, editor = (t, editor) if n[0] == 'D' else (text, t)
                mon.need(opt.getString('General.DefaultFileName') == text and opt.getString('General.TextEditor') == editor, 'text option', '{} = {}', n, t)
            v = rng.random() < .5
            o.BackgroundGradient = v
            write('General.BackgroundGradient', v)
            for n, v in (('TextEditor', 3), ('DefaultFileName', True), ('GraphicsFontSize', 'x'), ('Algorithm', 2)):
                try:
                    setattr(o, n, v)
                except (AssertionError, ValueError, TypeError):
                    mon.ev('refused')
                    continue
                raise Violation('wrong option accepted', '%s = %r' % (n, v))
            compare('own options')
            continue
        kind, o, table = rng.choice(objs)
        name = rng.choice(list(table))
        how = rng.choice(['number', 'number', 'enum', 'bool', 'text', 'unknown', 'unknown', 'other'])
        if how == 'enum' and kind == 'Mesh':
            name = rng.choice(list(ENUMS))
        what = '%s.%s = %s' % (kind, name, how)
        if how in ('number', 'enum', 'bool'):
            if how == 'enum' and name in ENUMS:
                m = rng.choice(list(ENUMS[name]))
                v, val = getattr(CLASSES[name], m), ENUMS[name][m]
            elif how == 'bool':
                v = val = rng.random() < .5
            else:
                v = val = rng.choice([0, 1, 2, 7, .5, 1e-9, 123.25, 1e22, np.float64(.3)])
            if table[name] in (0, 1) or name in ENUMS or isinstance(table[name], int):
                v, val = (v, val) if how != 'number' else (int(v) % 10, int(val) % 10)
            before = {x: opt.getNumber(x) for x in alias[kind + '.' + name]}
            setattr(o, name, v)
            # GMSH may limit the value: the same assignment in GMSH itself is the reference
            got = {x: opt.getNumber(x) for x in known}
            for x, y in before.items():
                opt.setNumber(x, y)
            opt.setNumber(kind + '.' + name, float(val))
            for x in alias[kind + '.' + name] + [kind + '.' + name]:
                write(x, opt.getNumber(x))
            for x in known:
                mon.need(got[x] == state[x], 'option value', '{} {}: option {} is {}, should be {}', what, v, x, got[x], state[x])
            compare(what)
            mon.ev('assignments')
        else:
            if how == 'unknown':
                name = rng.choice([name + 'x', 'algorithm', 'Terminal', 'SaveAll', 'prefix2', ''] + list(GEOM if kind == 'Mesh' else MESH))
                v = rng.choice([1, 'a', .5])
            else:
                v = rng.choice(['1', 'Delaunay']) if how == 'text' else rng.choice([None, [1], (1, 2), {'a': 1}, np.array([1., 2.])])
            try:
                setattr(o, name, v)
                ok = True
            except (AssertionError, ValueError, TypeError):
                ok = False
            mon.need(not ok, 'wrong option accepted', '{}.{} = {!r}', kind, name, v)
            compare('refused ' + what)
            mon.ev('refused')
        mon.state(kind, name if name in table else 'unknown', how)
