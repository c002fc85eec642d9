"""One GMSH session per worker process."""


def session():
    import gmsh
    if not gmsh.isInitialized():
        gmsh.initialize(['-v', '0'], interruptible=False)
    gmsh.option.setNumber('General.Verbosity', 0)
    gmsh.option.setNumber('General.Terminal', 0)
    gmsh.clear()
    return gmsh


def api_mesh(gmsh):
    """mesh of the current model as GMSH gives it -> (nodes, elements {tag: (type, nodes, dim, entity)})"""
    tags, xyz, _ = gmsh.model.mesh.getNodes()
    nodes = {int(t): [float(x) for x in xyz[3 * i:3 * i + 3]] for i, t in enumerate(tags)}
    els = {}
    for d, e in gmsh.model.getEntities():
        types, et, en = gmsh.model.mesh.getElements(d, e)
        for t, ts, ns in zip(types, et, en):
            k = len(ns) // len(ts)
            for i, x in enumerate(ts):
                els[int(x)] = (int(t), [int(n) for n in ns[k * i:k * i + k]], d, e)
    return nodes, els


def quiet():
    """GMSH prints nothing from the next session on (GeometryOCC starts its own sessions)"""
    import os
    os.environ.setdefault('GMSH_QUIET', '1')


def close(factory):
    """end of a GeometryOCC also when a traceback still holds it (only one may exist)"""
    import gc
    gc.collect()
    factory.__del__()
    factory._owner = False


def workdir():
    """own working directory of the worker process"""
    import os
    d = os.path.join(os.environ.get('VERIF_SCRATCH', '/tmp'), 'wd%d' % os.getpid())
    os.makedirs(d, exist_ok=True)
    os.chdir(d)
