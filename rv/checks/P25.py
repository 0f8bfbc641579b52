"""Meshes and markers from gmsh."""
import numpy as np
import dolfin as df
import gmsh
import gen
from xii.meshing.make_mesh_cpp import make_mesh
from xii.meshing.gmsh_interopt import build_mesh, mesh_from_gmsh, msh_gmsh_model

RULE = ('case = (arrays of nodes and elements as gmsh returns them, from random meshes in 1d-3d with marked lower dimensional '
        'entities, elements in any order, nodes no element uses) or a gmsh model of a random geometry (rectangles or boxes with '
        'inclusions, polygons with embedded points and arcs) with physical groups, or plain arrays of random memory layout and integer type. key = kind, dimensions, number of tags.')
REQUIRED = {'cells': 2000, 'marked': 1000, 'unused_nodes': 40, 'models': 40, 'layouts': 60}


def cases(tier, seed):
    rng = np.random.default_rng([seed, 2501])
    out = []
    for _ in range(50 if tier == 'quick' else 150):
        out += [('arrays', 2, 2), ('arrays', 2, 3), ('arrays', 3, 3), ('arrays', 1, 2), ('arrays', 1, 3),
                ('layout', 1, 1), ('layout', int(rng.integers(1, 3)), 2), ('layout', int(rng.integers(1, 4)), 3), ('disk', 2, 2), ('boxes', 3, 3), ('patches', 2, 2)]
    return [out[i] for i in rng.permutation(len(out))]


def run(rec, case):
    kind, tdim, gdim = case
    rec.ctx = '%s %dd in %dd' % case
    if kind == 'arrays':
        return arrays(rec, rec.rng, tdim, gdim)
    if kind == 'layout':
        return layout(rec, rec.rng, tdim, gdim)
    gmsh.initialize(['', '-v', '0'], False, False)
    try:
        {'disk': disk, 'boxes': boxes, 'patches': patches}[kind](rec, rec.rng)
    finally:
        gmsh.finalize()


def layout(rec, rng, tdim, gdim):
    """the builder with arrays of any memory layout and integer type"""
    base = [df.UnitIntervalMesh(5), df.UnitSquareMesh(2, 2), df.UnitCubeMesh(1, 1, 1)][tdim-1]
    X = np.zeros((base.num_vertices(), gdim))
    X[:, :tdim] = base.coordinates() + rng.uniform(-0.05, 0.05, base.coordinates().shape)
    X = X @ gen.rotation(rng, gdim)
    C = base.cells()[rng.permutation(base.num_cells())].astype(rng.choice(['int32', 'int64', 'uint32', 'uintp', 'int16']))

    def dress(a):
        how = str(rng.choice(['plain', 'fortran', 'strided', 'transposed', 'flat']))
        rec.event(how)
        if how == 'strided':
            b = np.zeros((2*a.shape[0], 3*a.shape[1]), dtype=a.dtype)
            b[::2, ::3] = a
            return b[::2, ::3]
        return {'plain': a, 'fortran': np.asfortranarray(a), 'transposed': np.ascontiguousarray(a.T).T, 'flat': a.flatten()}[how]
    Y, D = dress(X), dress(C)
    keep = Y.copy(), D.copy()
    target = df.Mesh() if rng.integers(2) else None
    ok, mesh = rec.guard('make_mesh', make_mesh, Y, D, tdim, gdim, *([] if target is None else [target]))
    if not ok:
        return
    rec.check(target is None or mesh.id() == target.id(), 'given_mesh_filled')
    rec.check(np.array_equal(keep[0], Y) and np.array_equal(keep[1], D), 'arrays_left_alone')
    rec.check((mesh.topology().dim(), mesh.geometry().dim()) == (tdim, gdim), 'dimensions')
    rec.check(np.array_equal(mesh.coordinates(), X), 'layout_vertices')
    rec.check(np.array_equal(np.sort(mesh.cells(), axis=1), np.sort(C, axis=1)), 'layout_cells')
    rec.event('layouts')
    rec.seen(rec.ctx, C.dtype)


MSH = {1: 1, 2: 2, 3: 4}


def compare(rec, nodes, data, tdim):
    """mesh and functions have the cells and entities of data, in terms of coordinates"""
    state = nodes.copy(), {k: (v['topology'].copy(), v['cell_data'].copy()) for k, v in data.items()}
    ok, out = rec.guard('import', mesh_from_gmsh, nodes, data)
    rec.check(np.array_equal(state[0], nodes) and all(np.array_equal(state[1][k][0], data[k]['topology']) and
                                                      np.array_equal(state[1][k][1], data[k]['cell_data']) for k in data), 'arrays_left_alone')
    if not ok:
        return
    mesh, functions = out
    top = data[MSH[tdim]]
    used = np.unique(top['topology'])
    flat = np.abs(nodes[used][:, 2]).max() < 1E-12
    gdim = 2 if flat else 3
    if not rec.check(mesh.topology().dim() == tdim and mesh.geometry().dim() == gdim, 'dimensions',
                     lambda: 'got %d in %d expected %d in %d' % (mesh.topology().dim(), mesh.geometry().dim(), tdim, gdim)):
        return None
    rec.close(mesh.num_vertices(), len(used), 'vertices')
    rec.close(mesh.num_cells(), len(top['topology']), 'cells')
    key = lambda X: tuple(sorted(np.ascontiguousarray(x).tobytes() for x in X))      # coordinates are handed over bit by bit
    X = mesh.coordinates()
    expected = [(key(nodes[c][:, :gdim]), int(t)) for c, t in zip(top['topology'], top['cell_data'])]
    if tdim in functions:
        got = [(key(X[c]), int(functions[tdim][i])) for i, c in enumerate(mesh.cells())]
        rec.check(sorted(got) == sorted(expected), 'cells_and_tags')
    else:
        rec.check(min(t for _, t in expected) == 0, 'cell_function_there')
        rec.check(sorted(key(X[c]) for c in mesh.cells()) == sorted(k for k, _ in expected), 'cells_and_tags')
    rec.event('cells', mesh.num_cells())
    for elm, d in data.items():
        dim = {1: 1, 2: 2, 4: 3}[elm]
        if dim == tdim:
            continue
        if d['cell_data'].min() == 0:
            continue
        if not rec.check(dim in functions and functions[dim].dim() == dim and functions[dim].mesh().id() == mesh.id(), 'function_there'):
            continue
        want = {key(nodes[c][:, :gdim]): int(t) for c, t in zip(d['topology'], d['cell_data'])}
        ev = gen.entity_vertices(mesh, dim)
        got = {key(X[vs]): int(functions[dim][i]) for i, vs in enumerate(ev)}
        rec.check(all(got[k] == want.get(k, 0) for k in got) and set(want) <= set(got), 'entity_tags')
        rec.event('marked', len(want))
    rec.seen(rec.ctx, len(data), len(set(top['cell_data'].tolist())))
    return mesh, functions


def arrays(rec, rng, tdim, gdim):
    if tdim == 1:
        n = int(rng.integers(2, 12))
        X = rng.uniform(-1, 1, (n, gdim))
        C = np.array([(int(rng.integers(0, i)), i) for i in range(1, n)])
        mesh = gen.build(X, C, 1)
    else:
        mesh = gen.Box(rng, tdim, n=int(rng.integers(1, 5 if tdim == 2 else 3))).mesh
        X, C = mesh.coordinates(), mesh.cells()
        if gdim > tdim:
            X = np.c_[X, rng.uniform(0.1, 1, len(X))]
    extra = int(rng.integers(0, 6))*int(rng.integers(2))
    rec.event('unused_nodes', extra)
    N = len(X) + extra
    where = rng.permutation(N)[:len(X)]
    nodes = rng.uniform(-1, 1, (N, 3))
    nodes[:, 2] *= gdim == 3
    nodes[where] = np.c_[X, np.zeros((len(X), 3-gdim))]
    data = {}
    for d in range(1, tdim+1):
        ev = gen.entity_vertices(mesh, d) if d < tdim else np.array(C, dtype=int)
        if d < tdim:
            if rng.integers(4) == 0:
                continue
            ev = ev[rng.permutation(len(ev))[:int(rng.integers(1, len(ev)+1))]]
        ev = np.array([rng.permutation(e) for e in ev])
        tags = rng.integers(1, 5, len(ev))
        if rng.integers(5) == 0:
            tags = np.zeros(len(ev), dtype=int)
        data[MSH[d]] = {'topology': where[ev].astype('uint64'), 'cell_data': tags}
    order = [int(k) for k in rng.permutation(list(data))]
    data = {k: data[k] for k in order}
    compare(rec, nodes, data, tdim)
    # Other contents of the same arrays
    nodes[:, :gdim] *= rng.uniform(0.5, 2, gdim)
    for v in data.values():
        v['cell_data'][:] = rng.permutation(v['cell_data'])
    compare(rec, nodes, data, tdim)
    nodes[where] = np.c_[X, np.zeros((len(X), 3-gdim))]
    # The builder itself
    cell = mesh.ufl_cell()
    p = rng.permutation(len(X))
    Y = np.empty_like(X)
    Y[p] = X
    ok, m = rec.guard('build', build_mesh, Y, p[np.asarray(C, dtype=int)], cell) if gdim == mesh.geometry().dim() else (False, None)
    if ok:
        rec.check(np.array_equal(m.coordinates(), Y) and
                  np.array_equal(np.sort(m.cells(), axis=1), np.sort(p[np.asarray(C, dtype=int)], axis=1)), 'build')


def measure(mesh, f, tag):
    return gen.cell_volumes(mesh)[f.array() == tag].sum()


def finish(rec, dim, options=None):
    ok, out = rec.guard('model', msh_gmsh_model, gmsh.model, dim, options)
    if not ok:
        return None
    nodes, data = out
    # Against what gmsh itself has
    tags, X, _ = gmsh.model.mesh.getNodes()
    X = dict(zip((int(t) for t in tags), X.reshape((-1, 3))))
    for d, tag in gmsh.model.getPhysicalGroups():
        want = []
        for e in gmsh.model.getEntitiesForPhysicalGroup(d, tag):
            types, _, en = gmsh.model.mesh.getElements(d, e)
            want += [np.array([X[int(n)] for n in el]).tolist() for t, ns in zip(types, en) for el in ns.reshape((-1, d+1))]
        D = data[MSH[d]]
        rows = np.where(D['cell_data'] == tag)[0]
        got = [nodes[el].tolist() for el in D['topology'][rows]]
        rec.check(sorted(got) == sorted(want), 'elements_of_group', lambda: 'group %s' % ((d, tag), ))
    rec.event('models')
    return compare(rec, nodes, data, dim)


def disk(rec, rng):
    """Polygon with arc sides: centres of the arcs are nodes of no cell; embedded points"""
    g = gmsh.model.geo
    h = float(rng.uniform(0.2, 0.6))
    c = rng.uniform(-1, 1, 2)
    n = int(rng.integers(3, 6))
    centre = None if rng.integers(2) else g.addPoint(c[0], c[1], 0, h)
    t = np.sort(rng.uniform(0, 2*np.pi/n*0.5, n)) + 2*np.pi/n*np.arange(n)
    pts = [g.addPoint(c[0]+np.cos(s), c[1]+np.sin(s), 0, h) for s in t]
    if centre is None:
        centre = g.addPoint(c[0], c[1], 0, h)
    lines = [g.addCircleArc(pts[i], centre, pts[(i+1) % n]) if rng.integers(2) else g.addLine(pts[i], pts[(i+1) % n]) for i in range(n)]
    s = g.addPlaneSurface([g.addCurveLoop(lines)])
    g.synchronize()
    tag = int(rng.integers(1, 9))
    gmsh.model.addPhysicalGroup(2, [s], tag)
    k = int(rng.integers(0, n))
    for i, l in enumerate(lines[:k]):
        gmsh.model.addPhysicalGroup(1, [l], 10 + i//2 if i % 2 == 0 else 30 + i)
    out = finish(rec, 2)
    if out:
        mesh, functions = out
        rec.check(len(functions) == 1 + (k > 0), 'functions')


def boxes(rec, rng):
    """Box with boxes inside"""
    o = gmsh.model.occ
    n = int(rng.integers(1, 3))
    big = o.addBox(0, 0, 0, 1, 1, 1)
    small = [o.addBox(0.1+0.5*i, 0.2, 0.3, 0.3, float(rng.uniform(.2, .6)), 0.3) for i in range(n)]
    out, parts = o.fragment([(3, big)], [(3, s) for s in small])
    o.synchronize()
    small = [p[0][1] for p in parts[1:]]
    rest = [t for _, t in out if t not in small]
    gmsh.model.addPhysicalGroup(3, rest, 1)
    for i, s in enumerate(small):
        gmsh.model.addPhysicalGroup(3, [s], 2+i)
    surfaces = [t for _, t in gmsh.model.getBoundary([(3, s) for s in small], oriented=False)]
    if rng.integers(3):
        gmsh.model.addPhysicalGroup(2, surfaces, 5)
    if rng.integers(2):
        lines = [t for _, t in gmsh.model.getEntities(1)]
        gmsh.model.addPhysicalGroup(1, [int(t) for t in rng.choice(lines, 4, replace=False)], 7)
    vol = [gmsh.model.occ.getMass(3, s) for s in small]
    out = finish(rec, 3, {'Mesh.MeshSizeMin': 0.3, 'Mesh.MeshSizeMax': 0.5})
    if out:
        mesh, functions = out
        for i, v in enumerate(vol):
            rec.close(measure(mesh, functions[3], 2+i), v, 'volume')
        rec.close(measure(mesh, functions[3], 1), 1-sum(vol), 'volume')


def patches(rec, rng):
    """Overlapping rectangles"""
    o = gmsh.model.occ
    n = int(rng.integers(2, 4))
    rects = [(2, o.addRectangle(*rng.uniform(-1, 0, 2), 0, *rng.uniform(0.5, 2, 2))) for i in range(n)]
    out, parts = o.fragment(rects[:1], rects[1:])
    o.synchronize()
    pieces = [t for _, t in out]
    areas = {t: o.getMass(2, t) for t in pieces}
    tags = {}
    groups = np.array_split(rng.permutation(pieces), int(rng.integers(1, len(pieces)+1)))
    if len(groups) > 1 and rng.integers(2):          # some of the geometry is in no group
        groups = groups[1:]
    for i, g in enumerate(groups):
        gmsh.model.addPhysicalGroup(2, [int(t) for t in g], 3+2*i)
        tags[3+2*i] = sum(areas[int(t)] for t in g)
    inside = [(2, int(t)) for g in groups for t in g]
    lines = sorted({abs(t) for _, t in gmsh.model.getBoundary(inside, combined=False, oriented=False)})
    if rng.integers(3):
        for i, l in enumerate(rng.permutation(lines)[:int(rng.integers(1, 4))]):
            gmsh.model.addPhysicalGroup(1, [int(l)], 1+i)
    out = finish(rec, 2, {'Mesh.MeshSizeMin': 0.2, 'Mesh.MeshSizeMax': float(rng.uniform(0.3, 0.8))})
    if out:
        mesh, functions = out
        for t, area in tags.items():
            rec.close(measure(mesh, functions[2], t), area, 'area')
