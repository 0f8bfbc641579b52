"""Nothing outside of meshes is read; results do not depend on which connectivity happens to be there."""
import importlib
import numpy as np
import dolfin as df
from dolfin import inner, Measure, TrialFunction, TestFunction, FunctionSpace
import core, gen, ops, sanitize
from checks.P19 import colour
from checks.P18 import star
from xii import EmbeddedMesh, SubDomainMesh, OverlapMesh, mortar_meshes, transfer_markers, OuterNormal, InnerNormal, TangentCurve, Skeleton
from xii import ii_assemble, ii_convert, Trace
from xii.meshing import cell_centers as cc
from xii.meshing.embedded_mesh import NormalCurve, wind_number, encloses_points
from xii.meshing.refinement import centroid_refine
from xii.meshing.dual_mesh import dual_mesh
from xii.meshing.union_mesh import union_mesh
from xii.meshing.line_mesh import line_mesh
from xii.meshing.branching import color_branches, walk_vertices, is_loop
from xii.meshing.dg_utils import pcws_constant

RULE = ('case = one piece of the library on random input, run three times from the same random numbers: on meshes as built '
        '(nothing but cells and vertices), on meshes with all connectivity computed and with some of it computed; results '
        'must be equal. An access sanitizer checks each number of entity, cell or dof that the library hands to dolfin, that '
        'connectivity was computed before it is read, columns of matrices and arrays for the C++ mesh builder; it also '
        'watches random cases of the other checks. key = piece, dimension, variant.')
REQUIRED = {'accesses': 20000, 'compared': 200, 'foreign_cases': 20}
ASSUMPTIONS = ['dolfin itself stays inside of its arrays when it is called with valid numbers']
CASE_TIMEOUT = 400

OTHERS = {'P01': 3, 'P02': 2, 'P03': 2, 'P17': 8, 'P18': 8, 'P19': 6, 'P20': 6, 'P21': 6, 'P22': 6, 'P23': 6, 'P24': 4}


def cases(tier, seed):
    rng = np.random.default_rng([seed, 2601])
    k = 3 if tier == 'quick' else 30
    pieces = [(w.__name__, d) for w, dims in PIECES for d in dims]*(3*k)
    other = [(p, int(rng.integers(10**6))) for p, n in OTHERS.items() for _ in range(n*k)]
    out = pieces + other
    return [out[i] for i in rng.permutation(len(out))]


MODE = ['cold']


def touch(mesh, rng):
    """what a history of the mesh may have left behind"""
    d = mesh.topology().dim()
    pairs = [(i, j) for i in range(d+1) for j in range(d+1)]
    if MODE[0] == 'cold':
        return mesh
    if MODE[0] == 'some':
        pairs = [pairs[i] for i in rng.permutation(len(pairs))[:int(rng.integers(1, len(pairs)))]]
    for i, j in pairs:
        mesh.init(i, j)
    return mesh


def run(rec, case):
    sanitize.install()
    sanitize.log.update(checked=0, bad=[])
    name, dim = case
    if name in OTHERS:
        other(rec, name, dim)
    else:
        piece(rec, name, dim)
    for where, text in sanitize.log['bad']:
        rec.bad('access:' + where.split(':')[0], '%s in %s: %s' % (text, where, case))
    rec.evals += sanitize.log['checked']
    rec.oracles['access'] = rec.oracles.get('access', 0) + sanitize.log['checked']
    rec.event('accesses', sanitize.log['checked'])


def other(rec, name, number):
    """Case of another check under the sanitizer; what it says itself is left to that check"""
    mod = importlib.import_module('checks.' + name)
    todo = mod.cases('quick', 1)
    number %= len(todo)
    shadow = core.Recorder(name, 1, number)
    shadow.run(mod.run, todo[number])
    rec.event('foreign_cases')
    rec.seen(name)


def piece(rec, name, dim):
    rec.ctx = '%s %dd' % (name, dim)
    seed = int(rec.rng.integers(2**31))
    results = {}
    for mode in ('cold', 'all', 'some'):
        MODE[0] = mode
        rng, side = np.random.default_rng(seed), np.random.default_rng(seed+1)
        ok, out = rec.guard('%s_%s' % (name, mode), globals()[name], rng, dim, lambda m: touch(m, side))
        if not ok:
            return
        results[mode] = out
    for mode in ('all', 'some'):
        rec.check(len(results[mode]) == len(results['cold']), 'same_results', 'number of results')
        for i, (a, b) in enumerate(zip(results['cold'], results[mode])):
            a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
            rec.close(a, b, 'same_results', 'result %d after %s' % (i, mode), rtol=1E-11, atol=1E-12)
            rec.event('compared')
        rec.seen(name, dim, mode)


# ---------------------------------------------------------------- pieces
def maps(em):
    out = [em.coordinates(), em.cells(), em.marking_function.array()]
    for m in em.parent_entity_map.values():
        for d in sorted(m):
            out.append(sorted((int(k), int(v)) for k, v in m[d].items()))
    return out


def embedded(rng, dim, touch):
    mesh = touch(gen.Box(rng, dim, n=3 if dim == 2 else 2).mesh)
    d = int(rng.integers(1, dim+1))
    n = len(gen.entity_vertices(mesh, d))
    f = gen.mesh_function(mesh, d, values=rng.integers(0, 4, n))
    tags = [int(t) for t in rng.permutation(4)[:int(rng.integers(1, 4))]]
    em = EmbeddedMesh(f, tags)
    out = maps(em)
    touch(em)
    g = gen.mesh_function(mesh, dim-1, values=rng.integers(0, 3, len(gen.entity_vertices(mesh, dim-1))))
    if d == dim:
        out.append(em.translate_markers(g, [1, 2]).array())
        out.append(transfer_markers(em, g).array())
    other = touch(gen.clone(mesh))
    h = gen.mesh_function(other, d, values=f.array())
    out.append(sorted((int(k), int(v)) for k, v in em.compute_embedding(h, tags)[d].items()))
    return out


def subdomains(rng, dim, touch):
    mesh = touch(gen.Box(rng, dim, n=4 if dim == 2 else 2).mesh)
    f = colour(rng, mesh, 3, [1, 2, 3], patchy=True)
    a, b = touch(SubDomainMesh(f, [1, 2])), touch(SubDomainMesh(f, [2, 3]))
    out = maps(a) + maps(b)
    if (f.array() == 2).any():
        out += maps(OverlapMesh(a, b))
    present = sorted(set(int(i) for i in f.array()))
    if len(present) > 1:
        meshes, iface, colors = mortar_meshes(f, present, strict=False)
        out += maps(iface)
        for m in meshes:
            out += maps(m)
    box = gen.Box(rng, dim, n=2)
    slabs = gen.mesh_function(touch(box.mesh), dim, {1: box.cells_where(lambda r: r[0] < 0.5), 2: box.cells_where(lambda r: r[0] > 0.5)})
    meshes, iface, colors = mortar_meshes(slabs, [1, 2])
    return out + maps(iface)


def normals(rng, dim, touch):
    mesh = touch(gen.Box(rng, dim, n=2).mesh)
    bm = touch(df.BoundaryMesh(mesh, 'exterior'))
    centre = mesh.coordinates().mean(axis=0)
    fv = gen.entity_vertices(mesh, dim-1)
    cells = [set(c) for c in mesh.cells()]
    rim = [i for i, v in enumerate(fv) if sum(set(v) <= c for c in cells) == 1]
    em = touch(EmbeddedMesh(gen.mesh_function(mesh, dim-1, {1: rim}), 1))
    sk = Skeleton(mesh)
    return [f.vector().get_local() for f in (OuterNormal(bm, centre), InnerNormal(em, centre), OuterNormal(em, mesh))] + [sk.coordinates(), sk.cells()]


def curves(rng, dim, touch):
    X = star(rng, int(rng.integers(5, 12)), np.zeros(2))
    n = len(X)
    p = rng.permutation(n)
    Y = np.empty_like(X)
    Y[p] = X
    loop = touch(gen.build(np.c_[Y, np.zeros((n, dim-2))], [(p[i], p[(i+1) % n]) for i in range(n)], 1))
    out = [TangentCurve(loop).vector().get_local(), [is_loop(loop)]]
    if dim == 2:
        out += [NormalCurve(loop).vector().get_local(), wind_number(loop, np.zeros((1, 2))), encloses_points(loop, np.array([[0., 0.], [10., 10.]]))]
    f, b, l = color_branches(loop)
    out += [f.array(), b, l, list(walk_vertices(f, tag=1, is_loop=True))]
    again = touch(gen.clone(loop))
    out.append(list(walk_vertices(gen.mesh_function(again, 1, values=1), tag=1, is_loop=True)))
    path = touch(gen.build(X if dim == 2 else np.c_[X, X[:, 0]], [(i, i+1) for i in range(n-1)], 1))
    out.append(list(walk_vertices(gen.mesh_function(path, 1, values=1), tag=1)))
    tree = touch(gen.build(rng.uniform(-1, 1, (6, dim)), [(0, 1), (1, 2), (1, 3), (3, 4), (3, 5)], 1))
    f, b, l = color_branches(tree)
    return out + [f.array(), b, l, TangentCurve(touch(gen.build(rng.uniform(-1, 1, (4, dim)), [(0, 1), (1, 2), (2, 3)], 1))).vector().get_local()]


def refined(rng, dim, touch):
    mesh = touch(gen.Box(rng, dim, n=2).mesh)
    out = []
    for m in [centroid_refine(mesh)] + ([dual_mesh(mesh)] if dim == 2 else []):
        for x in m if isinstance(m, tuple) else (m, ):
            if isinstance(x, df.Mesh):
                out += [x.coordinates(), x.cells()]
            elif hasattr(x, 'array'):
                out.append(x.array())
    return out


def centres(rng, dim, touch):
    mesh = touch(gen.Box(rng, dim, n=2, perturb=True).mesh)
    out = []
    for f in (cc.CellCentroid, cc.CellCircumcenter, cc.CentroidVector, cc.CentroidDistance, cc.CentroidDistance2, cc.CircumVector,
              cc.CircumDistance2, cc.FacetCentroid):
        out.append(f(mesh).vector().get_local())
    for f in (cc.is_delaunay_interior, cc.is_delaunay_exterior):
        r = f(mesh)
        out.append([float(bool(r))] if np.isscalar(r) or isinstance(r, (bool, np.bool_)) else [0.])
    return out


def glued(rng, dim, touch):
    mesh = gen.Box(rng, dim, n=3 if dim == 2 else 2).mesh
    f = colour(rng, mesh, 3, [1, 2, 3])
    parts = [touch(EmbeddedMesh(f, t)) for t in sorted(set(int(i) for i in f.array()))]
    u = union_mesh(parts)
    branches = [np.vstack([np.zeros(dim), rng.uniform(-1, 1, (int(rng.integers(1, 4)), dim))]) for _ in range(3)]
    l = line_mesh(branches)
    if isinstance(l, tuple):
        l = l[0]
    return [u.coordinates(), u.cells(), l.coordinates(), l.cells()]


def constants(rng, dim, touch):
    mesh = touch(gen.Box(rng, dim, n=2).mesh)
    f = gen.mesh_function(mesh, dim, values=rng.integers(0, 3, mesh.num_cells()))
    g = pcws_constant(f)
    return [g.vector().get_local()]


def operators(rng, dim, touch):
    """One of each operator on meshes made by the world"""
    inner_build = gen.build
    gen.build = lambda *args: touch(inner_build(*args))
    gen_clone = gen.clone
    gen.clone = lambda m: inner_build(m.coordinates(), m.cells(), m.topology().dim())
    try:
        world = ops.world(rng, dim)
    finally:
        gen.build, gen.clone = inner_build, gen_clone
    out = []
    for op in [world[i] for i in rng.permutation(len(world))[:len(world)//2]]:
        touch(op.Q.mesh())
        u, q = TrialFunction(op.V), TestFunction(op.Q)
        A = gen.dense(ii_convert(ii_assemble(inner(op.op(u), q)*op.dX)))
        out.append(A)
    return out


def foreign_trace(rng, dim, touch):
    """Manifolds the mesh has not seen: boundary mesh, embedded mesh of a copy"""
    mesh = touch(gen.Box(rng, dim, n=2).mesh)
    copy = touch(gen.clone(mesh))
    n = len(gen.entity_vertices(mesh, dim-1))
    em = touch(EmbeddedMesh(gen.mesh_function(copy, dim-1, {1: rng.permutation(n)[:5]}), 1))
    out = []
    for m in (touch(df.BoundaryMesh(mesh, 'exterior')), em):
        V, Q = FunctionSpace(mesh, 'CG', 2), FunctionSpace(m, 'CG', 1)
        out.append(gen.dense(ii_convert(ii_assemble(inner(Trace(TrialFunction(V), m), TestFunction(Q))*Measure('dx', domain=m)))))
    return out


PIECES = [(embedded, (2, 3)), (subdomains, (2, 3)), (normals, (2, 3)), (curves, (2, 3)), (refined, (2, 3)), (centres, (2, 3)),
          (glued, (2, 3)), (constants, (2, 3)), (operators, (2, 2, 3, 3)), (foreign_trace, (2, 3))]
