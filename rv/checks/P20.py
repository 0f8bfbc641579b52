"""Refinement through inner points and dual meshes."""
import numpy as np
import dolfin as df
import gen
from checks.P18 import attached
from xii.meshing.refinement import centroid_refine, circumcenter_refine, point_is_inside, simplices, simplex_area
from xii.meshing.dual_mesh import dual_mesh

RULE = ('case = (mesh of topological/geometric dimension 1/1 .. 3/3, manifolds included, random affine map, scale and '
        'numbering; refinement: centroid, circumcenter of acute or obtuse meshes, dual mesh with either centre; number '
        'of refinements; strictness). key = dimensions, method, number of refinements.')
REQUIRED = {'children': 2000, 'twice': 6, 'refused': 2, 'points': 15}
ASSUMPTIONS = ['numpy barycentric coordinates decide containment; conformity is decided by the number of cells at facets '
               'and the measure of the boundary']

DIMS = ((1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (3, 3))


def cases(tier, seed):
    rng = np.random.default_rng([seed, 2001])
    out = []
    for _ in range(12 if tier == 'quick' else 40):
        out += [('centroid', d, int(rng.integers(1, 3 if d[0] > 2 else 4))) for d in DIMS]
        out += [('circum', d, int(rng.integers(1, 2))) for d in ((1, 2), (2, 2), (2, 3))]
        out += [('dual', d, int(rng.integers(1, 3))) for d in ((2, 2), (2, 3))]
        out += [('dual_circum', d, 1) for d in ((2, 2), (2, 3))]
        out += [('obtuse', (2, 2), 1), ('inside', DIMS[rng.integers(6)], 1)]
    return [out[i] for i in rng.permutation(len(out))]


def lattice(rng, n):
    """Nearly equilateral triangulation of a rhombus: acute also when perturbed"""
    m = df.UnitSquareMesh(n, n, 'left')
    X = m.coordinates() @ np.array([[1, 0], [0.5, np.sqrt(3)/2]])
    X += 0.05/n*rng.uniform(-1, 1, X.shape)
    return X, m.cells()


def make(rng, dims, acute=False):
    tdim, gdim = dims
    if tdim == 1:
        n = int(rng.integers(2, 12))
        X = np.cumsum(rng.uniform(0.2, 1, n+1))/n
        X = X[:, None] if gdim == 1 else np.c_[X, 0.3*rng.uniform(-1, 1, (n+1, gdim-1))]
        C = np.c_[np.arange(n), np.arange(1, n+1)]
        if n > 2 and rng.integers(3) == 0 and gdim > 1:
            C = np.vstack([C, [n, 0]])
    elif tdim == 2:
        n = int(rng.integers(1, 4))
        if acute:
            X, C = lattice(rng, n)
        else:
            box = gen.Box(rng, 2, n=n+1)
            X, C = box.mesh.coordinates(), box.mesh.cells()
        if gdim == 3:
            X = np.c_[X, 0.02*rng.uniform(-1, 1, len(X))]
    else:
        box = gen.Box(rng, 3, n=int(rng.integers(1, 3)))
        X, C = box.mesh.coordinates(), box.mesh.cells()
    X = X @ gen.rotation(rng, gdim).T if gdim > 1 else X
    scale = float(rng.choice([1E-2, 1, 1, 30]))
    X = scale*(X + rng.uniform(-1, 1, gdim))
    p = rng.permutation(len(X))
    C = p[np.array(C, dtype=int)]
    # Vertex order in the cells too
    C = np.array([c[rng.permutation(len(c))] for c in C])[rng.permutation(len(C))]
    return gen.build(X[np.argsort(p)], C, tdim), scale


def circumcentre(P):
    E = P[1:]-P[0]
    y = np.linalg.solve(E @ E.T, 0.5*np.sum(E**2, axis=1))
    return P[0] + y @ E


def run(rec, case):
    kind, dims, nrefs = case
    rng, (tdim, gdim) = rec.rng, dims
    rec.ctx = '%s %dd in %dd, %d times' % (kind, tdim, gdim, nrefs)
    rec.seen(*case)
    if kind == 'inside':
        return points(rec, rng, dims)
    if kind == 'obtuse':
        return obtuse(rec, rng)
    acute = 'circum' in kind
    mesh, scale = make(rng, dims, acute)
    refinement(rec, kind, dims, nrefs, mesh, scale)
    # Once again after the mesh moved (which must keep acute cells acute)
    if acute:
        mesh.coordinates()[:] = mesh.coordinates() @ gen.rotation(rng, gdim).T + scale if gdim > 1 else mesh.coordinates() + scale
    else:
        gen.move(rng, mesh)
    rec.ctx += ', moved'
    refinement(rec, kind, dims, nrefs, mesh, scale)


def refinement(rec, kind, dims, nrefs, mesh, scale):
    acute = 'circum' in kind
    before = gen.mesh_state(mesh)
    center = circumcentre if acute else (lambda P: P.mean(axis=0))
    f = {'centroid': lambda: centroid_refine(mesh, nrefs=nrefs), 'circum': lambda: circumcenter_refine(mesh, nrefs=nrefs),
         'dual': lambda: dual_mesh(mesh, nrefs=nrefs), 'dual_circum': lambda: dual_mesh(mesh, 'circumcenter', nrefs)}[kind]
    ok, fine = rec.guard('refine', f)
    if not ok:
        return
    rec.check(before == gen.mesh_state(mesh), 'coarse_left_alone')
    rec.event('twice', nrefs > 1)
    judge(rec, mesh, fine, kind, nrefs, scale)
    if nrefs > 1:
        return
    # The new vertices
    X, F = mesh.coordinates(), fine.coordinates()
    new = [center(P) for P in X[mesh.cells()]]
    if kind.startswith('dual'):
        new += [P.mean(axis=0) for P in X[gen.entity_vertices(mesh, 1)]]
    rec.close(len(F), len(X)+len(new), 'number_of_vertices')
    d = np.array([np.min(np.linalg.norm(F-x, axis=1)) for x in new])
    rec.close(d, 0*d, 'new_vertices', atol=1E-10*scale)


def judge(rec, mesh, fine, kind, nrefs, scale):
    tdim = mesh.topology().dim()
    X, F = mesh.coordinates(), fine.coordinates()
    per = (6 if kind.startswith('dual') else tdim+1)**nrefs
    rec.close(fine.num_cells(), per*mesh.num_cells(), 'number_of_cells')
    rec.check((fine.topology().dim(), fine.geometry().dim()) == (tdim, mesh.geometry().dim()), 'dimensions')
    rec.check(list(fine.parent_entity_map) == [mesh.id()], 'parent')
    maps = fine.parent_entity_map[mesh.id()]
    rec.check(set(maps[tdim]) == set(range(fine.num_cells())), 'every_cell_mapped')
    vol, fvol = gen.cell_volumes(mesh), gen.cell_volumes(fine)
    got, count = np.zeros(len(vol)), np.zeros(len(vol), dtype=int)
    worst = 0.
    for c, p in maps[tdim].items():
        got[p] += fvol[c]
        count[p] += 1
        for x in F[fine.cells()[c]]:
            l = gen.barycentric(mesh, int(p), x)
            worst = max(worst, -l.min(), np.linalg.norm(l @ X[mesh.cells()[p]] - x)/scale)
    rec.check(worst < 1E-8, 'child_inside_parent', lambda: 'worst %g' % worst)
    rec.check(np.all(count == per), 'children_per_cell')
    rec.close(got, vol, 'children_fill_parent')
    rec.check(fvol.min() > 0, 'no_empty_cells')
    rec.event('children', fine.num_cells())
    # Vertices of the parent are there
    rec.check(sorted(maps[0].values()) == list(range(mesh.num_vertices())), 'every_vertex_kept')
    rec.check(all(np.array_equal(F[v], X[w]) for v, w in maps[0].items()), 'vertex_map')
    # Conforming
    measures = []
    if tdim > 1:
        for m in (mesh, fine):
            att = attached(m)
            rec.check(max(map(len, att.values())) <= 2, 'conforming')
            measures.append(sum(gen.simplex_volume(m.coordinates()[list(f)]) for f, c in att.items() if len(c) == 1))
        rec.close(*measures, 'same_boundary')
    # The mesh works
    rec.close(df.assemble(df.Constant(1)*df.dx(domain=fine)), vol.sum(), 'measure')


def obtuse(rec, rng):
    """Circumcenter outside of the cell is refused"""
    h = rng.uniform(0.1, 0.3)
    mesh = gen.build(np.array([[0, 0], [1, 0], [0.5 + 0.2*rng.uniform(-1, 1), h], [0.5, -2.]]), np.array([[0, 1, 2], [0, 1, 3]]), 2)
    rec.raises(AssertionError, 'outside_center_refused', lambda: circumcenter_refine(mesh))
    ok, fine = rec.guard('refine', centroid_refine, mesh)
    ok and judge(rec, mesh, fine, 'centroid', 1, 1.)
    rec.event('refused')


def points(rec, rng, dims):
    tdim, gdim = dims
    mesh, scale = make(rng, dims)
    for c, P in enumerate(mesh.coordinates()[mesh.cells()]):
        rec.close(simplex_area(P), gen.simplex_volume(P), 'simplex_area')
        l = rng.dirichlet(np.ones(tdim+1))
        if gdim == tdim and rng.integers(2):
            l[0], l[1] = l[0] + 1.5, l[1] - 1.5
        inside = l.min() >= 0
        x = l @ P
        rec.check(point_is_inside(x, P, 1E-10*gen.simplex_volume(P)) == inside, 'point_is_inside', lambda: str(l))
        if inside:
            rec.close(sum(map(simplex_area, simplices(x, P))), gen.simplex_volume(P), 'simplices')
        rec.event('points')
