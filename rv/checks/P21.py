"""Centers of cells and facets, distances between them."""
import numpy as np
import dolfin as df
import gen
from checks.P18 import attached, cell_values
from checks.P20 import make, circumcentre
from xii.meshing import cell_centers as cc

RULE = ('case = (mesh of dimensions 1/2 .. 3/3 with random scale, numbering and vertex order; quantity). Every cell/facet '
        'value of the returned function is compared. key = quantity, dimensions.')
REQUIRED = {'cells': 300, 'facets': 500}
ASSUMPTIONS = ['numpy linear algebra on the vertices']

CELL = ('CellCentroid', 'CellCircumcenter')
FACET = ('FacetCentroid', 'CentroidVector', 'CircumVector', 'CentroidDistance', 'CircumDistance', 'CentroidDistance2', 'CircumDistance2', 'is_delaunay')


def cases(tier, seed):
    rng = np.random.default_rng([seed, 2101])
    out = []
    for _ in range(12 if tier == 'quick' else 40):
        out += [(q, d) for q in CELL for d in ((1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (3, 3))]
        out += [(q, d) for q in FACET for d in ((2, 2), (3, 3)) + (() if 'is_' in q else ((2, 3), ))]
        out += [('FacetCentroid', d) for d in ((1, 1), (1, 2), (1, 3))]
    return [out[i] for i in rng.permutation(len(out))]


def run(rec, case):
    what, dims = case
    rng, (tdim, gdim) = rec.rng, dims
    rec.ctx = '%s %dd in %dd' % (what, tdim, gdim)
    rec.seen(*case)
    acute = 'Circum' in what and tdim == 2 and bool(rng.integers(2))
    mesh, scale = make(rng, dims, acute)
    judge(rec, what, dims, mesh, scale)
    # Nothing is remembered about the mesh before
    gen.move(rng, mesh)
    rec.ctx += ', moved'
    judge(rec, what, dims, mesh, scale)


def judge(rec, what, dims, mesh, scale):
    tdim, gdim = dims
    before = gen.mesh_state(mesh)
    ok, f = rec.guard('computed:' + what + ('' if tdim > 1 else ':line'), getattr(cc, what), mesh)
    if not ok:
        return
    rec.check(before == gen.mesh_state(mesh), 'mesh_left_alone')
    X = mesh.coordinates()
    P = X[mesh.cells()]
    mids = P.mean(axis=1)
    circ = np.array([circumcentre(p) for p in P])
    if what in CELL:
        ref = mids if what == 'CellCentroid' else circ
        rec.close(cell_values(f), ref, what, atol=1E-9*scale, rtol=1E-9)
        rec.close(cc.cellwise_values(f), ref, 'cellwise_values', atol=1E-9*scale, rtol=1E-9)
        rec.event('cells', len(P))
        return
    centers = circ if what.startswith('Circum') or what == 'is_delaunay' else mids
    facets = [tuple(int(v) for v in f) for f in gen.entity_vertices(mesh, tdim-1)] if tdim > 1 else [(v, ) for v in range(len(X))]
    att = attached(mesh)
    fm = np.array([X[list(f)].mean(axis=0) for f in facets])
    sides = [att[tuple(sorted(f))] for f in facets]
    if what == 'FacetCentroid':
        ref = fm
    elif what.endswith('Vector') or what == 'is_delaunay':
        ref = np.array([centers[s[0]] - (centers[s[1]] if len(s) == 2 else fm[i]) for i, s in enumerate(sides)])
    elif what.endswith('Distance'):
        ref = np.array([np.linalg.norm(centers[s[0]] - (centers[s[1]] if len(s) == 2 else fm[i])) for i, s in enumerate(sides)])
    else:
        ref = np.array([sum(np.linalg.norm(centers[c] - fm[i]) for c in s) for i, s in enumerate(sides)])
    if what == 'is_delaunay':
        size = np.linalg.norm(ref, axis=1)
        if size.min() < 1E-5*scale:
            return
        N = np.array([np.linalg.svd(X[list(f)][1:]-X[f[0]])[2][-1] for f in facets])
        err = np.abs(np.abs(np.sum(N*ref, axis=1)/size) - 1)
        inner = np.array([len(s) == 2 for s in sides])
        rec.close(f, (err[inner].max() if inner.any() else 0., err[~inner].max()), 'is_delaunay', atol=1E-6)
        rec.event('facets', len(facets))
        return
    got = facet_values(f, mesh)
    if what.endswith('Vector'):          # Interior ones have arbitrary direction
        s = np.sign(np.sum(got*ref, axis=1))
        got = np.where(np.array([len(s_) == 2 for s_ in sides])[:, None], s[:, None], 1)*got
    if got.ndim > 1 and got.shape[1] == 1 and np.ndim(ref) == 1:
        got = got[:, 0]
    rec.close(got, ref, what, atol=1E-9*scale, rtol=1E-9)
    rec.event('facets', len(facets))


def facet_values(f, mesh):
    """Rows are values in facets"""
    V = f.function_space()
    tdim = mesh.topology().dim()
    n = int(np.prod(f.ufl_shape)) if f.ufl_shape else 1
    vec = f.vector().get_local()
    subs = [V.sub(i) for i in range(n)] if n > 1 else [V]
    mesh.init(tdim, tdim-1)
    if tdim > 1:
        mesh.init(tdim-1)
    c2f = mesh.topology()(tdim, tdim-1)
    out = np.full((mesh.num_entities(tdim-1), n), np.nan)
    for c in range(mesh.num_cells()):
        for k, e in enumerate(c2f(c)):
            for i, W in enumerate(subs):
                dm = W.dofmap()
                d, = dm.cell_dofs(c)[dm.tabulate_entity_dofs(tdim-1, k)]
                out[e, i] = vec[d]
    return out
