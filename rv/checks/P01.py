"""Codimension-1 trace of a function reproduces the function on the manifold."""
import numpy as np
import dolfin as df
from dolfin import inner, TrialFunction, TestFunction, Measure
import gen, spaces
from xii import EmbeddedMesh, Trace, ii_assemble, ii_convert

RULE = ('case = (triangulated box with random affine map, interior perturbation, vertex and cell renumbering; a random '
        'set of facets as manifold with random tags, or the boundary, or a re-numbered copy of it; an element; tags to '
        'localise). Non-trivial when at least 3 manifold cells carried a non-zero function; key = dim/element/manifold '
        'kind/tag pattern.')
REQUIRED = {'cells': 500, 'tagged_out_cells': 20, 'interior_cells': 100, 'copied_manifold': 1, 'surface': 6, 'large': 10001}
ASSUMPTIONS = ['polynomial data; dolfin evaluation of a Function inside a given cell (eval_cell) and numpy Gauss '
               'quadrature are the reference']

E2 = ('CG1', 'CG2', 'CG3', 'vCG1', 'vCG2', 'tCG1', 'DG0', 'DG1', 'vDG1', 'RT1', 'BDM1', 'N1curl1', 'CR1', 'MINI', 'TH', 'wCG1', 'hCG1', 'wDG0', 'vRT1', 'vBDM1')
E3 = ('CG1', 'CG2', 'vCG1', 'DG1', 'N1curl1', 'RT1', 'CR1', 'wCG2', 'hCG1', 'tCG1', 'vCG3', 'vN1curl1')
ES = ('CG2', 'vCG1', 'DG1', 'RT1', 'BDM1', 'N1curl1')
KINDS = ('facets', 'boundary', 'bmesh', 'copy', 'plane')


def cases(tier, seed):
    rng = np.random.default_rng([seed, 101])
    reps = 2 if tier == 'quick' else 12
    out = []
    for r in range(reps):
        for dim, elms in ((2, E2), (3, E3)):
            for e in elms:
                kinds = rng.permutation(KINDS)[:2 if dim == 2 else 1]
                out += [(dim, e, str(k), bool(rng.integers(2))) for k in kinds]
        out += [(3, e, 'surface', bool(rng.integers(2))) for e in ES]
        out += [('large', 'CG1')]
    return [out[i] for i in rng.permutation(len(out))]


def manifold(rec, box, kind, rng):
    mesh, dim = box.mesh, box.dim
    fdim = dim-1
    fv = gen.entity_vertices(mesh, fdim)
    if kind in ('facets', 'plane', 'boundary'):
        if kind == 'facets':
            k = int(rng.integers(4, max(5, len(fv)//3)))
            chosen = rng.choice(len(fv), size=min(k, len(fv)), replace=False)
        elif kind == 'plane':
            chosen = box.facets_where(lambda r: gen.near(r[0], 0.5))
        else:
            chosen = box.facets_where(lambda r: gen.near(r[0], 0)) if rng.integers(2) else \
                np.unique(np.concatenate([box.facets_where(lambda r, a=a, b=b: gen.near(r[a], b)) for a in range(dim) for b in (0, 1)]))
        tags = rng.choice([1, 2, 5], size=len(chosen))
        f = gen.mesh_function(mesh, fdim)
        f.array()[chosen] = tags
        present = sorted(set(int(t) for t in tags))
        return EmbeddedMesh(f, present if len(present) > 1 else present[0]), present
    bm = df.BoundaryMesh(mesh, 'exterior')
    if kind == 'bmesh':
        return bm, None
    # A renumbered copy of the boundary: nothing links it to the parent but coordinates
    X, C = bm.coordinates().copy(), bm.cells().copy()
    p = rng.permutation(len(X))
    rec.event('copied_manifold')
    return gen.build(X[np.argsort(p)], p[C][rng.permutation(len(C))]), None


def parents_of(mesh, em):
    """brute force: facet of mesh with the vertices of each cell of em; -> cells of mesh attached"""
    d = em.topology().dim()
    X, EX = mesh.coordinates(), em.coordinates()
    table = {gen.coord_key(x): i for i, x in enumerate(X)}
    vmap = [table[gen.coord_key(x)] for x in EX]
    attached = {}
    for c, vs in enumerate(mesh.cells()):
        vs = sorted(vs)
        for skip in range(len(vs)):
            attached.setdefault(tuple(vs[:skip]+vs[skip+1:]), []).append(c)
    return [attached[tuple(sorted(vmap[v] for v in vs))] for vs in em.cells()]


def large(rec, elm, restriction=''):
    """More than ten thousand cells of the manifold; values at their midpoints"""
    rng = rec.rng
    rec.ctx = 'large %s %s' % (elm, restriction)
    n, m = int(rng.integers(102, 110)), int(rng.integers(100, 104))
    mesh = df.UnitSquareMesh(n, m)
    ev = gen.entity_vertices(mesh, 1)
    X = mesh.coordinates()
    P, ref = X[ev], X.copy()
    chosen = np.where((np.abs(P[:, 0, 0]-P[:, 1, 0]) < 1E-10) & (P[:, 0, 0] > 1E-10) & (P[:, 0, 0] < 1-1E-10))[0]
    X += rng.uniform(-0.2/n, 0.2/n, X.shape)
    f = gen.mesh_function(mesh, 1)
    f.array()[chosen] = rng.choice([1, 3], len(chosen), p=[0.99, 0.01])
    em = EmbeddedMesh(f, [1, 3])
    V, Q = spaces.space(mesh, elm), df.FunctionSpace(em, 'DG', 0)
    u, q = gen.randfun(rng, V), TestFunction(Q)
    T = em.coordinates()[em.cells()]
    t = T[:, 1]-T[:, 0]
    N = np.c_[t[:, 1], -t[:, 0]]*rng.choice([-1, 1], len(t))[:, None]
    args = ()
    if restriction:
        W = df.VectorFunctionSpace(em, 'DG', 0, 2)
        normal = df.Function(W)
        a = normal.vector().get_local()
        for i in range(2):
            a[[W.sub(i).dofmap().cell_dofs(c)[0] for c in range(em.num_cells())]] = N[:, i]
        normal.vector().set_local(a)
        args = (restriction, normal)
    b = ii_assemble(inner(Trace(u, em, *args), q)*Measure('dx', domain=em)).get_local()
    # Values at the midpoint in the cells around
    vertex = {x.tobytes(): i for i, x in enumerate(np.ascontiguousarray(X))}
    att = {}
    for c, vs in enumerate(mesh.cells()):
        for i in range(3):
            att.setdefault(frozenset(int(v) for k, v in enumerate(vs) if k != i), []).append(c)
    uv, dm, cells = u.vector().get_local(), V.dofmap(), mesh.cells()
    mids = X[cells].mean(axis=1)
    expected = np.zeros(em.num_cells())
    for c, line in enumerate(em.cells()):
        vs = [vertex[np.ascontiguousarray(em.coordinates()[v]).tobytes()] for v in line]
        values = {}
        for pc in att[frozenset(vs)]:
            dofs = dm.cell_dofs(pc)
            side = np.dot(mids[pc] - T[c].mean(axis=0), N[c]) > 0
            values['+' if side else '-'] = uv[dofs[0]] if elm == 'DG0' else uv[dofs[[list(cells[pc]).index(v) for v in vs]]].mean()
        p, k = values['+'], values['-']
        expected[Q.dofmap().cell_dofs(c)[0]] = {'': p, '+': p, '-': k, 'avg': (p+k)/2, 'jump': p-k}[restriction]*np.linalg.norm(t[c])
    rec.close(b, expected, 'large_manifold', atol=1E-12, rtol=1E-10)
    rec.event('large', em.num_cells())
    rec.seen('large', elm, restriction)


def run(rec, case):
    if case[0] == 'large':
        return large(rec, *case[1:])
    dim, elm, kind, localise = case
    rng = rec.rng
    rec.ctx = '%dd %s on %s' % (dim, elm, kind)
    box = gen.Box(rng, dim, n=4 if dim == 2 else 2, keep=[(0, 0.5)])
    mesh = box.mesh
    if kind == 'surface':
        mesh = gen.oriented_surface(box, rng.choice([-1, 1]))
        ev = gen.entity_vertices(mesh, 1)
        marks = gen.mesh_function(mesh, 1)
        marks.array()[rng.choice(len(ev), size=len(ev)//4, replace=False)] = rng.choice([1, 2, 5], size=len(ev)//4)
        present = [int(t) for t in (1, 2, 5) if t in marks.array()]
        em = EmbeddedMesh(marks, present)
        rec.event('surface')
    else:
        em, present = manifold(rec, box, kind, rng)
    V = spaces.space(mesh, elm)
    Q = spaces.like(V, 'DG', 1)(em)
    tag, live = None, np.ones(em.num_cells(), dtype=bool)
    if localise and present and len(present) > 1:
        tag = [int(t) for t in rng.choice(present, size=int(rng.integers(1, len(present))), replace=False)]
        live = np.isin(em.marking_function.array(), tag)
        if len(tag) == 1 and rng.integers(2):
            tag = tag[0]
    dX = Measure('dx', domain=em)
    u, v, p, q = TrialFunction(V), TestFunction(V), TrialFunction(Q), TestFunction(Q)
    f, g = gen.randfun(rng, V), gen.randfun(rng, V)
    tr = lambda w: Trace(w, em, tag=tag)

    A = gen.dense(ii_convert(ii_assemble(inner(tr(u), q)*dX)))
    rec.close(A.shape, (Q.dim(), V.dim()), 'shape')
    b = ii_assemble(inner(tr(f), q)*dX).get_local()
    fv, gv = f.vector().get_local(), g.vector().get_local()
    rec.close(b, A @ fv, 'trial_vs_coefficient')
    At = gen.dense(ii_convert(ii_assemble(inner(p, tr(v))*dX)))
    rec.close(At, A.T, 'test_is_transpose_of_trial')

    cells = parents_of(mesh, em)
    deg = V.ufl_element().degree()
    r = gen.randfun(rng, Q)
    rv = r.vector().get_local()
    weak = A @ fv
    mass = 0.
    sides = []
    n_int = 0
    for c, x, w in gen.quad(em, deg+2):
        dofs = Q.dofmap().cell_dofs(c)
        got = rv[dofs] @ weak[dofs]
        rx = gen.evaluate(r, x, c)
        if not live[c]:
            rec.check(abs(got) < 1E-12, 'zero_outside_tag', lambda: 'moment %g on untagged cell' % got)
            rec.event('tagged_out_cells')
            sides.append(None)
            continue
        cand = []
        for pc in cells[c]:
            fx = gen.evaluate(f, x, pc)
            cand.append((abs(np.sum(w*np.sum(fx*rx, axis=1)) - got), pc, fx))
        n_int += len(cand) > 1
        if elm in spaces.CONTINUOUS:       # all sides agree, so all of them must match
            err, pc, fx = max(cand, key=lambda t: t[0])
        else:
            err, pc, fx = min(cand, key=lambda t: t[0])
        scale = np.sum(w)*(1 + np.abs(fx).max()*np.abs(rx).max())
        rec.check(err < 1E-10*max(1, scale), 'trace_value', lambda: 'cell %d moment %g off by %g (measure %g)' % (c, got, err, w.sum()))
        gx = gen.evaluate(g, x, pc)
        mass += np.sum(w*np.sum(fx*gx, axis=1))
        sides.append(pc)
    n = int(live.sum())
    rec.event('cells', n)
    rec.event('interior_cells', n_int)
    M = gen.dense(ii_convert(ii_assemble(inner(tr(u), tr(v))*dX)))
    if elm in spaces.CONTINUOUS or n_int == 0:
        rec.close(fv @ M @ gv, mass, 'both_arguments_traced', rtol=1E-7)
        rec.close(ii_assemble(inner(tr(f), tr(g))*dX), mass, 'functional', rtol=1E-7)
    rec.close(M, M.T, 'trace_mass_symmetric')
    if elm in ('CG1', 'CG2', 'CG3', 'MINI'):
        # Surface gradient of the trace
        one = spaces.space(em, 'vDG1')
        G = gen.randfun(rng, one)
        val = ii_assemble(inner(df.grad(tr(f)), G)*dX)
        ref = 0.
        for c, x, w in gen.quad(em, deg+2):
            if not live[c]:
                continue
            P = em.coordinates()[em.cells()[c]]
            E = (P[1:]-P[0]).T
            proj = E @ np.linalg.pinv(E)
            eps = 1E-5
            Gx = gen.evaluate(G, x, c)
            t = E / np.linalg.norm(E, axis=0)
            # directional derivatives by exact differences of the polynomial along the facet
            D = np.stack([(8*(gen.evaluate(f, x+eps*d, sides[c])-gen.evaluate(f, x-eps*d, sides[c]))
                           - (gen.evaluate(f, x+2*eps*d, sides[c])-gen.evaluate(f, x-2*eps*d, sides[c])))[:, 0]/(12*eps)
                          for d in t.T], axis=1)
            grad = np.linalg.lstsq(t.T, D.T, rcond=None)[0].T @ proj.T
            ref += np.sum(w*np.sum(grad*Gx, axis=1))
        rec.close(val, ref, 'surface_gradient', rtol=1E-6, atol=1E-7)
    if n >= 3:
        rec.seen(dim, elm, kind, 'tag%s' % (tag,), n)
    rec.sample('%s, %d manifold cells (%d interior to the parent), tag=%s, |trace moments|=%.3g' % (rec.ctx, n, n_int, tag, np.linalg.norm(weak)))
