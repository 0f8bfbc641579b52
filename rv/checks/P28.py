"""Uniform extension of functions on curves to surfaces (curves)."""
import numpy as np
import dolfin as df
from dolfin import inner, TrialFunction, TestFunction, Measure
import gen, spaces
from xii import Extension, EmbeddedMesh, ii_convert
from xii.assembler.extension_matrix import uniform_extension_matrix
from xii.assembler.extension_assembly import assemble_form

RULE = ('a random polyline (or edges of a mesh) and a random surface around it in 3d (or another polyline, in 2d and 3d); an element; every row of '
        'the matrix has a single one in the column of the same component at a nearest node (ties within rounding: any of them); '
        'forms with the extended trial, test and coefficient argument against plain forms of the extended function; again after '
        'moving the curve and with the other numbering of dofs. Non-trivial: at least 3 different columns; key = kind/element/numbering.')
REQUIRED = {'rows': 1000, 'forms': 20, 'moved': 10, 'vector_rows': 300}

ELEMENTS = ('CG1', 'CG2', 'DG0', 'DG1', 'vCG1', 'vCG2', 'vDG1', 'tCG1', 'tDG0', 'wCG1', 'hCG1')


def cases(tier, seed):
    rng = np.random.default_rng([seed, 128])
    out = []
    for r in range(1 if tier == 'quick' else 10):
        out += [(k, e, bool(rng.integers(2))) for e in ELEMENTS for k in ('surface', 'edges', 'flat', 'line2', 'line3')]
    return [out[i] for i in rng.permutation(len(out))]


def polyline(rng, gdim, center, size):
    n = int(rng.integers(2, 8))
    X = center + size*rng.uniform(-1, 1, (n+1, gdim))
    while np.linalg.norm(np.diff(X, axis=0), axis=1).min() < 0.1*size:
        X = center + size*rng.uniform(-1, 1, (n+1, gdim))
    p = rng.permutation(n+1)
    return gen.build(X[np.argsort(p)], p[np.c_[np.arange(n), np.arange(1, n+1)]], 1)


def geometry(rng, kind):
    if kind[:4] == 'line':
        g = int(kind[-1])
        return polyline(rng, g, np.zeros(g), 1.), polyline(rng, g, np.r_[rng.uniform(0, 1), np.zeros(g-1)], 0.7)
    if kind == 'flat':
        # in the plane curves extend to domains
        box = gen.Box(rng, 2, n=3)
        return polyline(rng, 2, box.map(np.full(2, 0.5)), 0.3), box.mesh
    box = gen.Box(rng, 3, n=3)
    fs = np.array([f.index() for f in df.facets(box.mesh) if f.exterior()]) if box.mesh.init(2, 3) is None else None
    surf = EmbeddedMesh(gen.mesh_function(box.mesh, 2, {5: rng.permutation(fs)[:int(rng.integers(4, len(fs)))]}), 5)
    if kind == 'edges':
        ev = gen.entity_vertices(box.mesh, 1)
        ok = np.all((box.ref[ev] > 0.3) & (box.ref[ev] < 0.7), axis=(1, 2))
        idx = rng.permutation(np.where(ok)[0])[:int(rng.integers(2, 6))]
        return EmbeddedMesh(gen.mesh_function(box.mesh, 1, {7: idx}), 7), surf
    return polyline(rng, 3, box.map(np.full(3, 0.5)), 0.25), surf


def component_dofs(V):
    n = V.num_sub_spaces()
    return [np.array(V.sub(i).dofmap().dofs()) for i in range(n)] if n else [np.arange(V.dim())]


def rows(rec, A, V, E):
    xV, xE = V.tabulate_dof_coordinates(), E.tabulate_dof_coordinates()
    rec.close(A.shape, (E.dim(), V.dim()), 'shape')
    cols = set()
    cV, cE = component_dofs(V), component_dofs(E)
    for dV, dE in zip(cV, cE):
        for r in dE:
            c = np.nonzero(A[r])[0]
            rec.check(len(c) == 1 and A[r][c[0]] == 1, 'single_one', lambda: 'row %d has %s' % (r, A[r][c]))
            d = np.linalg.norm(xV - xE[r], axis=1)
            if len(c) != 1:
                continue
            rec.check(c[0] in dV, 'component', 'row %d column %d' % (r, c[0]))
            rec.check(d[c[0]] <= d.min() + 1E-12, 'nearest', lambda: 'row %d: distance %g, nearest %g' % (r, d[c[0]], d.min()))
            cols.add(int(c[0]))
            rec.event('rows')
            if len(cV) > 1:
                rec.event('vector_rows')
    return len(cols)


def run(rec, case):
    kind, elm, reorder = case
    rng = rec.rng
    rec.ctx = '%s %s %s' % (kind, elm, 'reordered' if reorder else 'plain')
    old = df.parameters['reorder_dofs_serial']
    df.parameters['reorder_dofs_serial'] = reorder
    try:
        check(rec, rng, kind, elm, reorder)
    finally:
        df.parameters['reorder_dofs_serial'] = old


def check(rec, rng, kind, elm, reorder):
    curve, surf = geometry(rng, kind)
    V, E = spaces.space(curve, elm), spaces.space(surf, elm)
    n = rows(rec, gen.dense(df.PETScMatrix(uniform_extension_matrix(V, E).mat())), V, E)
    if n >= 3:
        rec.seen(kind, elm, reorder)
    rec.sample('%s: %d dofs to %d, %d columns' % (rec.ctx, V.dim(), E.dim(), n))
    if kind[:4] == 'line':
        return
    forms(rec, rng, V, E, surf)
    # the nearest points change when the curve moves
    if rng.integers(2):
        curve.coordinates()[:] += rng.uniform(-0.2, 0.2, curve.coordinates().shape)
    else:
        surf.coordinates()[:] = surf.coordinates() @ gen.rotation(rng, surf.geometry().dim()).T
    if reorder and rng.integers(2):
        df.parameters['reorder_dofs_serial'] = False
        V, E = spaces.space(curve, elm), spaces.space(surf, elm)
    forms(rec, rng, V, E, surf)
    rec.event('moved')


def forms(rec, rng, V, E, surf):
    dX = Measure('dx', domain=surf)
    Q = spaces.like(V, 'DG', 1)(surf)
    u, v, p, q = TrialFunction(V), TestFunction(V), TrialFunction(Q), TestFunction(Q)
    f = gen.randfun(rng, V)
    fv = f.vector().get_local()
    op = lambda o: Extension(o, surf, 'uniform')
    Ef = df.Function(E)
    e = df.PETScMatrix(uniform_extension_matrix(V, E).mat())*f.vector()
    Ef.vector().set_local(e.get_local())
    xV, xE = V.tabulate_dof_coordinates(), E.tabulate_dof_coordinates()
    for dV, dE in zip(component_dofs(V), component_dofs(E)):
        for r in dE:
            d = np.linalg.norm(xV[dV] - xE[r], axis=1)
            rec.check(np.abs(fv[dV][d <= d.min()+1E-12] - e[int(r)]).min() == 0, 'nearest_value')
    ref = df.assemble(inner(Ef, q)*dX).get_local()
    A = gen.dense(ii_convert(assemble_form(inner(op(u), q)*dX, 2)))
    rec.close(A @ fv, ref, 'trial')
    At = gen.dense(ii_convert(assemble_form(inner(p, op(v))*dX, 2)))
    rec.close(At, A.T, 'test_is_transpose_of_trial')
    rec.close(assemble_form(inner(op(f), q)*dX, 1).get_local(), ref, 'coefficient')
    g = gen.randfun(rng, Q)
    rec.close(float(assemble_form(inner(op(f), g)*dX, 0)), float(g.vector().get_local() @ ref), 'functional')
    b = assemble_form(inner(g, op(v))*dX, 1).get_local()
    rec.close(b, A.T @ g.vector().get_local(), 'linear_form')
    rec.check(np.array_equal(f.vector().get_local(), fv), 'function_untouched')
    rec.event('forms')
