"""Patch averages, means over domains and surfaces, point values and directional derivatives."""
import numpy as np
import dolfin as df
from dolfin import inner, TrialFunction, TestFunction, Measure
import gen, spaces
from xii import EmbeddedMesh, ii_assemble, ii_convert
from xii.assembler.patch_average_form import CellPatchAverage
from xii.assembler.mean_form import Mean
from xii.assembler.surface_mean_form import SurfaceMean
from xii.assembler.point_trace_form import PointTrace
from xii.assembler.gradient_point_trace_form import GradientPointTrace

RULE = ('random box meshes with random cell patches (with and without a coloring, several network nodes sharing a patch, nodes without one), '
        'random weights and measures for means, embedded surfaces for surface means, branching 1d networks for point values and '
        'directional derivatives; all against sums over cells of independently integrated functions. '
        'key = kind/dim/element/variant. Non-trivial: the operator matrix is not zero.')
REQUIRED = {'patch_rows': 40, 'shared_patch': 5, 'patches_in_group': 4, 'mean': 20, 'surface_mean': 8, 'point': 20, 'gradient': 20, 'dirac': 2}


def cases(tier, seed):
    rng = np.random.default_rng([seed, 105])
    out = []
    for r in range(1 if tier == 'quick' else 10):
        for d in (2, 3):
            out += [('patch', d, e) for e in ('CG1', 'CG2', 'DG0', 'DG1')]
            out += [('mean', d, e) for e in ('CG1', 'CG2', 'DG0', 'DG1', 'CR1')]
            out += [('surface', d, e) for e in ('CG1', 'CG2', 'MINI')]
            out += [('dirac', d, 'CG1')]
            out += [('point', d, e) for e in ('DG1', 'DG2', 'CG1', 'CG2', 'vCG1', 'vCG2', 'tCG1', 'wCG1', 'hCG1')]
            out += [('gradient', d, e) for e in ('DG1', 'DG2', 'DG3')]
    return [out[i] for i in rng.permutation(len(out))]


def integrate(f, cells, weight=lambda x: 1., pw=3):
    mesh = f.function_space().mesh()
    deg = f.function_space().ufl_element().degree()
    tot = 0.
    for c, x, w in gen.quad(mesh, deg+pw, cells):
        tot = tot + np.sum(w[:, None]*gen.evaluate(f, x, c)*np.ravel([weight(y) for y in x])[:, None], axis=0)
    return tot


def three_ways(rec, Op, V, Q, dX, f):
    """matrix of inner(Op(u), q); transposed and coefficient variants are compared to it"""
    u, v, p, q = TrialFunction(V), TestFunction(V), TrialFunction(Q), TestFunction(Q)
    A = gen.dense(ii_convert(ii_assemble(inner(Op(u), q)*dX)))
    At = gen.dense(ii_convert(ii_assemble(inner(p, Op(v))*dX)))
    rec.close(At, A.T, 'test_is_transpose_of_trial')
    before = f.vector().get_local()
    b = ii_assemble(inner(Op(f), q)*dX).get_local()
    rec.close(b, A @ before, 'trial_vs_coefficient')
    # the user's own function can still be used in plain forms
    if f.function_space().ufl_element().value_shape() == ():
        got, = [df.assemble(f*df.dx(domain=V.mesh()))]
        got2 = ii_assemble(inner(f, TestFunction(V))*df.dx(domain=V.mesh())).get_local()
        M = gen.dense(df.assemble(inner(u, v)*df.dx(domain=V.mesh())))
        rec.close(got2, M @ before, 'function_stays_plain')
    return A


def run(rec, case):
    kind, dim, elm = case
    rec.ctx = '%s %dd %s' % case
    return {'patch': patch, 'mean': mean, 'surface': surface, 'dirac': dirac, 'point': point, 'gradient': gradient}[kind](rec, dim, elm)


def patch(rec, dim, elm):
    rng = rec.rng
    layers = bool(rng.integers(2))
    box = gen.Box(rng, dim, n=(5 if layers else 3) if dim == 2 else 2 + layers)
    mesh = box.mesh
    nc = mesh.num_cells()
    k = int(rng.integers(3, 7))
    tags = np.zeros(nc, dtype=int)
    if layers:                  # Patches next to each other, those further apart in one group
        order = np.argsort(mesh.coordinates()[mesh.cells()].mean(axis=1) @ rng.normal(size=dim))
        lo, hi = (int(rng.integers(0, 4)) for _ in range(2))
        pieces = np.array_split(order[lo:nc-hi], k)
    else:
        pieces = np.array_split(rng.permutation(nc)[:rng.integers(2*k, nc+1)], k)
    colors = rng.permutation(np.arange(1, 40))[:k]
    for col, cells in zip(colors, pieces):
        tags[cells] = col
    patch_f = gen.mesh_function(mesh, dim, values=tags)
    n = int(rng.integers(k, k+5))
    X = rng.uniform(0, 1, (n, dim))
    em = gen.build(X, np.c_[np.arange(n-1), np.arange(1, n)], 1)
    Vg = df.FunctionSpace(em, str(rng.choice(['CG', 'DG'])), 1) if rng.integers(2) else df.FunctionSpace(em, 'DG', 0)
    vertex_f = df.Function(Vg)
    ids = rng.choice(np.r_[0, colors], Vg.dim()).astype(float)
    ids[:min(k, len(ids))] = colors[:min(k, len(ids))]
    vertex_f.vector().set_local(ids)
    coloring = None
    variant = int(rng.integers(3))
    if variant:
        # greedy: patches of one group do not share vertices
        verts = {int(c): set(mesh.cells()[tags == c].ravel()) for c in colors}
        coloring = {}
        for c in verts:
            g = 0
            while any(coloring.get(o) == g and verts[o] & verts[c] for o in verts):
                g += 1
            coloring[c] = g
        if elm in ('DG0', 'DG1') and variant == 2:
            coloring = {c: 1 for c in verts}               # no shared degrees of freedom whatsoever
    V = spaces.space(mesh, elm)
    f = gen.randfun(rng, V)
    dX = Measure('dx', domain=em)
    A = three_ways(rec, lambda o: CellPatchAverage(o, vertex_f, patch_f, coloring), V, Vg, dX, f)
    M = gen.dense(df.assemble(inner(TrialFunction(Vg), TestFunction(Vg))*dX))
    got = np.linalg.solve(M, A @ f.vector().get_local())
    vols = gen.cell_volumes(mesh)
    for i, c in enumerate(ids):
        e = 0.
        if c:
            cells = np.where(tags == c)[0]
            e = float(integrate(f, cells)[0]/vols[cells].sum())
        rec.close(got[i], e, 'patch_average', 'color %d coloring %s' % (c, coloring), rtol=1E-7, atol=1E-8)
        rec.event('patch_rows')
    rec.event('shared_patch', len(ids) - len(set(ids)))
    rec.event('patches_in_group', 0 if not variant else len(coloring) - len(set(coloring.values())))
    rec.seen('patch', dim, elm, variant, Vg.ufl_element().shortstr())
    rec.sample('%d network dofs, %d patches, coloring %s' % (len(ids), k, coloring))


def dirac(rec, dim, elm):
    rng = rec.rng
    box = gen.Box(rng, dim, n=3 if dim == 2 else 2)
    mesh = box.mesh
    ev = gen.entity_vertices(mesh, 1)
    em = EmbeddedMesh(gen.mesh_function(mesh, 1, {3: rng.permutation(len(ev))[:6]}), 3)
    V, Vg = df.FunctionSpace(mesh, 'CG', 1), df.FunctionSpace(em, 'CG', 1)
    f = gen.randfun(rng, V)
    dX = Measure('dx', domain=em)
    A = three_ways(rec, lambda o: CellPatchAverage(o, df.Function(Vg), None), V, Vg, dX, f)
    M = gen.dense(df.assemble(inner(TrialFunction(Vg), TestFunction(Vg))*dX))
    got = np.linalg.solve(M, A @ f.vector().get_local())
    for i, x in enumerate(Vg.tabulate_dof_coordinates()):
        rec.close(got[i], gen.eval_anywhere(f, x)[0], 'node_value')
    rec.event('dirac')
    rec.seen('dirac', dim)


def mean(rec, dim, elm):
    rng = rec.rng
    box = gen.Box(rng, dim, n=3 if dim == 2 else 2)
    mesh = box.mesh
    V = spaces.space(mesh, elm)
    Q = df.FunctionSpace(mesh, 'R', 0) if rng.integers(2) else df.FunctionSpace(mesh, 'CG', 1)
    f = gen.randfun(rng, V)
    dX = Measure('dx', domain=mesh)
    tags = rng.integers(0, 3, mesh.num_cells())
    cell_f = gen.mesh_function(mesh, dim, values=tags)
    w = gen.randfun(rng, df.FunctionSpace(mesh, 'DG', 0))
    a = rng.uniform(-1, 1, dim)
    measures = [(None, np.arange(mesh.num_cells())), (dX, np.arange(mesh.num_cells()))] + [
        (Measure('dx', domain=mesh, subdomain_data=cell_f)(t), np.where(tags == t)[0]) for t in (1, 2)]
    weights = [(None, lambda c, x: 1.), (df.Constant(2.5), lambda c, x: 2.5), (w, lambda c, x: gen.evaluate(w, x, c)[:, 0]),
               (df.dot(df.Constant(a), df.SpatialCoordinate(mesh)), lambda c, x: x @ a)]
    one = df.assemble(TestFunction(Q)*dX).get_local()
    for k in rng.permutation(16)[:6]:
        (measure, cells), (weight, wf) = measures[k//4], weights[k % 4]
        A = three_ways(rec, lambda o: Mean(o, weight, measure), V, Q, dX, f)
        tot = 0.
        for c, x, wq in gen.quad(mesh, V.ufl_element().degree()+2, cells):
            tot += np.sum(wq*gen.evaluate(f, x, c)[:, 0]*wf(c, x))
        rec.close(A @ f.vector().get_local(), tot*one, 'weighted_integral', 'variant %d' % k, rtol=1E-8, atol=1E-9)
        rec.event('mean')
        rec.seen('mean', dim, elm, int(k), Q.ufl_element().shortstr())
    # mixed with its plain counterpart in one form
    p, q = TrialFunction(V), TestFunction(V)
    S = gen.dense(ii_convert(ii_assemble(inner(Mean(p), Mean(q))*dX + inner(p, q)*dX)))
    m = df.assemble(TestFunction(V)*dX).get_local()
    rec.close(S, gen.cell_volumes(mesh).sum()*np.outer(m, m) + gen.dense(df.assemble(inner(p, q)*dX)), 'mean_and_plain', rtol=1E-8)


def surface(rec, dim, elm):
    rng = rec.rng
    for rep in range(2):
        box = gen.Box(rng, dim, n=3 if dim == 2 else 2)
        mesh = box.mesh
        ev = gen.entity_vertices(mesh, dim-1)
        em = EmbeddedMesh(gen.mesh_function(mesh, dim-1, {3: rng.permutation(len(ev))[:int(rng.integers(2, 9))]}), 3)
        V = spaces.space(mesh, elm)
        Q = df.FunctionSpace(em, 'R', 0) if rep else df.FunctionSpace(em, 'DG', 1)
        f = gen.randfun(rng, V)
        dX = Measure('dx', domain=em)
        A = three_ways(rec, lambda o: SurfaceMean(o, em), V, Q, dX, f)
        tot = area = 0.
        for c, x, w in gen.quad(em, V.ufl_element().degree()+1):
            tot += sum(wi*gen.eval_anywhere(f, xi)[0] for wi, xi in zip(w, x))
            area += w.sum()
        one = df.assemble(TestFunction(Q)*dX).get_local()
        if elm == 'MINI' and dim == 3:
            continue                 # the face restriction of the enriched space is not in the trace space
        rec.close(A @ f.vector().get_local(), tot/area*one, 'surface_mean', rtol=1E-8, atol=1E-10)
        rec.event('surface_mean')
        rec.seen('surface', dim, elm, rep)


def network(rng, dim):
    n = int(rng.integers(5, 9))
    X = rng.uniform(0, 1, (n, dim))
    par = [int(rng.integers(max(0, i-3), i)) for i in range(1, n)]
    C = np.array([[p, i] for i, p in enumerate(par, 1)])
    flip = rng.integers(2, size=len(C)).astype(bool)
    C[flip] = C[flip][:, ::-1]
    return gen.build(X, C, 1)


def point(rec, dim, elm):
    rng = rec.rng
    mesh = network(rng, dim) if elm[:2] == 'DG' or rng.integers(2) else gen.Box(rng, dim, n=2).mesh
    V = spaces.space(mesh, elm)
    shape = V.ufl_element().value_shape()
    Q = (df.FunctionSpace(mesh, 'R', 0) if not shape else df.VectorFunctionSpace(mesh, 'R', 0, shape[0]) if len(shape) == 1
         else df.TensorFunctionSpace(mesh, 'R', 0, shape))
    f = gen.randfun(rng, V)
    dX = Measure('dx', domain=mesh)
    one = gen.cell_volumes(mesh).sum()
    for rep in range(4):
        c = int(rng.integers(mesh.num_cells()))
        p = int(rng.choice(mesh.cells()[c]))
        A = three_ways(rec, lambda o: PointTrace(o, p, c), V, Q, dX, f)
        val = gen.evaluate(f, [mesh.coordinates()[p]], c)[0]
        rec.close(A @ f.vector().get_local(), one*val, 'point_value', 'cell %d point %d' % (c, p), rtol=1E-8, atol=1E-9)
        rec.event('point')
    rec.seen('point', dim, elm, mesh.topology().dim())


def gradient(rec, dim, elm):
    rng = rec.rng
    mesh = network(rng, dim)
    V, Q = spaces.space(mesh, elm), df.FunctionSpace(mesh, 'R', 0)
    f = gen.randfun(rng, V)
    dX = Measure('dx', domain=mesh)
    one = gen.cell_volumes(mesh).sum()
    X = mesh.coordinates()
    W = df.VectorFunctionSpace(mesh, 'DG', 0, dim)
    for rep in range(4):
        c = int(rng.integers(mesh.num_cells()))
        v = mesh.cells()[c]
        e = X[v[1]] - X[v[0]]
        k = int(rng.integers(2))
        p = int(v[k])
        for flavor in rng.permutation(3):
            tau = rng.uniform(-1, 1, dim)
            if flavor == 0:
                tangent = tau
            elif flavor == 1:
                tangent = df.Constant(tau)
            else:
                tangent = gen.randfun(rng, W)
                tau = gen.evaluate(tangent, [X[v].mean(axis=0)], c)[0]
                # evaluation of the tangent away from the other cells
                if len(gen.locate(mesh, X[v].mean(axis=0), 1E-8)) > 1:
                    continue
            A = three_ways(rec, lambda o: GradientPointTrace(o, p, c, tangent), V, Q, dX, f)
            # derivative along the cell of the polynomial through equispaced points
            deg = V.ufl_element().degree()
            t = np.linspace(0, 1, deg+1)
            vals = gen.evaluate(f, X[v[0]] + np.outer(t, e), c)[:, 0]
            dfds = np.polyval(np.polyder(np.polyfit(t, vals, deg)), float(k))
            expect = dfds*(e @ tau)/(e @ e)
            rec.close((A @ f.vector().get_local())[0], one*expect, 'directional_derivative',
                      'cell %d point %d flavor %d' % (c, p, flavor), rtol=1E-7, atol=1E-7)
            rec.event('gradient')
            rec.seen('gradient', dim, elm, int(flavor))
