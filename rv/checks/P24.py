"""Problems coupled by multipliers against the plain problem they rewrite."""
import numpy as np
import dolfin as df
from dolfin import inner, dot, grad, div, dx, Constant, TrialFunction, TestFunction, Measure, DirichletBC, FunctionSpace
from scipy.spatial import cKDTree
import gen, spaces
from checks.P18 import attached
from checks.P19 import colour
from xii import EmbeddedMesh, Trace, ii_assemble, ii_convert, ii_Function, apply_bc, block_form
from xii.meshing.mortar_mesh import mortar_meshes
from xii.nonlin.jacobian import block_jacobian

RULE = ('case = (random mesh in 2d/3d, random facets and subdomains, random coefficients and loads) x problem: values, normal '
        'or tangential components given by a multiplier on a part of the boundary or of the interior, with the rest free or '
        'given strongly; primal and mixed problem on subdomains joined by a multiplier; slip condition; time stepping and '
        'Newton with the same forms over and over. key = problem, dimension, space, route of the solve.')
REQUIRED = {'solved': 100, 'multiplier_dofs': 1000, 'subdomains': 60, 'steps': 40, 'newton': 40}
ASSUMPTIONS = ['discrete spaces are paired such that the coupled problem has the same discrete solution as the plain one; '
               'the plain one is solved by dolfin alone or by a dense elimination']
CASE_TIMEOUT = 400


def cases(tier, seed):
    rng = np.random.default_rng([seed, 2401])
    kinds = [(value, 2), (value, 2), (value, 3), (flux, 2), (flux, 3), (tangent, 2), (mortar, 2), (mortar, 3),
             (hybrid, 2), (hybrid, 3), (slip, 2), (steps, 2), (newton, 2)]
    out = [(k.__name__, d) for k, d in kinds]*(40 if tier == 'quick' else 400)
    return [out[i] for i in rng.permutation(len(out))]


def run(rec, case):
    kind, dim = case
    rec.ctx = '%s %dd' % case
    globals()[kind](rec, rec.rng, dim)


# ---------------------------------------------------------------- helpers
def world(rng, dim):
    return gen.Box(rng, dim, n=int(rng.integers(2, 6)) if dim == 2 else int(rng.integers(1, 3)))


def pick(rng, mesh, kind):
    """Facets of part of the boundary, of the interior, or of both"""
    att = attached(mesh)
    fv = gen.entity_vertices(mesh, mesh.topology().dim()-1)
    outer = np.array([len(att[tuple(sorted(int(v) for v in vs))]) == 1 for vs in fv])
    pool = {'part': np.where(outer)[0], 'all': np.where(outer)[0], 'any': np.arange(len(fv)), 'inside': np.where(~outer)[0]}[kind]
    if kind == 'all':
        return pool, outer
    return rng.choice(pool, int(rng.integers(1, max(2, len(pool)//2+1))), replace=False), outer


def solve(rec, rng, a, L, bcs, W):
    """Components of the solution of the block problem, by one of the ways to solve it"""
    A, b = ii_assemble(a), ii_assemble(L)
    if bcs is not None:
        A, b = apply_bc(A, b, bcs)
    wh = ii_Function(W)
    route = str(rng.choice(['lu', 'blocks']))
    if route == 'lu':
        A, b = ii_convert(A), ii_convert(b)
        df.LUSolver(A, 'mumps').solve(wh.vector(), b)
    else:
        M = np.block([[np.zeros((V.dim(), U.dim())) if isinstance(A[i][j], (int, float)) else gen.dense(ii_convert(A[i][j]))
                       for j, U in enumerate(W)] for i, V in enumerate(W)])
        r = np.hstack([np.zeros(V.dim()) if isinstance(b[i], (int, float)) else b[i].get_local() for i, V in enumerate(W)])
        x = np.linalg.solve(M, r)
        at = 0
        for i, V in enumerate(W):
            wh[i].vector().set_local(x[at:at+V.dim()])
            at += V.dim()
    rec.event('solved')
    rec.event('multiplier_dofs', W[-1].dim())
    return [w.vector().get_local() for w in wh], route


def plain(a, L, bcs=()):
    A, b = df.assemble(a), df.assemble(L)
    for bc in bcs:
        bc.apply(A, b)
    x = df.Function(a.arguments()[0].function_space())
    df.LUSolver(A, 'mumps').solve(x.vector(), b)
    return x


def match(V, U):
    """dofs of Lagrange space U at the dofs of V"""
    d, idx = cKDTree(U.tabulate_dof_coordinates().reshape((U.dim(), -1))).query(V.tabulate_dof_coordinates().reshape((V.dim(), -1)))
    assert d.max() < 1E-9
    return idx


def unit_normals(mesh):
    """Some unit normal of each cell of a manifold"""
    X, C = mesh.coordinates(), mesh.cells()
    n = df.Function(df.VectorFunctionSpace(mesh, 'DG', 0))
    values = n.vector().get_local()
    for c in range(mesh.num_cells()):
        values[n.function_space().dofmap().cell_dofs(c)] = np.linalg.svd(X[C[c][1:]] - X[C[c][0]])[2][-1]
    n.vector().set_local(values)
    return n


# ---------------------------------------------------------------- values
def value(rec, rng, dim):
    mesh = world(rng, dim).mesh
    kind = str(rng.choice(['part', 'all', 'any', 'inside'])) if dim == 2 or mesh.num_cells() > 6 else 'all'
    facets, outer = pick(rng, mesh, kind)
    deg = int(rng.integers(1, 3)) if dim == 2 else 1
    shape = int(rng.integers(2))
    ff = gen.mesh_function(mesh, dim-1, {1: facets})
    strong = kind == 'part' and rng.integers(2)
    if strong:
        ff.array()[outer & (ff.array() == 0)] = 2
        strong = (ff.array() == 2).any()
    if kind == 'all' and rng.integers(2):
        gamma = df.BoundaryMesh(mesh, 'exterior')
    else:
        gamma = EmbeddedMesh(ff, 1)
    space = lambda m: (df.VectorFunctionSpace(m, 'CG', deg, mesh.geometry().dim()) if shape else FunctionSpace(m, 'CG', deg))
    V, Q = space(mesh), space(gamma)
    W = [V, Q]
    (u, p), (v, q) = map(TrialFunction, W), map(TestFunction, W)
    dg = Measure('dx', domain=gamma)
    k = df.Function(FunctionSpace(mesh, 'DG', 0))
    k.vector().set_local(rng.uniform(1, 2, mesh.num_cells()))
    c = Constant(rng.uniform(-3, 3))
    f, g = gen.randfun(rng, V), gen.randfun(rng, V)
    A0 = k*inner(grad(u), grad(v))*dx + inner(u, v)*dx
    if not shape:
        A0 = A0 + c*inner(u.dx(0), v)*dx
    a, L = block_form(W, 2), block_form(W, 1)
    a[0][0] = A0
    a[0][1] = inner(Trace(v, gamma), p)*dg
    a[1][0] = inner(Trace(u, gamma), q)*dg
    L[0] = inner(f, v)*dx
    L[1] = inner(Trace(g, gamma), q)*dg
    bcs, ref = None, [DirichletBC(V, g, ff, 1)]
    if strong:
        ref.append(DirichletBC(V, g, ff, 2))
        bcs = [[DirichletBC(V, g, ff, 2)], [DirichletBC(Q, Constant((0, )*mesh.geometry().dim() if shape else 0), 'on_boundary')]]
        if not gamma_has_boundary(gamma):
            bcs[1] = []
    ok, out = rec.guard('solve', solve, rec, rng, a, L, bcs, W)
    if ok:
        U = plain(A0, inner(f, v)*dx, ref)
        rec.close(out[0][0], U.vector().get_local(), 'values', rtol=1E-7)
        rec.seen('value', dim, kind, deg, shape, bool(strong), out[1])


def gamma_has_boundary(mesh):
    d = mesh.topology().dim()
    mesh.init(d-1, d)
    return any(len(mesh.topology()(d-1, d)(i)) == 1 for i in range(mesh.num_entities(d-1)))


def component(rec, rng, dim, pairs, part, op):
    mesh = world(rng, dim).mesh
    kind = str(rng.choice(['part', 'all', 'any'])) if dim == 2 or mesh.num_cells() > 6 else 'all'
    facets, outer = pick(rng, mesh, kind)
    name, deg = pairs[rng.integers(len(pairs))]
    ff = gen.mesh_function(mesh, dim-1, {1: facets})
    strong = kind == 'part' and rng.integers(2)
    if strong:
        ff.array()[outer & (ff.array() == 0)] = 2
    gamma = EmbeddedMesh(ff, 1)
    n = unit_normals(gamma)
    t = part(n)
    V, Q = spaces.space(mesh, name), FunctionSpace(gamma, 'DG', deg)
    W = [V, Q]
    (u, p), (v, q) = map(TrialFunction, W), map(TestFunction, W)
    dg = Measure('dx', domain=gamma)
    f, g = gen.randfun(rng, V), gen.randfun(rng, V)
    A0 = inner(op(u), op(v))*dx + inner(u, v)*dx
    a, L = block_form(W, 2), block_form(W, 1)
    a[0][0] = A0
    a[0][1] = inner(dot(Trace(v, gamma), t), p)*dg
    a[1][0] = inner(dot(Trace(u, gamma), t), q)*dg
    L[0] = inner(f, v)*dx
    L[1] = inner(dot(Trace(g, gamma), t), q)*dg
    # The dofs of marked facets are those of g
    tags = [1]
    bcs = None
    dofs = {1: on_facets(V, ff, 1), 2: on_facets(V, ff, 2)}
    if strong and len(dofs[2]):
        tags.append(2)
    fixed = np.unique(np.hstack([dofs[t] for t in tags]).astype(int))
    if 2 in tags:
        bcs = [[DirichletBC(V, g, ff, 2)], []]
    A, b = gen.dense(df.assemble(A0)), df.assemble(inner(f, v)*dx).get_local()
    x = g.vector().get_local()
    if bcs:
        # dolfin's own idea of the values (projection on facets)
        for d, val in bcs[0][0].get_boundary_values().items():
            x[d] = val
    free = np.setdiff1d(np.arange(V.dim()), fixed)
    x[free] = np.linalg.solve(A[np.ix_(free, free)], b[free] - A[np.ix_(free, fixed)] @ x[fixed])
    ok, out = rec.guard('solve', solve, rec, rng, a, L, bcs, W)
    if ok:
        rec.close(out[0][0], x, 'components', rtol=1E-7)
        rec.seen(rec.ctx, kind, name, 2 in tags, out[1])


def on_facets(V, ff, tag):
    """dofs of entity closures of the facets (all of them sit on the facets for div and curl spaces in 2d)"""
    mesh, dm = V.mesh(), V.dofmap()
    d = mesh.topology().dim()
    mesh.init(d-1, d)
    mesh.init(d, d-1)
    f2c, c2f = mesh.topology()(d-1, d), mesh.topology()(d, d-1)
    out = []
    for e in np.where(ff.array() == tag)[0]:
        c = f2c(e)[0]
        out.extend(dm.cell_dofs(c)[dm.tabulate_entity_dofs(d-1, list(c2f(c)).index(e))])
    return np.array(sorted(set(out)), dtype=int)


def flux(rec, rng, dim):
    component(rec, rng, dim, [('RT1', 0), ('BDM1', 1)], lambda n: n, div)


def tangent(rec, rng, dim):
    component(rec, rng, dim, [('N1curl1', 0)], lambda n: df.as_vector((-n[1], n[0])), lambda u: u[1].dx(0) - u[0].dx(1))


# ---------------------------------------------------------------- subdomains
def mortar(rec, rng, dim):
    """Primal problem on two subdomains"""
    mesh = world(rng, dim).mesh
    f = colour(rng, mesh, int(rng.integers(2, 4)), rng.integers(1, 3, 3), patchy=True)
    if len(set(f.array().tolist())) < 2:
        return
    tags = [int(t) for t in rng.permutation([1, 2])]
    deg = int(rng.integers(1, 3)) if dim == 2 else 1
    if rng.integers(2):
        meshes, gamma, _ = mortar_meshes(f, tags, strict=False)
    else:
        att, fv = attached(mesh), gen.entity_vertices(mesh, dim-1)
        ff = gen.mesh_function(mesh, dim-1, {1: [e for e, vs in enumerate(fv) if len({int(f[c]) for c in att[tuple(sorted(int(v) for v in vs))]}) == 2]})
        meshes, gamma = [EmbeddedMesh(f, t) for t in tags], EmbeddedMesh(ff, 1)
    V0 = FunctionSpace(mesh, 'CG', deg)
    load = gen.randfun(rng, V0)
    k = rng.uniform(1, 10, 2)
    W = [FunctionSpace(m, 'CG', deg) for m in meshes] + [FunctionSpace(gamma, 'CG', deg)]
    us, vs = [TrialFunction(X) for X in W], [TestFunction(X) for X in W]
    dg = Measure('dx', domain=gamma)
    a, L = block_form(W, 2), block_form(W, 1)
    idx = [match(X, V0) for X in W[:2]]
    for i in range(2):
        s = 1. if i == 0 else -1.
        a[i][i] = Constant(k[i])*inner(grad(us[i]), grad(vs[i]))*dx + inner(us[i], vs[i])*dx
        a[i][2] = Constant(s)*inner(Trace(vs[i], gamma), us[2])*dg
        a[2][i] = Constant(s)*inner(Trace(us[i], gamma), vs[2])*dg
        g = df.Function(W[i])
        g.vector().set_local(load.vector().get_local()[idx[i]])
        L[i] = inner(g, vs[i])*dx
    L[2] = inner(Constant(0), vs[2])*dg
    ok, out = rec.guard('solve', solve, rec, rng, a, L, None, W)
    if not ok:
        return
    u, v = TrialFunction(V0), TestFunction(V0)
    dX = Measure('dx', domain=mesh, subdomain_data=f)
    U = plain(sum(Constant(k[i])*inner(grad(u), grad(v))*dX(tags[i]) for i in range(2)) + inner(u, v)*dx, inner(load, v)*dx)
    for i in range(2):
        rec.close(out[0][i], U.vector().get_local()[idx[i]], 'subdomains', rtol=1E-7)
    rec.event('subdomains', 2)
    rec.seen('mortar', dim, deg, out[1])


def hybrid(rec, rng, dim):
    """Mixed problem on any number of subdomains: fluxes made continuous by the multiplier"""
    mesh = world(rng, dim).mesh
    n = int(rng.integers(2, 5))
    f = colour(rng, mesh, n, rng.permutation([0, 1, 2, 5, 7])[:n], patchy=bool(rng.integers(2)))
    tags = [int(t) for t in rng.permutation(sorted(set(f.array().tolist())))]
    if len(tags) < 2:
        return
    meshes, gamma, colors = mortar_meshes(f, tags, strict=False)
    nrm = unit_normals(gamma)
    S0, P0 = FunctionSpace(mesh, 'RT', 1), FunctionSpace(mesh, 'DG', 0)
    W0 = FunctionSpace(mesh, S0.ufl_element()*P0.ufl_element())
    load = gen.randfun(rng, P0)
    k = rng.uniform(1, 10, len(tags))
    W = sum(([FunctionSpace(m, 'RT', 1), FunctionSpace(m, 'DG', 0)] for m in meshes), []) + [FunctionSpace(gamma, 'DG', 0)]
    us, vs = [TrialFunction(X) for X in W], [TestFunction(X) for X in W]
    dg = Measure('dx', domain=gamma, subdomain_data=gamma.marking_function)
    a, L = block_form(W, 2), block_form(W, 1)
    last = len(W)-1
    idx = [match(X, P0) for X in W[1:last:2]]
    for i in range(len(tags)):
        s, t, p, q = us[2*i], vs[2*i], us[2*i+1], vs[2*i+1]
        a[2*i][2*i] = Constant(k[i])*inner(s, t)*dx
        a[2*i][2*i+1] = -inner(div(t), p)*dx
        a[2*i+1][2*i] = -inner(div(s), q)*dx
        g = df.Function(W[2*i+1])
        g.vector().set_local(load.vector().get_local()[idx[i]])
        L[2*i] = inner(Constant((0, )*dim), t)*dx
        L[2*i+1] = inner(g, q)*dx
        up = down = 0
        for c, pair in enumerate(colors):
            if i not in pair:
                continue
            sign = Constant(1. if tuple(pair)[0] == i else -1.)
            whole = bool(rng.integers(2))
            T = lambda x: Trace(x, gamma, tag=c) if not whole else Trace(x, gamma, tag=[j for j, pr in enumerate(colors) if i in pr])
            up = sign*inner(dot(T(t), nrm), us[last])*dg(c) + up
            down = sign*inner(dot(T(s), nrm), vs[last])*dg(c) + down
        if up != 0:
            a[2*i][last], a[last][2*i] = up, down
    L[last] = inner(Constant(0), vs[last])*dg
    ok, out = rec.guard('solve', solve, rec, rng, a, L, None, W)
    if not ok:
        return
    (s, p), (t, q) = df.TrialFunctions(W0), df.TestFunctions(W0)
    dX = Measure('dx', domain=mesh, subdomain_data=f)
    U = plain(sum(Constant(k[i])*inner(s, t)*dX(tags[i]) for i in range(len(tags))) - inner(div(t), p)*dx - inner(div(s), q)*dx, inner(load, q)*dx)
    P = U.split(deepcopy=True)[1].vector().get_local()
    for i in range(len(tags)):
        rec.close(out[0][2*i+1], P[idx[i]], 'mixed_subdomains', rtol=1E-7)
    rec.event('subdomains', len(tags))
    rec.seen('hybrid', dim, len(tags), len(colors), out[1])


# ---------------------------------------------------------------- slip
def slip(rec, rng, dim):
    """Flat side with u.n given by a multiplier"""
    box = world(rng, dim)
    mesh = box.mesh
    side = (int(rng.integers(dim)), float(rng.integers(2)))
    facets = box.facets_where(lambda r: gen.near(r[side[0]], side[1]))
    ff = gen.mesh_function(mesh, dim-1, {3: facets})
    gamma = EmbeddedMesh(ff, 3)
    deg = int(rng.integers(1, 3))
    V, Q = df.VectorFunctionSpace(mesh, 'CG', deg), FunctionSpace(gamma, 'CG', deg)
    W = [V, Q]
    X = gamma.coordinates()[gamma.cells()[0]]
    n = np.linalg.svd(X[1:] - X[0])[2][-1]
    (u, p), (v, q) = map(TrialFunction, W), map(TestFunction, W)
    dg = Measure('dx', domain=gamma)
    f, g = gen.randfun(rng, V), gen.randfun(rng, Q)
    nn = Constant(tuple(n))
    A0 = inner(df.sym(grad(u)), df.sym(grad(v)))*dx + Constant(2.)*inner(div(u), div(v))*dx + inner(u, v)*dx
    a, L = block_form(W, 2), block_form(W, 1)
    a[0][0] = A0
    a[0][1] = inner(dot(Trace(v, gamma), nn), p)*dg
    a[1][0] = inner(dot(Trace(u, gamma), nn), q)*dg
    L[0] = inner(f, v)*dx
    L[1] = inner(g, q)*dg
    # u.n - g vanishes in the nodes
    C = np.zeros((Q.dim(), V.dim()))
    xQ = Q.tabulate_dof_coordinates().reshape((Q.dim(), -1))
    tree = cKDTree(V.tabulate_dof_coordinates().reshape((V.dim(), -1)))
    comp = np.zeros(V.dim(), dtype=int)
    for i in range(dim):
        comp[V.sub(i).dofmap().dofs()] = i
    for i, x in enumerate(xQ):
        for j in tree.query_ball_point(x, 1E-9):
            C[i, j] = n[comp[j]]
    A, b = gen.dense(df.assemble(A0)), df.assemble(inner(f, v)*dx).get_local()
    K = np.block([[A, C.T], [C, np.zeros((len(C), len(C)))]])
    ref = np.linalg.solve(K, np.hstack([b, g.vector().get_local()]))[:V.dim()]
    ok, out = rec.guard('solve', solve, rec, rng, a, L, None, W)
    if ok:
        rec.close(out[0][0], ref, 'slip', rtol=1E-7)
        rec.seen('slip', deg, out[1])


# ---------------------------------------------------------------- loops
def loop_world(rng):
    mesh = world(rng, 2).mesh
    facets, outer = pick(rng, mesh, 'part')
    ff = gen.mesh_function(mesh, 1, {1: facets})
    ff.array()[outer & (ff.array() == 0)] = 2
    return mesh, ff, EmbeddedMesh(ff, 1)


def steps(rec, rng, dim):
    """Backward Euler, right hand side assembled from the same forms in every step"""
    mesh, ff, gamma = loop_world(rng)
    V, Q = FunctionSpace(mesh, 'CG', 1), FunctionSpace(gamma, 'CG', 1)
    W = [V, Q]
    (u, p), (v, q) = map(TrialFunction, W), map(TestFunction, W)
    dg = Measure('dx', domain=gamma)
    g = df.Expression('1 + t*x[0] - t*t*x[1]', t=0., degree=1)
    dt = Constant(0.1)
    u0 = gen.randfun(rng, V)
    w0 = u0.copy(deepcopy=True)
    a, L = block_form(W, 2), block_form(W, 1)
    A0 = inner(grad(u), grad(v))*dx + (1/dt)*inner(u, v)*dx
    a[0][0], a[0][1], a[1][0] = A0, inner(Trace(v, gamma), p)*dg, inner(Trace(u, gamma), q)*dg
    r = Constant(1.)
    L[0] = (1/dt)*inner(u0, v)*dx + inner(r*g, v)*dx
    L[1] = inner(g, q)*dg
    strong = (ff.array() == 2).any()
    bcs = [[DirichletBC(V, g, ff, 2)] if strong else [], [DirichletBC(Q, Constant(0), 'on_boundary')] if gamma_has_boundary(gamma) else []]
    A, b, apply_b = apply_bc(ii_assemble(a), ii_assemble(L), bcs, return_apply_b=True)
    wh = ii_Function(W)
    solver = df.LUSolver(ii_convert(A), 'mumps')
    ref_bcs = [DirichletBC(V, g, ff, 1)] + bcs[0]
    B = df.assemble(A0)
    [bc.apply(B) for bc in ref_bcs]
    for i in range(int(rng.integers(3, 7))):
        g.t += 0.1
        r.assign(rng.uniform(-2, 2))
        b = ii_assemble(L)
        apply_b(b)
        solver.solve(wh.vector(), ii_convert(b))
        u0.assign(wh[0])
        c = df.assemble((1/dt)*inner(w0, v)*dx + inner(r*g, v)*dx)
        [bc.apply(c) for bc in ref_bcs]
        df.LUSolver(B, 'mumps').solve(w0.vector(), c)
        rec.close(u0.vector().get_local(), w0.vector().get_local(), 'steps', 'step %d' % i, rtol=1E-7)
        rec.event('steps')
    rec.seen('steps', bool(strong))


def newton(rec, rng, dim):
    """Nonlinear problem: the forms are assembled over and over while the unknown changes"""
    mesh, ff, gamma = loop_world(rng)
    deg = int(rng.integers(1, 3))
    V, Q = FunctionSpace(mesh, 'CG', deg), FunctionSpace(gamma, 'CG', deg)
    W = [V, Q]
    up = ii_Function(W)
    u, p = up
    v, q = map(TestFunction, W)
    m = {'quadrature_degree': 6}
    dX, dg = dx(domain=mesh, metadata=m), Measure('dx', domain=gamma, metadata=m)
    g, f = gen.randfun(rng, V), gen.randfun(rng, V)
    G = lambda w: inner((1 + w**2)*grad(w), grad(v))*dX + inner(w**3 + w, v)*dX - inner(f, v)*dX
    F = [G(u) + inner(p, Trace(v, gamma))*dg,
         inner(Trace(u, gamma), q)*dg - inner(Trace(g, gamma), q)*dg]
    ok, J = rec.guard('jacobian', block_jacobian, F, up)
    if not ok:
        return
    size = []
    for it in range(25):
        A, b = ii_convert(ii_assemble(J)), ii_convert(ii_assemble(F))
        d = ii_Function(W)
        df.LUSolver(A, 'mumps').solve(d.vector(), b)
        up.vector().axpy(-1., d.vector())
        size.append(d.vector().norm('linf'))
        rec.event('newton')
        if size[-1] < 1E-11:
            break
    rec.check(size[-1] < 1E-9, 'newton_converges', lambda: str(size))
    # plain problem
    w = df.Function(V)
    bc = DirichletBC(V, g, ff, 1)
    bc.apply(w.vector())
    zero = DirichletBC(V, Constant(0), ff, 1)
    H = G(w)
    D = df.derivative(H, w)
    for it in range(25):
        A, b = df.assemble_system(D, H, zero)
        d = df.Function(V)
        df.LUSolver(A, 'mumps').solve(d.vector(), b)
        w.vector().axpy(-1., d.vector())
        if d.vector().norm('linf') < 1E-11:
            break
    rec.close(up[0].vector().get_local(), w.vector().get_local(), 'newton', rtol=1E-7)
    rec.seen('newton', deg, len(size))
