"""Restriction to subdomain meshes, injection to finer meshes, transposed trace, interpolation matrix."""
import numpy as np
import dolfin as df
from dolfin import inner, TrialFunction, TestFunction, Measure
import gen, spaces
from xii import (EmbeddedMesh, SubDomainMesh, OverlapMesh, Restriction, Injection, TransposeTrace, Trace,
                 ii_assemble, ii_convert)
from xii.assembler.interpolation_matrix import interpolation_mat
from xii.meshing.refinement import centroid_refine

RULE = ('restrict: random cell markings of a random box mesh, a submesh of one or several tags (or the overlap of two such '
        'submeshes), an element; inject: coarse/fine pair by dolfin refinement (uniform, of a random subset of cells), centroid '
        'refinement (once, twice) or an unrelated mesh, both methods where they apply; all pairs of a hierarchy; extend: TransposeTrace of multipliers on '
        'boundary manifolds; interp: pairs of elements on one mesh. Non-trivial when at least 4 target cells carried a nonzero '
        'function; key = kind/dim/element/variant.')
REQUIRED = {'restrict_cells': 200, 'inject_cells': 500, 'extend_facets': 30, 'interp': 8, 'overlap': 2, 'orders': 3, 'levels': 20, 'surface': 6}

EL2 = ('CG1', 'CG2', 'vCG1', 'wCG1', 'hCG1', 'DG0', 'DG1', 'RT1', 'BDM1', 'N1curl1', 'CR1', 'TH', 'MX', 'vBDM1')
EL3 = ('CG1', 'CG2', 'wCG1', 'DG0', 'RT1', 'N1curl1', 'CR1')
MANY, ES = ('tCG1', 'hCG2', 'vCG3'), ('CG2', 'vCG1', 'DG1', 'RT1', 'BDM1', 'N1curl1')
NODAL = ('CG1', 'CG2', 'vCG1', 'wCG1')


def cases(tier, seed):
    rng = np.random.default_rng([seed, 106])
    out = []
    for r in range(2 if tier == 'quick' else 12):
        for dim, els in ((2, EL2), (3, EL3)):
            out += [('restrict', dim, e, str(rng.choice(['one', 'many']))) for e in els]
            out += [('restrict', dim, e, 'overlap') for e in rng.permutation(els)[:3]]
            out += [('inject', dim, e, str(rng.choice(['uniform', 'partial', 'centroid', 'twice'])), None) for e in els if e != 'CR1']
            out += [('inject', dim, e, str(rng.choice(['uniform', 'partial', 'centroid', 'twice'])), 'interpolate') for e in NODAL]
            out += [('inject', dim, e, 'unrelated', 'interpolate') for e in NODAL]
            if dim == 3:
                out += [('restrict', dim, e, 'one') for e in MANY] + [('restrict', dim, e, 'surface') for e in ES]
                out += [('inject', dim, MANY[r % 2], 'partial', None)]
            out += [('extend', dim, e, str(k)) for e in NODAL for k in rng.permutation(['all', 'part', 'union'])[:2 if dim == 2 else 1]]
        out += [('interp', dim, a, b) for dim, a, b in (
            (2, 'CG1', 'CG2'), (2, 'CG2', 'CG1'), (2, 'DG1', 'DG0'), (2, 'BDM1', 'vDG1'), (2, 'vCG1', 'RT1'), (2, 'vCG2', 'N1curl1'), (2, 'vCG1', 'CGX'),
            (3, 'CG2', 'DG1'), (3, 'vCG1', 'RT1'), (3, 'N1curl1', 'vDG1'), (3, 'RT1', 'vDG1'))]
        out += [('orders', 2, 'CG1', ''), ('orders', 2, 'CG2', ''), ('orders', 3, 'CG1', '')]
        out += [('levels', d, e, '') for d, e in ((2, 'CG1'), (2, 'DG0'), (2, 'vCG1'), (3, 'CG1'), (3, 'DG0'))]*2
    return [out[i] for i in rng.permutation(len(out))]


def moments(rec, f, weak, r, target, hosts, deg, oracle, event):
    """weak: assembled functional (reduced f, q) for q in the space of r; hosts[c]: cell of f's mesh under target cell c"""
    Q, rv, wv = r.function_space(), r.vector().get_local(), weak
    for c, x, w in gen.quad(target, deg):
        dofs = Q.dofmap().cell_dofs(c)
        fx, rx = gen.evaluate(f, x, hosts[c]), gen.evaluate(r, x, c)
        ref = np.sum(w*np.sum(fx*rx, axis=1))
        got = rv[dofs] @ wv[dofs]
        rec.check(abs(got-ref) < 1E-9*(np.abs(fx).max()+1)*w.sum()*(1+np.abs(rx).max()), oracle,
                  lambda: 'cell %d: moment %g expected %g' % (c, got, ref))
        rec.event(event)


def hosts_of(target, source):
    """cell of source that contains the midpoint of each cell of target"""
    X = target.coordinates()[target.cells()].mean(axis=1)
    out = []
    for x in X:
        cs = gen.locate(source, x)
        if len(cs) != 1:
            raise RuntimeError('reference: midpoint in %d cells' % len(cs))
        out.append(int(cs[0]))
    return out


def surface_hosts(target, source):
    at = lambda m: [gen.coord_key(x) for x in m.coordinates()[m.cells()].mean(axis=1)]
    table = {k: c for c, k in enumerate(at(source))}
    return [table[k] for k in at(target)]


def assembled(rec, V, Q, dX, red, f):
    """matrices with reduced trial/test argument and vector with reduced coefficient; checks their consistency"""
    u, v, p, q = TrialFunction(V), TestFunction(V), TrialFunction(Q), TestFunction(Q)
    A = gen.dense(ii_convert(ii_assemble(inner(red(u), q)*dX)))
    rec.close(A.shape, (Q.dim(), V.dim()), 'shape')
    At = gen.dense(ii_convert(ii_assemble(inner(p, red(v))*dX)))
    rec.close(At, A.T, 'test_is_transpose_of_trial')
    fv = f.vector().get_local()
    b = ii_assemble(inner(red(f), q)*dX).get_local()
    rec.close(b, A @ fv, 'trial_vs_coefficient')
    rec.check(np.array_equal(f.vector().get_local(), fv), 'function_untouched')
    return A, A @ fv


def restrict(rec, dim, elm, how):
    rng = rec.rng
    box = gen.Box(rng, dim, n=4 if dim == 2 else (1 if elm in MANY else 2))
    mesh = box.mesh
    if how == 'surface':
        mesh = gen.oriented_surface(box, rng.choice([-1, 1]))
        rec.event('surface')
    tags = rng.choice([0, 1, 2, 3], size=mesh.num_cells(), p=[.3, .3, .2, .2])
    cf = gen.mesh_function(mesh, mesh.topology().dim(), values=tags)
    if how == 'overlap':
        s1, s2 = SubDomainMesh(cf, (1, 3)), SubDomainMesh(cf, (2, 3))
        if 3 not in tags:
            return
        sub, sources = OverlapMesh(s1, s2), [s1, s2]
        rec.event('overlap')
    elif how == 'one':
        sub, sources = (SubDomainMesh if rng.integers(2) else EmbeddedMesh)(cf, int(tags[0])), [mesh]
    else:
        sub, sources = EmbeddedMesh(cf, [int(t) for t in {tags[0], tags[-1], 2} if t in tags]), [mesh]
    if how == 'surface':
        gen.orient(sub, box, rng.choice([-1, 1]))
    dX = Measure('dx', domain=sub)
    for src in sources:
        V = spaces.space(src, elm)
        Q = spaces.like(V, 'DG', 1)(sub) if elm not in ('TH', 'MX') else spaces.space(sub, elm)
        f, r = gen.randfun(rng, V), gen.randfun(rng, Q)
        A, b = assembled(rec, V, Q, dX, lambda w: Restriction(w, sub), f)
        hosts = surface_hosts(sub, src) if how == 'surface' else hosts_of(sub, src)
        if elm not in ('TH', 'MX'):
            moments(rec, f, b, r, sub, hosts, 4, 'restriction_value', 'restrict_cells')
        u, v = TrialFunction(V), TestFunction(V)
        M = gen.dense(ii_convert(ii_assemble(inner(Restriction(u, sub), Restriction(v, sub))*dX)))
        g = gen.randfun(rng, V)
        ref = sum(np.sum(w*np.sum(gen.evaluate(f, x, hosts[c])*gen.evaluate(g, x, hosts[c]), axis=1))
                  for c, x, w in gen.quad(sub, 6))
        rec.close(f.vector().get_local() @ M @ g.vector().get_local(), ref, 'restricted_mass')
        rec.event('restrict_cells', sub.num_cells())
        if len(V.ufl_element().value_shape()) == 0 and elm != 'DG0':
            G = gen.dense(ii_convert(ii_assemble(inner(df.grad(Restriction(u, sub)), df.grad(Restriction(v, sub)))*dX)))
            sel = df.MeshFunction('size_t', src, src.topology().dim(), 0)
            sel.array()[hosts] = 1
            H = df.assemble(inner(df.grad(u), df.grad(v))*Measure('dx', domain=src, subdomain_data=sel)(1)).array()
            rec.close(G, H, 'restricted_stiffness')
    if sub.num_cells() > 3:
        rec.seen('restrict', dim, elm, how, sub.num_cells() == mesh.num_cells())


def fine_mesh(rec, box, how):
    rng, mesh = rec.rng, box.mesh
    if how == 'uniform':
        return df.refine(mesh)
    if how == 'partial':
        mark = df.MeshFunction('bool', mesh, mesh.topology().dim(), False)
        for c in rng.choice(mesh.num_cells(), size=max(1, mesh.num_cells()//3), replace=False):
            mark[int(c)] = True
        return df.refine(mesh, mark)
    if how in ('centroid', 'twice'):
        return centroid_refine(mesh, nrefs=1 if how == 'centroid' else 2)
    # another triangulation inside of the box
    n = 3 if mesh.topology().dim() == 2 else 2
    other = gen.Box(rng, mesh.topology().dim(), n=n, distort=False)
    X = box.map(0.1 + 0.8*other.mesh.coordinates())
    return gen.build(X, other.mesh.cells())


def inject(rec, dim, elm, how, method):
    rng = rec.rng
    df.parameters['refinement_algorithm'] = 'plaza_with_parent_facets' if rng.integers(2) else 'plaza'
    box = gen.Box(rng, dim, n=3 if dim == 2 else (1 if how == 'twice' or elm in MANY else 2))
    mesh = box.mesh
    fine = fine_mesh(rec, box, how)
    V = spaces.space(mesh, elm)
    vectorlike = elm in ('TH', 'MX')
    Q = spaces.space(fine, elm) if vectorlike else spaces.like(V, 'DG', 1)(fine)
    dX = Measure('dx', domain=fine)
    f, r = gen.randfun(rng, V), gen.randfun(rng, Q)
    red = lambda w: Injection(w, fine, not_nested_method=method)
    A, b = assembled(rec, V, Q, dX, red, f)
    if how == 'unrelated':
        # the interpolant in the fine space
        W = spaces.space(fine, elm)
        g = gen.interp(W, lambda x: gen.eval_anywhere(f, x))
        hosts = list(range(fine.num_cells()))
        moments(rec, g, b, r, fine, hosts, 4, 'injected_interpolant', 'inject_cells')
    else:
        hosts = hosts_of(fine, mesh)
        if not vectorlike:
            moments(rec, f, b, r, fine, hosts, 4, 'injection_value', 'inject_cells')
        u, v = TrialFunction(V), TestFunction(V)
        M = gen.dense(ii_convert(ii_assemble(inner(red(u), red(v))*dX)))
        rec.close(M, df.assemble(inner(u, v)*df.dx).array(), 'injected_mass_is_coarse_mass')
    rec.seen('inject', dim, elm, how, method)


def orders(rec, dim, elm):
    """the same pair of meshes, both methods, in either order, fine->user forms with several arguments injected"""
    rng = rec.rng
    rec.event('orders')
    box = gen.Box(rng, dim, n=3 if dim == 2 else 1)
    fine = centroid_refine(box.mesh)
    V = spaces.space(box.mesh, elm)
    W = spaces.space(box.mesh, 'v'+elm)
    dX = Measure('dx', domain=fine)
    f = gen.randfun(rng, V)
    hosts = hosts_of(fine, box.mesh)
    Q = spaces.space(fine, 'DG1')
    r = gen.randfun(rng, Q)
    for m in rng.permutation([0, 1, 0, 1]):
        red = lambda w: Injection(w, fine, not_nested_method=[None, 'interpolate'][m])
        A, b = assembled(rec, V, Q, dX, red, f)
        moments(rec, f, b, r, fine, hosts, 4, 'injection_value', 'inject_cells')
    U = gen.randfun(rng, W)
    u, v = TrialFunction(V), TestFunction(V)
    C = gen.dense(ii_convert(ii_assemble(inner(df.dot(df.grad(red(u)), red(U)), red(v))*dX)))
    rec.close(C, df.assemble(inner(df.dot(df.grad(u), U), v)*df.dx).array(), 'three_injected_arguments')
    rec.raises(ValueError, 'project_is_announced_as_missing',
               lambda: ii_assemble(inner(Injection(f, fine, not_nested_method='project'), TestFunction(Q))*dX))
    rec.seen('orders', dim, elm)


def levels(rec, dim, elm, *_):
    """a hierarchy refined by dolfin: any pair, in any order, some before with another map; what can not be done is refused"""
    rng = rec.rng
    df.parameters['refinement_algorithm'] = 'plaza'
    meshes = [gen.Box(rng, dim, n=2 if dim == 2 else 1).mesh]
    for _ in range(2 if dim == 3 else int(rng.integers(2, 4))):
        m = meshes[-1]
        mark = df.MeshFunction('bool', m, dim, False)
        for c in rng.choice(m.num_cells(), size=max(1, m.num_cells()//3), replace=False):
            mark[int(c)] = True
        meshes.append(df.refine(m, mark) if rng.integers(3) else df.refine(m))
    pairs = [(i, j) for i in range(len(meshes)) for j in range(i+1, len(meshes))]
    for k in rng.permutation(2*len(pairs)):
        (i, j), method = pairs[k//2], [None, 'interpolate'][k % 2]
        mesh, fine = meshes[i], meshes[j]
        if method and elm == 'DG0':
            continue
        V = spaces.space(mesh, elm)
        Q = spaces.like(V, 'DG', 1)(fine)
        f, r = gen.randfun(rng, V), gen.randfun(rng, Q)
        rec.ctx = 'levels %d to %d of %d %s %s' % (i, j, len(meshes), elm, method)
        try:
            red = Injection(f, fine, not_nested_method=method)
        except (AssertionError, ValueError):
            if not rec.check(method is None and j > i+1, 'injection_refused'):
                return
            rec.event('refused')
            continue
        before = {a: {d: dict(e) for d, e in m.items()} for a, m in getattr(fine, 'parent_entity_map', {}).items()}
        b = ii_assemble(inner(red, TestFunction(Q))*Measure('dx', domain=fine)).get_local()
        moments(rec, f, b, r, fine, hosts_of(fine, mesh), 4, 'injection_value', 'inject_cells')
        after = fine.parent_entity_map if hasattr(fine, 'parent_entity_map') else {}
        rec.check(all(a in after and all(after[a][d] == m[d] for d in m) for a, m in before.items()), 'maps_kept')
        rec.event('levels')
        rec.seen('levels', dim, elm, method, i, j)


def extend(rec, dim, elm, how):
    rng = rec.rng
    box = gen.Box(rng, dim, n=4 if dim == 2 else 2)
    mesh = box.mesh
    walls = [(a, b) for a in range(dim) for b in (0, 1)]
    ff = gen.mesh_function(mesh, dim-1)
    if how == 'all':
        df.DomainBoundary().mark(ff, 1)
        tags = [1]
    else:
        for t, k in enumerate(rng.permutation(len(walls))[:3], 1):
            a, b = walls[k]
            ff.array()[box.facets_where(lambda r: gen.near(r[a], b))] = t
        tags = [1] if how == 'part' else [1, 3]
    tags = [t for t in tags if t in ff.array()]
    em = EmbeddedMesh(ff, tags if len(tags) > 1 else tags[0])
    V, Q = spaces.space(mesh, elm), spaces.space(em, elm)
    full = mesh if rng.integers(2) else None
    ds = Measure('ds', domain=mesh, subdomain_data=ff)
    meas = ds(tuple(tags)) if len(tags) > 1 else ds(tags[0])
    u, v, p, q = TrialFunction(V), TestFunction(V), TrialFunction(Q), TestFunction(Q)
    E = lambda w: TransposeTrace(w, em, full)
    A = gen.dense(ii_convert(ii_assemble(inner(v, E(p))*meas)))      # V x Q
    At = gen.dense(ii_convert(ii_assemble(inner(u, E(q))*meas)))
    rec.close(A.shape, (V.dim(), Q.dim()), 'shape')
    rec.close(At, A.T, 'test_is_transpose_of_trial')
    dX = Measure('dx', domain=em)
    B = gen.dense(ii_convert(ii_assemble(inner(Trace(u, em), q)*dX)))
    rec.close(A, B.T, 'extension_is_dual_to_trace')
    f, g = gen.randfun(rng, V), gen.randfun(rng, Q)
    fx, gx = f.vector().get_local(), g.vector().get_local()
    ref, n = 0., 0
    from checks.P01 import parents_of
    hosts = parents_of(mesh, em)
    for c, x, w in gen.quad(em, 5):
        ref += np.sum(w*np.sum(gen.evaluate(f, x, hosts[c][0])*gen.evaluate(g, x, c), axis=1))
        n += 1
    rec.event('extend_facets', n)
    rec.close(fx @ A @ gx, ref, 'extension_value')
    rec.close(ii_assemble(inner(v, E(g))*meas).get_local() @ fx, ref, 'extension_of_coefficient')
    rec.check(np.array_equal(g.vector().get_local(), gx), 'function_untouched')
    M = gen.dense(ii_convert(ii_assemble(inner(E(p), E(q))*meas)))
    rec.close(M, df.assemble(inner(p, q)*df.dx(domain=em)).array(), 'both_arguments_extended')
    rec.seen('extend', dim, elm, how, full is None)


def interp(rec, dim, a, b):
    rng = rec.rng
    box = gen.Box(rng, dim, n=3 if dim == 2 else 2)
    if b == 'CGX':
        b = 'vCG2'
    V, Q = spaces.space(box.mesh, a), spaces.space(box.mesh, b)
    f = gen.randfun(rng, V)
    P = gen.Poly(rng, dim, 1, V.ufl_element().value_shape())
    ok, mat = rec.guard('interpolation_matrix_runs', interpolation_mat, V, Q)
    if not ok:
        return
    A = gen.dense(mat)
    rec.close(A.shape, (Q.dim(), V.dim()), 'shape')
    single_valued = a in spaces.CONTINUOUS or b == 'DG0' or (b[:2] in ('DG', 'vD'))
    if single_valued:
        # cellwise: in each cell the interpolant has the degrees of freedom of f restricted to the cell
        y = df.Function(Q)
        y.vector().set_local(A @ f.vector().get_local())
        n = max(Q.ufl_element().degree(), 1)
        for c in range(box.mesh.num_cells()):
            elmt = Q.element()
            ref = reference_dofs(Q, c, f)
            rec.close(y.vector().get_local()[Q.dofmap().cell_dofs(c)], ref, 'interpolant_dofs')
    w = gen.interp(V, P)
    y = A @ w.vector().get_local()
    if a not in ('DG0', 'RT1', 'N1curl1'):
        rec.close(y, gen.interp(Q, P).vector().get_local(), 'interpolates_linear_polynomials')
    rec.event('interp')
    rec.seen('interp', dim, a, b)


def reference_dofs(Q, c, f):
    class Local(df.UserExpression):
        def eval_cell(self, v, x, cell):
            out = np.zeros(len(v))
            f.eval_cell(out, x, df.Cell(Q.mesh(), c))
            v[:] = out

        def value_shape(self):
            return Q.ufl_element().value_shape()
    cell = df.Cell(Q.mesh(), c)
    e = Local(degree=3)
    return Q.element().evaluate_dofs(e, np.array(cell.get_vertex_coordinates()), cell.orientation(), cell)


def run(rec, case):
    kind, dim, elm = case[:3]
    rec.ctx = '%s %dd %s %s' % (kind, dim, elm, '/'.join(map(str, case[3:])))
    if kind == 'restrict':
        restrict(rec, dim, elm, case[3])
    elif kind == 'inject':
        inject(rec, dim, elm, case[3], case[4])
    elif kind == 'extend':
        extend(rec, dim, elm, case[3])
    elif kind == 'orders':
        orders(rec, dim, elm)
    elif kind == 'levels':
        levels(rec, dim, elm)
    else:
        interp(rec, dim, case[2], case[3])
    rec.sample(rec.ctx)
