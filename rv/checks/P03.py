"""Traces on manifolds that do not match the mesh, or match it only in part."""
import numpy as np
import dolfin as df
from dolfin import inner, TrialFunction, TestFunction, Measure
import gen, spaces
from xii import EmbeddedMesh, SubDomainMesh, Trace, ii_assemble, ii_convert

RULE = ('free: a polyline (2d) or triangulated patch (3d) placed arbitrarily in a box mesh, optionally sticking out of it; '
        'shared: an interface extracted from one subdomain mesh and traced from an independently refined neighbour; '
        'parts: a union of tagged interfaces, each tag matching only some of several meshes, traced tag by tag in random '
        'order. Non-trivial when the manifold has at least 3 cells and crosses cells of the mesh; key = kind/dim/element/out.')
REQUIRED = {'free_cells': 100, 'points_outside': 5, 'parts_traced': 8, 'shared': 2}

E2 = ('CG1', 'CG2', 'CG3', 'vCG1', 'vCG2', 'MINI', 'wCG1', 'hCG1')
E3 = ('CG1', 'CG2', 'vCG1', 'wCG1')
EP = ('RT1', 'BDM1', 'N1curl1', 'DG1', 'vDG1', 'CR1')       # polynomial data only


def cases(tier, seed):
    rng = np.random.default_rng([seed, 103])
    reps = 1 if tier == 'quick' else 10
    out = []
    for r in range(reps):
        out += [('free', 2, e, o) for e in E2 for o in (False, True)]
        out += [('free', 3, e, o) for e in E3 for o in (False, True)]
        out += [('poly', d, e, False) for d in (2, 3) for e in EP]
        out += [('shared', 2, e, False) for e in ('CG1', 'CG2', 'vCG2')]
        out += [('parts', 2, e, False) for e in ('CG1', 'CG2', 'vCG1', 'CG1')]
    return [out[i] for i in rng.permutation(len(out))]


def free_manifold(rng, box, out):
    """arrays for a manifold inside (or sticking out of) the reference unit box, mapped by its affine map"""
    dim = box.dim
    lo, hi = (0.12, 0.88)
    if dim == 2:
        n = int(rng.integers(3, 9))
        if rng.integers(2) or out:
            a, b = rng.uniform(lo, hi, 2), rng.uniform(lo, hi, 2)
            while np.linalg.norm(a-b) < 0.4:
                b = rng.uniform(lo, hi, 2)
            if out:
                b = b + 1.3*(b-a)/np.linalg.norm(b-a)
            t = np.r_[0, np.sort(rng.uniform(0.05, 0.95, n-1)), 1]
            while np.diff(t).min() < 0.02:
                t = np.r_[0, np.sort(rng.uniform(0.05, 0.95, n-1)), 1]
            X = a + np.outer(t, b-a)
            C = np.c_[np.arange(n), np.arange(1, n+1)]
        else:                                             # a closed curve
            th = np.linspace(0, 2*np.pi, n+2)[:-1] + rng.uniform(0, 1)
            X = 0.5 + 0.3*np.c_[np.cos(th), np.sin(th)]
            k = len(X)
            C = np.c_[np.arange(k), (np.arange(k)+1) % k]
    else:
        m = df.UnitSquareMesh(2, 2)
        Y, C = m.coordinates(), m.cells().copy()
        R = gen.rotation(rng, 3)
        s = 2.0 if out else 0.42
        X = 0.5 + (s*(Y-0.5)) @ R[:2]
    p = rng.permutation(len(X))
    return gen.build(box.map(X[np.argsort(p)]), p[C], dim-1)


def reference(V, em, f, deg, box=None):
    """nodal interpolant of f on em, zero where f is not defined (brute force point location)"""
    shape = V.ufl_element().value_shape()
    T = spaces.like(V, 'DG', deg)(em)
    g = df.Function(T)
    vals = np.zeros(T.dim())
    subs = [T.sub(i) for i in range(int(np.prod(shape)))] if shape else [T]
    X = T.tabulate_dof_coordinates()
    outside, memo = 0, {}
    clear = True
    for i, S in enumerate(subs):
        for d in S.dofmap().dofs():
            key = X[d].tobytes()
            if key not in memo:
                cells = gen.locate(V.mesh(), X[d], 1E-9)
                if len(cells):
                    memo[key] = gen.evaluate(f, [X[d]], cells[0])[0]
                else:
                    memo[key] = None
                # within a hair of the boundary the answer is not specified
                clear &= (len(gen.locate(V.mesh(), X[d], 1E-6)) > 0) == (len(gen.locate(V.mesh(), X[d], -1E-6)) > 0) \
                    or len(cells) > 0
            if memo[key] is None:
                outside += 1
            else:
                vals[d] = memo[key][i]
    g.vector().set_local(vals)
    return g, outside, clear


def moments(rec, em, g, Q, rv, r, got, live, deg, oracle):
    n = 0
    for c, x, w in gen.quad(em, deg+2):
        dofs = Q.dofmap().cell_dofs(c)
        m = rv[dofs] @ got[dofs]
        if not live[c]:
            rec.check(abs(m) < 1E-12, 'zero_outside_tag', lambda: 'moment %g' % m)
            continue
        gx = g(c, x).reshape((len(x), -1))
        e = np.sum(w*np.sum(gx*gen.evaluate(r, x, c), axis=1))
        rec.check(abs(e-m) < 1E-9*(np.abs(gx).max()+1E-2)*max(1, w.sum()), oracle,
                  lambda: 'cell %d: moment %g expected %g' % (c, m, e))
        n += 1
    return n


def run(rec, case):
    kind, dim, elm, out = case
    rng = rec.rng
    rec.ctx = '%s %dd %s%s' % (kind, dim, elm, ' out' if out else '')
    if kind == 'parts':
        return parts(rec, elm)
    if kind == 'shared':
        return shared(rec, elm)
    box = gen.Box(rng, dim, n=4 if dim == 2 else 3)
    mesh = box.mesh
    em = free_manifold(rng, box, out)
    V = spaces.space(mesh, elm)
    deg = V.ufl_element().degree()
    Q = spaces.like(V, 'DG', 1)(em)
    dX = Measure('dx', domain=em)
    u, v, p, q = TrialFunction(V), TestFunction(V), TrialFunction(Q), TestFunction(Q)
    shape = V.ufl_element().value_shape()
    live = np.ones(em.num_cells(), dtype=bool)
    r = gen.randfun(rng, Q)
    rv = r.vector().get_local()
    if kind == 'poly':
        if elm in ('RT1', 'N1curl1'):
            a0, b0 = rng.uniform(-1, 1, dim), rng.uniform(-1, 1)
            if elm == 'RT1':
                P = lambda X: a0 + b0*np.atleast_2d(X)
            elif dim == 2:
                P = lambda X: a0 + b0*(np.atleast_2d(X) @ np.array([[0, 1.], [-1, 0]]))
            else:
                P = lambda X: a0 + np.cross(np.full(3, b0), np.atleast_2d(X))
        else:
            P = gen.Poly(rng, dim, 1, shape)
        f = gen.interp(V, P)
        g = lambda c, x: P(x)
        outside, clear = 0, True
    else:
        f = gen.randfun(rng, V)
        ref, outside, clear = reference(V, em, f, deg)
        g = lambda c, x: gen.evaluate(ref, x, c)
    if not clear:
        rec.event('unclear_point_position')
        return
    A = gen.dense(ii_convert(ii_assemble(inner(Trace(u, em), q)*dX)))
    fv = f.vector().get_local()
    b = ii_assemble(inner(Trace(f, em), q)*dX).get_local()
    rec.close(b, A @ fv, 'trial_vs_coefficient')
    At = gen.dense(ii_convert(ii_assemble(inner(p, Trace(v, em))*dX)))
    rec.close(At, A.T, 'test_is_transpose_of_trial')
    n = moments(rec, em, g, Q, rv, r, b, live, deg, 'nonconforming_value')
    rec.event('free_cells', n)
    rec.event('points_outside', outside)
    tree_cells = set(int(gen.locate(mesh, x, 1E-9)[0]) for x in em.coordinates() if len(gen.locate(mesh, x, 1E-9)))
    if n >= 3 and len(tree_cells) > 1:
        rec.seen(kind, dim, elm, out, n)
    rec.sample('%s: %d manifold cells touching >=%d cells, %d dof points outside' % (rec.ctx, n, len(tree_cells), outside))


def anywhere(f):
    """continuous function: any cell that contains the point"""
    return lambda c, x: np.array([gen.eval_anywhere(f, y, 1E-8) for y in x])


def shared(rec, elm):
    """left mesh gives the interface, right mesh has unrelated vertices there"""
    rng = rec.rng
    # Axis aligned so that 'on the interface' is exact; swapped axes and dyadic scale keep it so
    swap, scale = int(rng.integers(2)), 2.**int(rng.integers(-2, 3))
    n, m = [(4, 3), (3, 5), (5, 4)][int(rng.integers(3))]
    L, R = df.RectangleMesh(df.Point(0, 0), df.Point(0.5, 1), 2, n), df.RectangleMesh(df.Point(0.5, 0), df.Point(1, 1), 2, m)
    ref = L.coordinates().copy()
    on = np.abs(ref[:, 0]-0.5) < 1E-12
    for msh in (L, R):
        msh.coordinates()[:] = scale*(msh.coordinates()[:, ::-1] if swap else msh.coordinates())
    ev = gen.entity_vertices(L, 1)
    em = EmbeddedMesh(gen.mesh_function(L, 1, {1: np.where(on[ev].all(axis=1))[0]}), 1)
    dX = Measure('dx', domain=em)
    b = {}
    for name, msh in (('L', L), ('R', R)):
        V = spaces.space(msh, elm)
        Q = spaces.like(V, 'DG', 1)(em)
        P = gen.Poly(rng, 2, V.ufl_element().degree(), V.ufl_element().value_shape())
        f = gen.interp(V, P)
        g = lambda c, x: P(x)
        if name == 'L':                                  # matching: any function of the space
            f = gen.randfun(rng, V)
            g = anywhere(f)
        r = gen.randfun(rng, Q)
        for rep in range(2):
            A = ii_convert(ii_assemble(inner(Trace(TrialFunction(V), em), TestFunction(Q))*dX))
            got = gen.dense(A) @ f.vector().get_local()
            k = moments(rec, em, g, Q, r.vector().get_local(), r, got, np.ones(em.num_cells(), dtype=bool),
                        V.ufl_element().degree(), 'shared_interface:' + name)
        rec.seen('shared', elm, name, n, m)
        rec.event('shared')
    rec.sample('interface of %d cells seen from a neighbour with %d cells' % (n, m))


def parts(rec, elm):
    """4 subdomains of one mesh; skeleton between them tagged by adjacent pairs; each subdomain traces onto its own tags"""
    rng = rec.rng
    box = gen.Box(rng, 2, n=4)
    mesh = box.mesh
    quad = np.array([1 + (c[0] > 0.5) + 2*(c[1] > 0.5) for c in box.ref[mesh.cells()].mean(axis=1)])
    cell_f = gen.mesh_function(mesh, 2, values=quad)
    mesh.init(1, 2)
    f2c = mesh.topology()(1, 2)
    facet_f = gen.mesh_function(mesh, 1)
    pairs = {}
    for e in range(mesh.num_entities(1)):
        cs = f2c(e)
        if len(cs) == 2 and quad[cs[0]] != quad[cs[1]]:
            t = 10*min(quad[cs]) + max(quad[cs])
            facet_f.array()[e] = t
            pairs.setdefault(int(t), 0)
    tags = sorted(pairs)
    em = EmbeddedMesh(facet_f, tags)
    dX = Measure('dx', domain=em)
    mark = em.marking_function.array()
    deg = 2 if elm == 'CG2' else 1
    for d in rng.permutation([1, 2, 3, 4]):
        sub = EmbeddedMesh(cell_f, int(d)) if rng.integers(2) else df.SubMesh(mesh, cell_f, int(d))
        V = spaces.space(sub, elm)
        Q = spaces.like(V, 'DG', 1)(em)
        f = gen.randfun(rng, V)
        g = anywhere(f)
        mine = [t for t in tags if int(d) in (t//10, t % 10)]
        todo = [[int(t)] for t in rng.permutation(mine)] + [mine]
        if rng.integers(2):
            todo = todo[::-1]
        for tag in todo:
            r = gen.randfun(rng, Q)
            A = ii_convert(ii_assemble(inner(Trace(TrialFunction(V), em, tag=tag), TestFunction(Q))*dX))
            got = gen.dense(A) @ f.vector().get_local()
            moments(rec, em, g, Q, r.vector().get_local(), r, got, np.isin(mark, tag), deg,
                    'trace_on_parts')
            rec.event('parts_traced')
            rec.seen('parts', elm, int(d), tuple(tag))
    rec.sample('skeleton of 4 subdomains, tags %s' % tags)
