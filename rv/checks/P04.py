"""Averages of 3d functions over shapes carried by a curve, 3d-1d trace, flux averages."""
import numpy as np
import dolfin as df
from dolfin import inner, TrialFunction, TestFunction, Measure
import gen, spaces
from xii import EmbeddedMesh, Average, ii_assemble, ii_convert
from xii.assembler.flux_average_form import FluxAverage
from xii.assembler.average_matrix import MeasureFunction
from xii.assembler.average_shape import Circle, Disk, Square, SquareRim, BoundingSurface, Quadrature, render_avg_surface, tube_render_avg_surface

RULE = ('a distorted, renumbered box mesh; a curve made of its edges or a free polyline inside it; shape circle/disk/square/rim/'
        'user defined cloud with constant or varying size and random quadrature degree; random coefficient vectors are checked against '
        'brute force evaluation at the shape points, polynomials against closed-form-exact averages built independently. '
        'Non-trivial: the shape points of one row touch several cells; key = kind/element/curve/degree.')
REQUIRED = {'rows': 200, 'exact_rows': 60, 'multi_cell_rows': 60, 'flux_rows': 20, 'trace_rows': 30, 'disk_rules': 20, 'square_rules': 20, 'surfaces': 10}

SHAPES = ('circle', 'disk', 'square', 'rim', 'cloud')
ELEMENTS = ('CG1', 'CG2', 'DG0', 'DG1', 'vCG1', 'vCG2', 'vDG1', 'tCG1', 'wCG1', 'wDG1', 'hCG2', 'RT1', 'BDM1', 'N1curl1', 'vBDM1')


def cases(tier, seed):
    rng = np.random.default_rng([seed, 104])
    out = [('rules', None, None)]
    for r in range(1 if tier == 'quick' else 8):
        for k, s in enumerate(SHAPES):
            for e in ELEMENTS:
                if tier == 'thorough' or e in ('CG1', 'vCG1') or rng.random() < 0.5:
                    out.append((s, e, str(rng.choice(['edges', 'free'])) if s not in ('square', 'rim') else 'line'))
        out += [('trace', e, c) for e in ('CG1', 'CG2', 'vCG1', 'vCG2', 'tCG1', 'wCG1', 'hCG1') for c in ('edges', 'free')]
        out += [('trace', 'DG0', 'free')]
        out += [('trace', e, 'refined') for e in ('CG1', 'CG2', 'vCG1')]
        out += [('flux', e, c) for e in ('BDM1', 'RT1', 'vCG1', 'vCG2', 'N1curl1') for c in ('edges', 'free')]
    return [out[i] for i in rng.permutation(len(out))]


class Cloud(BoundingSurface):
    """A user's own shape: points in the plane around x0 with positive weights"""
    def __init__(self, rng, n):
        self.a, self.w = rng.uniform(-0.12, 0.12, (n, 2)), rng.uniform(0.1, 1, n)

    def quadrature(self, x0, n):
        t, b = frame(n)
        return Quadrature([x0 + p*t + q*b for p, q in self.a], self.w*(1 + x0[0]**2))


def frame(n):
    n = n/np.linalg.norm(n)
    e = np.eye(3)[np.argmin(np.abs(n))]
    t = np.cross(n, e)
    t /= np.linalg.norm(t)
    return t, np.cross(n, t)


def curve(rng, box, kind):
    mesh = box.mesh
    if kind == 'edges':
        ev = gen.entity_vertices(mesh, 1)
        ok = np.all((box.ref[ev] > 0.3) & (box.ref[ev] < 0.7), axis=(1, 2))
        idx = rng.permutation(np.where(ok)[0])[:int(rng.integers(2, 5))]
        f = gen.mesh_function(mesh, 1, {7: idx})
        return EmbeddedMesh(f, 7)
    n = int(rng.integers(2, 5))
    if kind == 'line':
        a, b = rng.uniform(0.35, 0.65, (2, 3))
        while np.linalg.norm(a-b) < 0.15:
            b = rng.uniform(0.35, 0.65, 3)
        if rng.random() < 0.3:                     # axis aligned, both directions
            b = a.copy()
            b[rng.integers(3)] = 1 - b[rng.integers(3)] + 0.1
        X = a + np.outer(np.linspace(0, 1, n+1), b-a)
    else:
        X = rng.uniform(0.35, 0.65, (n+1, 3))
        while np.linalg.norm(np.diff(X, axis=0), axis=1).min() < 0.05:
            X = rng.uniform(0.35, 0.65, (n+1, 3))
        if rng.random() < 0.5:
            X[1] = X[0] + [0, 0, rng.choice([-0.2, 0.2])]
    p = rng.permutation(n+1)
    C = np.c_[np.arange(n), np.arange(1, n+1)]
    flip = rng.integers(2, size=n).astype(bool)
    C[flip] = C[flip][:, ::-1]
    return gen.build(box.map(X[np.argsort(p)]), p[C], 1)


def make_shape(rng, kind, em):
    R = float(rng.uniform(0.05, 0.12))
    size = (lambda x, R=R: R) if rng.integers(2) else (lambda x, R=R: R*(1+0.3*np.sin(3*x[0]+x[2])))
    fixed = rng.integers(2)
    X = em.coordinates()
    t = X[em.cells()[0][1]] - X[em.cells()[0][0]]
    deg = int(rng.integers(2, 24))
    if kind in ('circle', 'flux'):
        return Circle(R if fixed else size, deg), ((lambda x: R) if fixed else size), deg
    if kind == 'disk':
        return Disk(R if fixed else size, deg), ((lambda x: R) if fixed else size), deg
    if kind in ('square', 'rim'):
        a, b = frame(t)
        phi = rng.uniform(0, 2*np.pi)
        v = np.cos(phi)*a + np.sin(phi)*b
        deg = min(deg, 8)
        P = lambda x0: x0 + size(x0)*v
        return (Square if kind == 'square' else SquareRim)(P, deg), P, deg
    return Cloud(rng, int(rng.integers(1, 25))), None, deg


def exact_points(kind, size, x0, n):
    """independent, exact (for low degree polynomials) points and normalised weights of the shape, and its measure"""
    t, b = frame(n)
    if kind in ('circle', 'flux'):
        R, th = size(x0), 2*np.pi*(np.arange(40)+0.3)/40
        d = np.outer(np.cos(th), t) + np.outer(np.sin(th), b)
        return x0 + R*d, np.full(40, 1./40), 2*np.pi*R, d
    if kind == 'disk':
        R, th = size(x0), 2*np.pi*np.arange(24)/24
        x, w = np.polynomial.legendre.leggauss(12)
        r, w = 0.5*(x+1), 0.5*w
        pts = [x0 + R*ri*(np.cos(a)*t + np.sin(a)*b) for ri in r for a in th]
        ws = [2*wi*ri/24 for ri, wi in zip(r, w) for a in th]
        return np.array(pts), np.array(ws), np.pi*R**2, None
    P = size(x0)
    v = P - x0
    u = np.cross(n/np.linalg.norm(n), v)
    corners = [x0+v, x0+u, x0-v, x0-u]
    side = np.sqrt(2)*np.linalg.norm(v)
    x, w = np.polynomial.legendre.leggauss(10)
    x, w = 0.5*(x+1), 0.5*w
    if kind == 'rim':
        pts = [p + s*(q-p) for p, q in zip(corners, corners[1:]+corners[:1]) for s in x]
        return np.array(pts), np.tile(w, 4)/4, 4*side, None
    A, e1, e2 = corners[0], corners[1]-corners[0], corners[3]-corners[0]
    return np.array([A+s*e1+r*e2 for s in x for r in x]), np.array([a*b for a in w for b in w]), side**2, None


def spectral_ok(kind, deg, pdeg):
    """does the rule of this degree promise to integrate polynomials of degree pdeg (to what tolerance)"""
    if kind in ('circle', 'flux'):
        return deg >= 18, 1E-6
    if kind == 'disk':
        return deg >= pdeg, (1E-9 if deg <= 15 else 1E-5)
    if kind in ('square', 'rim'):
        return 2*deg-1 >= pdeg*(1 if kind == 'rim' else 2), 1E-9
    return False, 0


def components(T):
    shape = T.ufl_element().value_shape()
    return [T.sub(i) for i in range(int(np.prod(shape)))] if shape else [T]


def cell_nodes(T):
    """(cell, [dofs of each component], x) for every node of DG space T"""
    subs = components(T)
    X = T.tabulate_dof_coordinates()
    for c in range(T.mesh().num_cells()):
        dofs = [S.dofmap().cell_dofs(c) for S in subs]
        for loc in range(len(dofs[0])):
            yield c, [d[loc] for d in dofs], X[dofs[0][loc]]


def run(rec, case):
    kind, elm, ckind = case
    rng = rec.rng
    rec.ctx = '%s %s %s' % case
    if kind == 'rules':
        return rules(rec)
    box = gen.Box(rng, 3, n=3)
    mesh = box.mesh
    V = spaces.space(mesh, elm)
    shape_v = V.ufl_element().value_shape()
    deg = V.ufl_element().degree()
    if kind == 'trace' and ckind == 'free' and (elm == 'DG0' or rng.integers(2)):
        em = inside_cells(rng, mesh)
        interior = True
    elif ckind == 'refined':
        em = refined_edges(rng, mesh)
        interior = True
    else:
        em = curve(rng, box, ckind)
        interior = False
    dX = Measure('dx', domain=em)
    if kind == 'flux':
        T = df.FunctionSpace(em, 'DG', deg)
    else:
        T = spaces.like(V, 'DG', deg)(em)
    Q = T
    f = gen.randfun(rng, V)
    pdeg = 0 if elm == 'DG0' else (1 if elm in ('RT1', 'N1curl1') else deg)
    if elm in ('RT1', 'N1curl1'):
        a0, b0 = rng.uniform(-1, 1, 3), rng.uniform(-1, 1)
        P = (lambda X: a0 + b0*np.atleast_2d(X)) if elm == 'RT1' else (lambda X: a0 + np.cross(np.full(3, b0), np.atleast_2d(X)))
    else:
        P = gen.Poly(rng, 3, pdeg, shape_v)
    g = gen.interp(V, P)
    X, C = em.coordinates(), em.cells()
    if kind == 'trace':
        shape, size, qdeg = None, None, 0
        Op = lambda o: Average(o, em, None)
    else:
        shape, size, qdeg = make_shape(rng, kind, em)
        Op = (lambda o: FluxAverage(o, em, shape)) if kind == 'flux' else (lambda o: Average(o, em, shape))
    u, v, q, p = TrialFunction(V), TestFunction(V), TestFunction(Q), TrialFunction(Q)
    A = gen.dense(ii_convert(ii_assemble(inner(Op(u), q)*dX)))
    At = gen.dense(ii_convert(ii_assemble(inner(p, Op(v))*dX)))
    rec.close(At, A.T, 'test_is_transpose_of_trial')
    M = gen.dense(df.assemble(inner(p, q)*dX))
    Pi = np.linalg.solve(M, A)                     # rows: degrees of freedom of the average
    fv, gv = f.vector().get_local(), g.vector().get_local()
    if kind != 'flux':
        b = ii_assemble(inner(Op(f), q)*dX).get_local()
        rec.close(b, A @ fv, 'trial_vs_coefficient')
        b2 = ii_assemble(inner(f.vector().norm('l2')*Op(f), q)*dX).get_local()
        rec.close(b2, f.vector().norm('l2')*(A @ fv), 'scaled_coefficient')
    got_f, got_g = Pi @ fv, Pi @ gv
    rows = multi = 0
    exact_ok, tol = spectral_ok(kind, qdeg, pdeg)
    for c, dofs, x in cell_nodes(T):
        n = X[C[c][1]] - X[C[c][0]]
        if kind == 'trace':
            pts, w = [x], np.ones(1)
            if elm != 'DG0' and not interior:
                # values of the polynomial, every mesh; the function itself on mesh edges
                rec.close(got_g[dofs], P(x)[0], 'trace_of_polynomial', rtol=1E-7, atol=1E-8)
                if ckind == 'free':
                    rec.event('trace_rows')
                    continue
            sets = [(pts, w, None)]
        else:
            # the points of a rule may depend on which way the curve cell is followed
            sets = []
            for t in (n, -n):
                if kind == 'flux':
                    (pts, w), nrm = shape.quadrature_normal(x, t)
                else:
                    (pts, w), nrm = shape.quadrature(x, t), None
                sets.append((np.array(pts), np.array(w), nrm))
        expect, touched = [], set()
        for pts, w, nrm in sets:
            vals = []
            for y in pts:
                cs, close = gen.locate(mesh, y, 1E-11), gen.locate(mesh, y, 1E-8)
                if len(cs) == 0 or (elm not in spaces.CONTINUOUS and len(close) > 1):
                    break
                vals.append(gen.evaluate(f, [y], cs[0])[0])
                touched.add(int(cs[0]))
            if len(vals) < len(pts):
                continue
            vals = np.array(vals)
            if kind == 'flux':
                vals = np.sum(vals*np.asarray(nrm), axis=1)[:, None]
            expect.append((w[:, None]*vals).sum(axis=0)/w.sum())
        if len(expect) < len(sets):
            rec.event('rows_skipped')
            continue
        k = int(np.argmin([np.abs(got_f[dofs]-e).max() for e in expect]))
        rec.close(got_f[dofs], expect[k], 'average_value', 'dofs %s' % dofs, rtol=1E-7, atol=1E-8)
        rows += 1
        multi += len(touched) > 1
        rec.event({'trace': 'trace_rows', 'flux': 'flux_rows'}.get(kind, 'shape_rows'))
        if exact_ok:
            ep, ew, meas, nn = exact_points(kind, size, x, n)
            pv = P(ep)
            if kind == 'flux':
                pv = np.sum(pv*nn, axis=1)[:, None]
            rec.close(got_g[dofs], (ew[:, None]*pv).sum(axis=0), 'average_of_polynomial', 'degree %d rule' % qdeg, rtol=tol, atol=tol)
            rec.close(w.sum(), meas, 'measure_of_shape', rtol=1E-9)
            rec.event('exact_rows')
    if kind in ('circle', 'disk', 'square', 'rim'):
        m = MeasureFunction(Op(f))
        S = m.function_space()
        for c, (d,), x in cell_nodes(S):
            n = X[C[c][1]] - X[C[c][0]]
            rec.close(m.vector()[d], exact_points(kind, size, x, n)[2], 'measure_function', rtol=1E-9)
    if kind != 'trace' and kind != 'flux' and V.ufl_element().family() in ('Lagrange', 'Discontinuous Lagrange'):
        surface(rec, Op(f), shape, T, X, C)
    rec.event('rows', rows)
    rec.event('multi_cell_rows', multi)
    if rows:
        rec.seen(kind, elm, ckind, qdeg, multi > 0)
    rec.sample('%s: rule degree %d, %d rows compared, %d with points in several cells' % (rec.ctx, qdeg, rows, multi))


def surface(rec, Pi, shape, T, X, C):
    """what is drawn as the surface are the points at which the average is evaluated"""
    want = []
    for c, dofs, x in cell_nodes(T):
        n = X[C[c][1]] - X[C[c][0]]
        want += [(np.array(shape.quadrature(x, n).points), np.array(shape.quadrature(x, -n).points))]*len(dofs)
    got = render_avg_surface(Pi)
    match = lambda g, ws: any(np.shape(g) == w.shape and np.abs(g - w).max() < 1E-9 for w in ws)
    if rec.check(len(got) == len(want), 'rendered_surface', lambda: '%d instead of %d cross sections' % (len(got), len(want))):
        for w in want:
            k = next((i for i, g in enumerate(got) if match(g, w)), None)
            if rec.check(k is not None, 'rendered_surface', 'a cross section is missing'):
                got.pop(k)
    tubes = tube_render_avg_surface(Pi)
    rec.check(len(tubes) == len(C), 'rendered_tubes')
    for c, tube in zip(C, tubes):
        n = X[c[1]] - X[c[0]]
        ends = [[np.array(shape.quadrature(X[v], t).points) for t in (n, -n)] for v in c]
        rec.check(len(tube) == 2 and all(match(g, w) for g, w in zip(tube, ends)), 'rendered_tubes')
    rec.event('surfaces')


def inside_cells(rng, mesh):
    """a line mesh whose cells lie inside single cells of mesh"""
    X, C, pts = mesh.coordinates(), mesh.cells(), []
    for c in rng.permutation(len(C))[:6]:
        for k in range(2):
            l = rng.dirichlet(3*np.ones(4))
            pts.append(l @ X[C[c]])
    return gen.build(np.array(pts), np.arange(12).reshape((-1, 2)), 1)


def refined_edges(rng, mesh):
    """edges of a finer mesh; each of them is in a single (closed) cell of mesh"""
    fine = df.refine(mesh)
    fine.init(1)
    fine.init(2, 3)
    fine.init(2, 1)
    outer = {e for f in df.facets(fine) if f.exterior() for e in f.entities(1)}      # there rounding decides whether a point is in the mesh
    idx = np.array([e for e in range(fine.num_entities(1)) if e not in outer])
    return EmbeddedMesh(gen.mesh_function(fine, 1, {3: rng.permutation(idx)[:8]}), 3)


def rules(rec):
    """the quadratures themselves, for every degree, against exact moments"""
    rng = rec.rng
    for deg in range(1, 25):
        for rep in range(3):
            x0 = rng.uniform(-1, 1, 3)
            n = rng.standard_normal(3) if rep else [np.array([0, 0, 1.]), np.array([0, 0, -2.]), np.array([1., 0, 0])][deg % 3]
            R = float(rng.uniform(0.2, 2))
            size = lambda x: R
            for kind, S in (('disk', Disk(R, deg)), ('circle', Circle(R, deg))):
                pts, w = S.quadrature(x0, n)
                pts, w = np.array(pts), np.array(w)
                d = (pts - x0)
                # square root of a cancellation in the rotation costs half the digits
                rec.check(np.abs(d @ n).max() < 1E-6*R*np.linalg.norm(n)*max(1, np.abs(d).max()/R), 'in_plane', kind)
                if kind == 'circle':
                    rec.close(np.linalg.norm(d, axis=1), np.full(len(d), R), 'on_circle', rtol=1E-7)
                ep, ew, meas, _ = exact_points(kind, size, x0, n)
                rec.close(w.sum(), meas, 'measure_of_shape', rtol=1E-9)
                top = min(deg, 19) if kind == 'disk' else (4 if deg >= 22 else 0)
                tol = (1E-9 if deg <= 15 else 1E-4) if kind == 'disk' else 1E-6
                for k in range(top+1):
                    dirs = rng.standard_normal((4, 3))
                    for e in dirs/np.linalg.norm(dirs, axis=1)[:, None]:
                        a = np.sum(w*((d/R) @ e)**k)/w.sum()
                        if kind == 'disk' and k > 16:
                            continue                          # the reference rule is exact to 23 in r and 23 in angle
                        b = np.sum(ew*(((ep-x0)/R) @ e)**k)
                        rec.close(a, b, 'rule_moment', '%s degree %d moment %d' % (kind, deg, k), rtol=tol, atol=tol)
            rec.event('disk_rules')
        # corner given in all the ways
        x0, n = rng.uniform(-1, 1, 3), rng.standard_normal(3)
        if rng.integers(2):
            x0, n = rng.integers(-2, 3, 3).astype(float), rng.permutation([0., 0., 2.])
        n = n/np.linalg.norm(n)
        a, b = frame(n)
        phi = rng.uniform(0, 2*np.pi)
        p0 = x0 + float(rng.uniform(0.2, 2))*(np.cos(phi)*a + np.sin(phi)*b)
        p0 -= ((p0 - x0) @ n)*n
        for kind, S in (('square', Square), ('rim', SquareRim)):
            for how, P in (('array', p0), ('list', [float(p) for p in p0]), ('tuple', tuple(float(p) for p in p0)), ('function', lambda x: x + (p0 - x0))):
                ok, q = rec.guard('corner_as_%s' % how, lambda: S(P, deg).quadrature(x0, n))
                if not ok:
                    continue
                rec.event('square_rules')
                pts, w = np.array(q.points), np.array(q.weights)
                rec.check(np.abs((pts-x0) @ n).max() < 1E-9, 'in_plane', kind)
                ep, ew, meas, _ = exact_points(kind, lambda x: p0, x0, n)
                rec.close(w.sum(), meas, 'measure_of_shape', '%s %s' % (kind, how), rtol=1E-9)
                for k in range(min(2*deg - 1, 6)+1):
                    e = rng.standard_normal(3)
                    rec.close(np.sum(w*((pts-x0) @ e)**k)/w.sum(), np.sum(ew*((ep-x0) @ e)**k), 'rule_moment',
                              '%s degree %d moment %d' % (kind, deg, k), rtol=1E-9, atol=1E-9)
    rec.seen('rules')
