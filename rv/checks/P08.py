"""Assembly depends on the present state of its inputs only, and leaves them alone: random histories."""
import gc
import numpy as np
import dolfin as df
from dolfin import inner, TrialFunction, TestFunction, Measure, Constant
import gen, spaces
from xii import EmbeddedMesh, Trace, Restriction, Injection, Average, ii_assemble, ii_convert
from xii.assembler.average_shape import Circle, Disk
from xii.assembler.mean_form import Mean
from xii.assembler.surface_mean_form import SurfaceMean
from xii.assembler.point_trace_form import PointTrace
from xii.assembler.gradient_point_trace_form import GradientPointTrace
from xii.assembler.patch_average_form import CellPatchAverage
from xii.assembler.flux_average_form import FluxAverage
from xii.assembler.interpolation_matrix import interpolation_mat
from xii.meshing.refinement import centroid_refine

RULE = ('one case = one history of 25-40 steps over a world of meshes, spaces and user data: mutations (coefficient values, normals, constants, '
        'weights, patches and tags changed in place, meshes moved together, equal-looking spaces with other dof numbering or periodicity, the '
        'whole world dropped and rebuilt, results of earlier assemblies overwritten) interleaved with assemblies of persistent and new forms with '
        'each reduction; every assembled object is compared with a reference computed from the present state, repeated assembly must be bitwise '
        'equal, user data must be bitwise unchanged. Other cases go through all pairs of a reduction and something it depends on: assembled, that one thing '
        'changed (also in ways that keep sums, norms, sets of values, extents or all entries but one), assembled again, changed back. key = (last mutation, reduction). Non-trivial: probe preceded by a mutation.')
REQUIRED = {'steps': 150, 'probes': 150, 'mutations': 80, 'repeated': 100, 'frozen_inputs': 100, 'scribbled': 20, 'probe:sided': 5,
            'probe:mean': 5, 'probe:trace': 5, 'probe:average': 10, 'averages_compared': 20, 'probe:patch': 3, 'pairs': 150, 'there_and_back': 150}


def cases(tier, seed):
    n = 28 if tier == 'quick' else 160
    m = 1 if tier == 'quick' else 6
    return [(d, 'pairs%d' % k) for d in (3, 2) for k in range(6)]*m + [(2 if i % 4 else 3, 26 if i % 4 else 16) for i in range(n)]


class World:
    def __init__(self, rec, dim):
        rng = rec.rng
        self.dim, self.rec, self.rng = dim, rec, rng
        box = gen.Box(rng, dim, n=3 if dim == 2 else 1, perturb=dim == 2)
        self.box = box
        m = self.mesh = box.mesh
        fv = gen.entity_vertices(m, dim-1)
        cells = [set(c) for c in m.cells()]
        inner_facets = [i for i, f in enumerate(fv) if sum(set(f) <= c for c in cells) == 2]
        chosen = rng.permutation(inner_facets)[:max(8, len(fv)//2)]
        ff = gen.mesh_function(m, dim-1)
        ff.array()[chosen] = 1 + np.arange(len(chosen)) % 3
        self.em = EmbeddedMesh(ff, [1, 2, 3])
        cf = gen.mesh_function(m, dim, values=1 + np.arange(m.num_cells()) % 2)
        self.sub = EmbeddedMesh(cf, 1)
        self.fine = centroid_refine(m)
        ev = gen.entity_vertices(m, 1)
        self.curve = EmbeddedMesh(gen.mesh_function(m, 1, {1: rng.permutation(len(ev))[:4]}), 1) if dim == 3 else None
        self.meshes = [x for x in (self.mesh, self.em, self.sub, self.fine, self.curve) if x is not None]
        self.V = df.FunctionSpace(m, 'CG', 1)
        self.D = df.FunctionSpace(m, 'DG', 1)
        self.f, self.d = gen.randfun(rng, self.V), gen.randfun(rng, self.D)
        self.n = df.Function(df.VectorFunctionSpace(self.em, 'DG', 0))
        self.m_normal()
        self.c = Constant(rng.uniform(1, 2))
        self.w = gen.randfun(rng, df.FunctionSpace(m, 'DG', 0))
        self.tau = Constant(rng.uniform(-1, 1, dim))
        self.patch_f = gen.mesh_function(m, dim, values=1 + rng.permutation(m.num_cells()) % 3)
        self.line = gen.build(rng.uniform(0, 1, (5, dim)), [[0, 1], [1, 2], [2, 3], [3, 4]], 1)
        self.vertex_f = df.Function(df.FunctionSpace(self.line, 'DG', 0))
        self.vertex_f.vector().set_local(rng.integers(1, 4, 4).astype(float))
        # a curve of its own for averages, moved independently
        if dim == 3:
            self.wire = gen.build(box.map(np.outer(np.linspace(0.4, 0.6, 4), [1, 1, 1]) + 0.03*rng.standard_normal((4, 3))),
                                  [[0, 1], [1, 2], [2, 3]], 1)
            r = 0.05*np.linalg.norm(box.A, 2)/2
            # the sizes can be given by functions of the present state
            self.size, self.flux = [1.], None
            size = self.size
            self.shapes = [Circle(lambda x: size[0]*r, 6), Circle(3*r, 6), Circle(3*r, 10), Disk(2*r, 8), Disk(lambda x: size[0]*r*(1+0.2*abs(x[0])), 8)]
        self.Q = {k: df.FunctionSpace(x, 'DG', 1) for k, x in
                  dict(em=self.em, sub=self.sub, fine=self.fine, mesh=self.mesh).items()}
        self.cv = Constant(rng.uniform(1, 2, 3))
        self.w2 = gen.randfun(rng, df.FunctionSpace(m, 'DG', 0))
        self.tf = gen.randfun(rng, df.VectorFunctionSpace(self.line, 'DG', 0))
        self.fix = {}
        self.forms = {}

    def choose(self, what, options):
        """at random unless the case says which"""
        if what in self.fix:
            return self.fix[what]
        return options[self.rng.integers(len(options))]

    # ---------------------------------------------------------- mutations
    def mutate(self):
        names = ['values', 'values', 'normal', 'constant', 'weight', 'patch', 'vertex_f', 'space', 'move', 'marking', 'tau', 'move_wire', 'size']
        name = str(self.rng.choice(names))
        getattr(self, 'm_'+name)()
        return name

    def m_values(self):
        f = (self.f, self.d)[self.rng.integers(2)]
        how = self.rng.integers(3)
        if how == 0:
            f.vector().set_local(self.rng.uniform(-1, 1, f.vector().size()))
        elif how == 1:
            f.vector()[:] *= -1.5
        else:
            f.vector().axpy(0.7, gen.randfun(self.rng, f.function_space()).vector())
        f.vector().apply('insert')

    def m_normal(self):
        """facet normals of random sign and length, a bit inclined"""
        v, X = self.n.vector().get_local(), self.em.coordinates()
        for c, cell in enumerate(self.em.cells()):
            e = X[cell[1:]] - X[cell[0]]
            n = np.linalg.svd(e)[2][-1]
            tilt = self.rng.uniform(-0.05, 0.05, self.dim)
            dofs = self.n.function_space().dofmap().cell_dofs(c)
            v[dofs] = self.rng.choice([-1, 1])*self.rng.uniform(0.5, 2)*(n + tilt)
        self.n.vector().set_local(v)

    def m_constant(self):
        self.c.assign(self.rng.uniform(1, 2))

    def m_tau(self):
        self.tau.assign(Constant(self.rng.uniform(-1, 1, self.dim)))

    def m_weight(self):
        self.w.vector().set_local(self.rng.uniform(-1, 1, self.w.vector().size()))

    def m_patch(self):
        a = self.patch_f.array()
        a[:] = self.rng.permutation(a)

    def m_size(self):
        if self.dim == 3:
            self.size[0] = self.rng.uniform(0.5, 1.5)

    def m_vertex_f(self):
        self.vertex_f.vector().set_local(self.rng.integers(1, 4, 4).astype(float))

    def m_marking(self):
        a = self.em.marking_function.array()
        a[:] = self.rng.permutation(a)

    def m_space(self):
        """another space over the same element and mesh, numbered differently"""
        m, how = self.mesh, self.rng.integers(3)
        if how == 0:
            old = df.parameters['reorder_dofs_serial']
            df.parameters['reorder_dofs_serial'] = not old
            self.V, self.D = df.FunctionSpace(m, 'CG', 1), df.FunctionSpace(m, 'DG', 1)
            if self.rng.integers(2):
                df.parameters['reorder_dofs_serial'] = old
        elif how == 1:
            W = df.FunctionSpace(m, df.MixedElement([self.V.ufl_element(), df.FiniteElement('DG', m.ufl_cell(), 0)]))
            self.V = W.sub(0).collapse()
        else:
            X = m.coordinates()
            i, j = self.rng.choice(len(X), 2, replace=False)
            if any(i in c and j in c for c in m.cells()):      # two dofs of a cell in one: not for dolfin's own transfer matrix
                return
            xi, xj = X[i].copy(), X[j].copy()

            class Glue(df.SubDomain):          # vertex j takes its value from vertex i
                def inside(self, x, on_boundary):
                    return np.linalg.norm(x-xi) < 1E-8

                def map(self, x, y):
                    y[:] = xi if np.linalg.norm(x-xj) < 1E-8 else 1E4
            self.V = df.FunctionSpace(m, 'CG', 1, constrained_domain=Glue())
        self.f, self.d = gen.randfun(self.rng, self.V), gen.randfun(self.rng, self.D)
        self.forms.clear()

    def m_move(self):
        """all meshes by one affine map"""
        A, b = gen.affine(self.rng, self.dim, 0.2), self.rng.uniform(-.1, .1, self.dim)
        for x in self.meshes:
            x.coordinates()[:] = x.coordinates() @ A.T + b
            x.bounding_box_tree().build(x)
        if self.dim == 3:
            self.wire.coordinates()[:] = self.wire.coordinates() @ A.T + b
        self.m_normal()

    def m_move_wire(self):
        if self.dim == 3:
            x = self.wire.coordinates()
            x[:] = x.mean(axis=0) + (x - x.mean(axis=0)) @ gen.rotation(self.rng, 3).T

    # -------------------------------------------------------------- probes
    def probe(self):
        names = ['trace', 'trace', 'sided', 'mean', 'restrict', 'inject', 'point', 'patch', 'surface', 'gradient', 'end', 'interp']
        if self.dim == 3:
            names += ['average']*6 + ['flux', 'edge']
        name = str(self.rng.choice(names))
        self.rec.event('probe:'+name)
        getattr(self, 'p_'+name)(name)
        return name

    def assembled(self, key, make, f, Q, xq=None):
        """three forms (persistent: built once, or new): matrix, vector, transposed; -> functional on Q of the present f"""
        rec, V = self.rec, f.function_space()
        if key not in self.forms or self.rng.integers(3) == 0:
            u, v, p, q = TrialFunction(V), TestFunction(V), TrialFunction(Q), TestFunction(Q)
            self.forms[key] = (make(u, q), make(f, q), make(v, p))
        else:
            rec.event('persistent_forms')
        forms = self.forms[key]
        before = self.snapshot()
        A = gen.dense(ii_convert(ii_assemble(forms[0])))
        b = ii_assemble(forms[1])
        T = ii_convert(ii_assemble(forms[2]))
        rec.check(self.snapshot() == before, 'inputs_left_alone', key)
        rec.event('frozen_inputs')
        w = A @ f.vector().get_local()
        rec.close(b.get_local(), w, 'coefficient_value_is_present', key)
        rec.close(gen.dense(T), A.T, 'transposed', key)
        # results belong to the caller
        if self.rng.integers(2):
            rec.event('scribbled')
            b.zero()
            T.mat().zeroEntries()
        again = gen.dense(ii_convert(ii_assemble(forms[0])))
        rec.check(np.array_equal(again, A), 'repeated_assembly_is_equal', key)
        rec.close(ii_assemble(forms[1]).get_local(), w, 'repeated_assembly_is_equal', key)
        rec.close(gen.dense(ii_convert(ii_assemble(forms[2]))), A.T, 'repeated_assembly_is_equal', key)
        rec.event('repeated')
        return w

    def snapshot(self):
        arrays = [m.coordinates() for m in self.meshes] + [m.cells() for m in self.meshes]
        arrays += [g.vector().get_local() for g in (self.f, self.d, self.n, self.w, self.vertex_f)]
        arrays += [self.w2.vector().get_local(), self.tf.vector().get_local(), self.cv.values(), self.c.values(), self.tau.values(), self.patch_f.array(), self.em.marking_function.array()]
        attrs = tuple(sorted(k for g in (self.f, self.d, self.n, self.w) for k in vars(g) if k.endswith('_') and not k.startswith('_')))
        return tuple(hash(np.ascontiguousarray(a).tobytes()) for a in arrays) + attrs

    def against(self, w, Q, g, oracle):
        """functional w on Q against the plain moments of the function g (g: cell -> values at points)"""
        r = gen.randfun(self.rng, Q)
        mesh = Q.mesh()
        ref = 0.
        for c, x, wq in gen.quad(mesh, 3):
            gx = g(c, x)
            if gx is not None:
                ref += np.sum(wq*gx*gen.evaluate(r, x, c)[:, 0])
        self.rec.close(r.vector().get_local() @ w, ref, oracle, rtol=1E-7, atol=1E-9)

    def anywhere(self, f):
        return lambda c, x: np.array([gen.eval_anywhere(f, y, 1E-8)[0] for y in x])

    def p_trace(self, name):
        tag = self.choose('tag', [None, 1, (1, 3)])
        dX = Measure('dx', domain=self.em)
        w = self.assembled('trace%s' % (tag,), lambda a, q: inner(Trace(a, self.em, tag=tag), q)*dX, self.f, self.Q['em'])
        marks = self.em.marking_function.array()
        every = self.anywhere(self.f)
        self.against(w, self.Q['em'], lambda c, x: every(c, x) if tag is None or marks[c] in np.atleast_1d(tag) else None, 'trace_of_present_state')

    def p_sided(self, name):
        side = self.choose('side', ['+', '-', 'avg', 'jump'])
        dX = Measure('dx', domain=self.em)
        w = self.assembled('sided'+side, lambda a, q: inner(Trace(a, self.em, side, self.n), q)*dX, self.d, self.Q['em'])
        from checks.P01 import parents_of
        par = parents_of(self.mesh, self.em)
        dm, values = self.n.function_space().dofmap(), self.n.vector().get_local()
        nv = [values[dm.cell_dofs(c)] for c in range(self.em.num_cells())]
        X, C = self.mesh.coordinates(), self.mesh.cells()

        def g(c, x):
            cells = par[c]
            if len(cells) > 1:
                mid = self.em.coordinates()[self.em.cells()[c]].mean(axis=0)
                n = nv[c]
                plus = max(cells, key=lambda k: (X[C[k]].mean(axis=0)-mid) @ n)
                minus, = [k for k in cells if k != plus]
                pv, mv = (gen.evaluate(self.d, x, k)[:, 0] for k in (plus, minus))
                return {'+': pv, '-': mv, 'avg': 0.5*(pv+mv), 'jump': pv-mv}[side]
            return gen.evaluate(self.d, x, cells[0])[:, 0]
        self.against(w, self.Q['em'], g, 'sided_trace_of_present_state')

    def p_restrict(self, name):
        dX = Measure('dx', domain=self.sub)
        w = self.assembled(name, lambda a, q: inner(Restriction(a, self.sub), q)*dX, self.f, self.Q['sub'])
        self.against(w, self.Q['sub'], self.anywhere(self.f), 'restriction_of_present_state')

    def p_inject(self, name):
        dX = Measure('dx', domain=self.fine)
        method = self.choose('method', [None, 'interpolate'])
        w = self.assembled(name+str(method), lambda a, q: inner(Injection(a, self.fine, method), q)*dX, self.f, self.Q['fine'])
        self.against(w, self.Q['fine'], self.anywhere(self.f), 'injection_of_present_state_%s' % method)

    def constant_functional(self, w, Q, value, oracle):
        one = df.assemble(TestFunction(Q)*df.dx(domain=Q.mesh())).get_local()
        self.rec.close(w, value*one, oracle, rtol=1E-7, atol=1E-9)

    def p_mean(self, name):
        k = self.choose('weight', list(range(6)))
        weight = [None, self.c, self.w, self.c*self.w + self.c, self.w*self.w2 + self.cv[1]*self.cv[2], self.cv[self.dim - 1]][k]
        dX = Measure('dx', domain=self.mesh)
        cell_measure = Measure('dx', domain=self.mesh, subdomain_data=self.patch_f)(1) if self.choose('measure', [True, False]) else None
        w = self.assembled('mean%d%s' % (k, cell_measure is None), lambda a, q: inner(Mean(a, weight, cell_measure), q)*dX, self.f, self.Q['mesh'])
        c, tot = float(self.c.values()[0]), 0.
        for cell, x, wq in gen.quad(self.mesh, 3):
            if cell_measure is not None and self.patch_f[cell] != 1:
                continue
            wx = gen.evaluate(self.w, x, cell)[:, 0]
            w2x = gen.evaluate(self.w2, x, cell)[:, 0]
            cv = self.cv.values()
            tot += np.sum(wq*gen.evaluate(self.f, x, cell)[:, 0]*[1., c, wx, c*wx+c, wx*w2x + cv[1]*cv[2], cv[self.dim-1]][k])
        self.constant_functional(w, self.Q['mesh'], tot, 'mean_of_present_state')

    def p_surface(self, name):
        dX = Measure('dx', domain=self.em)
        w = self.assembled(name, lambda a, q: inner(SurfaceMean(a, self.em), q)*dX, self.f, self.Q['em'])
        tot = sum(np.sum(wq*[gen.eval_anywhere(self.f, y, 1E-8)[0] for y in x]) for c, x, wq in gen.quad(self.em, 2))
        self.constant_functional(w, self.Q['em'], tot/gen.cell_volumes(self.em).sum(), 'surface_mean_of_present_state')

    def p_point(self, name):
        c = self.choose('cell', [0, 1])
        p = int(self.mesh.cells()[c][self.choose('local', list(range(self.dim+1)))])
        f, Q = self.f, df.FunctionSpace(self.mesh, 'R', 0)
        dX = Measure('dx', domain=self.mesh)
        w = self.assembled('point%d-%d' % (c, p), lambda a, q: inner(PointTrace(a, p, c), q)*dX, f, Q)
        self.constant_functional(w, Q, gen.evaluate(f, [self.mesh.coordinates()[p]], c)[0, 0], 'point_value_of_present_state')

    def p_gradient(self, name):
        if not hasattr(self, 'g'):
            self.g = gen.randfun(self.rng, df.FunctionSpace(self.line, 'DG', 1))
        else:
            self.g.vector().set_local(self.rng.uniform(-1, 1, self.g.vector().size()))
        c = self.choose('cell', list(range(4)))
        end = self.choose('end', [0, 1])
        tau = self.choose('tau', [self.tau, self.tf])
        dX = Measure('dx', domain=self.line)
        Q = df.FunctionSpace(self.line, 'R', 0)
        w = self.assembled('grad%d%d%s' % (c, end, tau is self.tf), lambda a, q: inner(GradientPointTrace(a, c + end, c, tau), q)*dX, self.g, Q)
        X = self.line.coordinates()
        e = X[c+1]-X[c]
        t = self.tau.values() if tau is self.tau else gen.evaluate(self.tf, [0.5*(X[c] + X[c+1])], c)[0]
        va, vb = gen.evaluate(self.g, [X[c], X[c+1]], c)[:, 0]
        self.constant_functional(w, Q, (vb-va)*(e @ t)/(e @ e), 'gradient_of_present_state')

    def p_end(self, name):
        """values from one side"""
        if not hasattr(self, 'g2'):
            self.g2 = gen.randfun(self.rng, df.FunctionSpace(self.line, 'DG', 2))
        c, end = self.choose('cell', list(range(4))), self.choose('end', [0, 1])
        dX = Measure('dx', domain=self.line)
        Q = df.FunctionSpace(self.line, 'R', 0)
        w = self.assembled('end%d%d' % (c, end), lambda a, q: inner(PointTrace(a, c + end, c), q)*dX, self.g2, Q)
        self.constant_functional(w, Q, gen.evaluate(self.g2, [self.line.coordinates()[c + end]], c)[0, 0], 'point_value_of_present_state')

    def p_patch(self, name):
        dX = Measure('dx', domain=self.line)
        Q = self.vertex_f.function_space()
        w = self.assembled(name, lambda a, q: inner(CellPatchAverage(a, self.vertex_f, self.patch_f), q)*dX, self.d, Q)
        L = gen.cell_volumes(self.line)
        vols = gen.cell_volumes(self.mesh)
        for c in range(4):
            dof = Q.dofmap().cell_dofs(c)[0]
            cells = np.where(self.patch_f.array() == self.vertex_f.vector()[dof])[0]
            e = sum(np.sum(wq*gen.evaluate(self.d, x, k)[:, 0]) for k, x, wq in gen.quad(self.mesh, 2, cells))
            self.rec.close(w[dof], L[c]*e/vols[cells].sum(), 'patch_average_of_present_state', rtol=1E-7, atol=1E-9)

    def p_interp(self, name):
        N = df.FunctionSpace(self.mesh, 'RT', 1)
        W = df.VectorFunctionSpace(self.mesh, 'CG', 1)
        P = gen.Poly(self.rng, self.dim, 1, (self.dim,))
        A = gen.dense(interpolation_mat(W, N))
        self.rec.close(A @ gen.interp(W, P).vector().get_local(), gen.interp(N, P).vector().get_local(), 'interpolation_of_present_state')

    def p_average(self, name):
        k = self.choose('shape', list(range(len(self.shapes))))
        shape = self.shapes[k]
        dX = Measure('dx', domain=self.wire)
        Q = self.choose('Qwire', [None]) or df.FunctionSpace(self.wire, 'DG', 1)
        w = self.assembled('%s%d' % (name, k), lambda a, q: inner(Average(a, self.wire, shape), q)*dX, self.f, Q)
        M = df.assemble(inner(TrialFunction(Q), TestFunction(Q))*dX).array()
        got = np.linalg.solve(M, w)
        X = self.wire.coordinates()
        xs = Q.tabulate_dof_coordinates()
        for c in range(3):
            v0, v1 = X[self.wire.cells()[c]]
            for dof in Q.dofmap().cell_dofs(c):
                rule = shape.quadrature(xs[dof], v0-v1)
                values = [gen.eval_anywhere(self.f, x) for x in rule.points]
                if any(v is None for v in values):
                    continue
                self.rec.event('averages_compared')
                self.rec.close(got[dof], np.dot(rule.weights, np.ravel(values))/sum(rule.weights), 'average_of_present_state',
                               'shape %d cell %d' % (k, c), rtol=1E-7, atol=1E-8)

    def p_flux(self, name):
        k = self.choose('shape', [0, 1])
        shape = self.shapes[k]
        dX = Measure('dx', domain=self.wire)
        Q = self.choose('Qwire', [None]) or df.FunctionSpace(self.wire, 'DG', 1)
        if self.flux is None or self.flux.function_space().mesh().id() != self.f.function_space().mesh().id():
            self.flux = gen.randfun(self.rng, df.VectorFunctionSpace(self.f.function_space().mesh(), 'DG', 1))
        f = self.flux
        u, q = TrialFunction(f.function_space()), TestFunction(Q)
        w = gen.dense(ii_convert(ii_assemble(inner(FluxAverage(u, self.wire, shape), q)*dX))) @ f.vector().get_local()
        got = np.linalg.solve(df.assemble(inner(TrialFunction(Q), TestFunction(Q))*dX).array(), w)
        X, xs = self.wire.coordinates(), Q.tabulate_dof_coordinates()
        for c in range(3):
            v0, v1 = X[self.wire.cells()[c]]
            for dof in Q.dofmap().cell_dofs(c):
                rule = shape.quadrature(xs[dof], v0-v1)
                values = [gen.eval_anywhere(f, x) for x in rule.points]
                if any(v is None for v in values):
                    continue
                normals = [(x - xs[dof])/np.linalg.norm(x - xs[dof]) for x in rule.points]
                self.rec.event('fluxes_compared')
                self.rec.close(got[dof], sum(q*np.dot(v, n) for q, v, n in zip(rule.weights, values, normals))/sum(rule.weights),
                               'flux_average_of_present_state', 'shape %d cell %d' % (k, c), rtol=1E-7, atol=1E-8)

    def p_edge(self, name):
        dX = Measure('dx', domain=self.curve)
        Q = df.FunctionSpace(self.curve, 'DG', 1)
        w = self.assembled(name, lambda a, q: inner(Average(a, self.curve, None), q)*dX, self.f, Q)
        self.against(w, Q, self.anywhere(self.f), 'edge_trace_of_present_state')


    # ---------------------------------------------------- one thing at a time
    def altered(self, a, how):
        """array like a with other values"""
        rng, a = self.rng, np.array(a)
        flat = a.reshape(-1)
        n = len(flat)
        other = np.where(flat != flat[0])[0]
        if how == 'swap' and len(other):
            i = int(rng.choice(other))
            j = int(rng.choice(np.where(flat != flat[i])[0]))
            flat[[i, j]] = flat[[j, i]]
        elif how == 'permute':
            flat[:] = rng.permutation(flat)
        elif how == 'negate':
            flat *= -1
        elif how == 'opposite' and n > 1:
            i, j = rng.choice(n, 2, replace=False)
            flat[i], flat[j] = flat[i] + 0.25, flat[j] - 0.25
        elif how == 'last':
            flat[-1] += 0.5
        elif how == 'first':
            flat[0] -= 0.5
        else:
            i = rng.integers(n)
            flat[i] = -0.7*flat[i] + 0.1
        return a

    def moves(self, how, mesh):
        """x -> y, the same for all meshes"""
        rng, X = self.rng, mesh.coordinates().copy()
        mid, size = X.mean(axis=0), np.ptp(X, axis=0)
        if how == 'mirror':
            d = np.ones(self.dim)
            d[rng.integers(self.dim)] = -1
            return lambda x: mid + d*(x - mid)
        if how == 'axes':
            return lambda x: np.ascontiguousarray(x[:, ::-1])
        if how == 'bump':                      # the extent stays
            lo = X.min(axis=0)
            v = 0.02*size*rng.choice([-1, 1], self.dim)
            return lambda x: x + v*np.prod(np.sin(np.pi*np.clip((x-lo)/size, 0, 1)), axis=1)[:, None]
        # two vertices in opposite directions, a bit; the sum of coordinates stays
        h = 0.05*min(np.linalg.norm(X[c[0]] - X[c[1]]) for c in mesh.cells())
        for _ in range(200):
            i, j = rng.choice(len(X), 2, replace=False)
            d = np.zeros(self.dim)
            d[rng.integers(self.dim)] = h*rng.uniform(0.5, 1)
            Y = X.copy()
            Y[i] += d
            Y[j] -= d
            if Y.sum() == X.sum():
                break
        at = lambda x, p: (np.linalg.norm(x - p, axis=1) < 1E-9)[:, None]
        return lambda x: x + at(x, X[i])*d - at(x, X[j])*d

    def move(self, meshes, f):
        for x in meshes:
            x.coordinates()[:] = f(x.coordinates())
            x.bounding_box_tree().build(x)

    def pairs(self):
        """(probe, choices, what changes, how it is changed, how it is put back)"""
        out = []

        def array(probe, fix, name, get, set, hows):
            for how in hows:
                out.append((probe, fix, name + ':' + how, get, lambda old, set=set, how=how: set(self.altered(old, how)), set))

        def function(probe, fix, name, f, hows=('swap', 'permute', 'negate', 'opposite', 'last', 'first', 'one')):
            array(probe, fix, name, lambda: f().vector().get_local(), lambda a: f().vector().set_local(a), hows)

        def constant(probe, fix, name, c):
            array(probe, fix, name, lambda: c.values().copy(), lambda a: c.assign(Constant(a if len(a) > 1 else float(a[0]))),
                  ('one', 'last', 'first', 'negate', 'swap', 'opposite'))

        def meshfun(probe, fix, name, f):
            def put(a):
                f().array()[:] = a
            array(probe, fix, name, lambda: f().array().copy(), put, ('swap', 'permute'))

        def move(probe, fix):
            meshes = fix['meshes'] if 'meshes' in fix else self.meshes + ([self.wire] if self.dim == 3 else [])
            normals = self.n.vector()

            def get():
                return [m.coordinates().copy() for m in meshes] + [normals.get_local()]

            def put(old):
                for m, x in zip(meshes, old):
                    m.coordinates()[:] = x
                    m.bounding_box_tree().build(m)
                normals.set_local(old[-1])
            for how in ('mirror', 'axes', 'bump', 'opposite'):
                def change(old, how=how):
                    self.move(meshes, self.moves(how, meshes[0]))
                    self.m_normal()
                out.append((probe, fix, 'move:' + how, get, change, put))

        tags = [None, 1, 2, 3, (1, 2), (1, 3), (2, 3), (1, 2, 3)]
        sides = ['+', '-', 'avg', 'jump']

        def option(probe, fix, name, options):
            for a in options:
                b = options[self.rng.integers(len(options))]
                if a != b:
                    out.append((probe, dict(fix, **{name: a}), name, lambda: None, lambda _, b=b: self.fix.update({name: b}), lambda _, a=a: self.fix.update({name: a})))
        option('trace', {}, 'tag', tags)
        meshfun('trace', {'tag': tags[1 + self.rng.integers(6)]}, 'marking', lambda: self.em.marking_function)
        function('trace', {'tag': None}, 'values', lambda: self.f, ('one', 'negate'))
        move('trace', {'tag': tags[self.rng.integers(8)]})
        option('sided', {}, 'side', sides)
        n = self.n
        for side in sides:
            function('sided', {'side': side}, 'normal', lambda: n, ('negate', ))
            # the other way in one cell
            def flip(old, dofs=n.function_space().dofmap()):
                a = old.copy()
                a[dofs.cell_dofs(int(self.rng.integers(self.em.num_cells())))] *= -1
                n.vector().set_local(a)
            out.append(('sided', {'side': side}, 'normal:cell', lambda: n.vector().get_local(), flip, lambda a: n.vector().set_local(a)))
        move('sided', {'side': sides[self.rng.integers(4)]})
        move('restrict', {})
        for m in (None, 'interpolate'):
            move('inject', {'method': m})
        option('inject', {}, 'method', [None, 'interpolate'])
        for k in range(6):
            fix = {'weight': k, 'measure': bool(self.rng.integers(2))}
            if k in (1, 3):
                constant('mean', fix, 'c', self.c)
            if k in (2, 3, 4):
                function('mean', fix, 'w', lambda: self.w)
            if k == 4:
                function('mean', fix, 'w2', lambda: self.w2)
            if k in (4, 5):
                constant('mean', fix, 'cv', self.cv)
            meshfun('mean', {'weight': k, 'measure': True}, 'patches', lambda: self.patch_f)
        option('mean', {'measure': bool(self.rng.integers(2))}, 'weight', list(range(6)))
        option('mean', {'weight': int(self.rng.integers(6))}, 'measure', [True, False])
        move('mean', {'weight': 0, 'measure': False})
        move('surface', {})
        move('point', {'cell': 0, 'local': 0})
        option('point', {'local': 0}, 'cell', [0, 1])
        option('point', {'cell': 0}, 'local', list(range(self.dim+1)))
        for c in (0, 3):
            constant('gradient', {'cell': c, 'tau': self.tau}, 'tau', self.tau)
            function('gradient', {'cell': c, 'tau': self.tf}, 'tangent', lambda: self.tf)
        option('gradient', {'tau': self.tf, 'end': 0}, 'cell', [0, 1, 2, 3])
        option('gradient', {'tau': self.tau, 'cell': 1}, 'end', [0, 1])
        option('end', {'end': 0}, 'cell', [0, 1, 2, 3])
        option('end', {'cell': 2}, 'end', [0, 1])
        # both sides of a vertex
        for v in (1, 2, 3):
            out.append(('end', {'cell': v, 'end': 0}, 'side', lambda: None, lambda _, v=v: self.fix.update(cell=v-1, end=1), lambda _, v=v: self.fix.update(cell=v, end=0)))
        for probe, fix in (('gradient', {'cell': 1, 'end': 0, 'tau': self.tau}), ('end', {'cell': 1, 'end': 0}), ('patch', {})):
            move(probe, dict(fix, meshes=[self.line]))
        move('patch', {})
        meshfun('patch', {}, 'patches', lambda: self.patch_f)
        vf = self.vertex_f
        array('patch', {}, 'vertex_f', lambda: vf.vector().get_local(), lambda a: vf.vector().set_local(a), ('swap', 'permute'))
        move('interp', {})
        if self.dim == 3:
            option('average', {}, 'shape', list(range(len(self.shapes))))
            Q = df.FunctionSpace(self.wire, 'DG', 1)
            size = self.size
            for probe, k in (('average', 0), ('average', 4), ('flux', 0)):
                out.append((probe, {'shape': k, 'Qwire': Q}, 'size', lambda: size[0], lambda old: size.__setitem__(0, old*0.7), lambda old: size.__setitem__(0, old)))
            Q = df.FunctionSpace(self.wire, 'DG', 1)
            move('average', {'shape': 1, 'Qwire': Q, 'meshes': [self.wire]})
            for k in (0, 3):
                move('average', {'shape': k})
                move('average', {'shape': k, 'Qwire': Q})
            move('edge', {})
        return out


def pairs(rec, dim, part):
    w = World(rec, dim)
    todo = w.pairs()[part::6]
    todo = [todo[i] for i in rec.rng.permutation(len(todo))]
    for probe, fix, name, get, change, put in todo:
        w.fix = dict(fix)
        rec.ctx = '%dd %s, %s' % (dim, probe, name)
        run_probe = lambda: getattr(w, 'p_' + probe)(probe)
        rec.event('probe:' + probe)
        run_probe()
        old = get()
        change(old)
        rec.ctx = '%dd %s after %s' % (dim, probe, name)
        run_probe()
        rec.event('pairs')
        put(old)
        if rec.rng.integers(3) or name.startswith(('move', 'patches', 'marking')):
            rec.ctx = '%dd %s after %s and back' % (dim, probe, name)
            run_probe()
            rec.event('there_and_back')
        rec.seen(dim, 'pair', probe, name)
    rec.sample('%dd: %d pairs of a reduction and what it depends on, e.g. %s' % (dim, len(todo), ', '.join('%s/%s' % (t[0], t[2]) for t in todo[:8])))


def run(rec, case):
    dim, nsteps = case
    if str(nsteps).startswith('pairs'):
        return pairs(rec, dim, int(nsteps[5:]))
    w = World(rec, dim)
    last, log = 'start', []
    for i in range(nsteps):
        rec.event('steps')
        k = rec.rng.integers(10)
        if k < 4:
            last = w.mutate()
            rec.event('mutations')
            log.append('!'+last)
        elif k == 4 and i > 4:
            # everything goes, addresses are reused
            w = None
            gc.collect()
            w = World(rec, dim)
            last = 'rebuilt'
            rec.event('rebuilt')
            log.append('!rebuilt')
        rec.ctx = '%dd step %d after %s' % (dim, i, last)
        name = w.probe()
        rec.event('probes')
        log.append(name)
        rec.seen(dim, last, name)

    rec.sample('%dd: %s' % (dim, ' '.join(log)))
