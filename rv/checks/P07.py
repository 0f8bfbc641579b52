"""Assembly is the algebra of its integrals: random multi-domain forms against plain forms of the reduced functions."""
import numpy as np
import dolfin as df
from dolfin import (inner, dot, grad, div, TrialFunction, TestFunction, Measure, Constant, SpatialCoordinate, conditional, gt,
                    exp, sin, sqrt, as_vector, sym, avg, dS, FacetNormal)
from ufl_legacy import max_value
from ufl_legacy.form import Form
from block import block_mat, block_vec, block_transpose
import gen, spaces
from xii import (EmbeddedMesh, Trace, Restriction, Injection, Average, ii_assemble, ii_convert)
from xii.assembler.mean_form import Mean
from xii.assembler.point_trace_form import PointTrace
from xii.meshing.refinement import centroid_refine

RULE = ('world = box mesh with a facet manifold, a cell submesh, a refined mesh (and in 3d a curve of edges); form = random signed sum '
        'of 2-5 integrals over these domains, each a random template (products, gradients, indexing, nonlinear functions of reduced '
        'coefficients, coordinates, constants, tagged subdomains, facet integrals) with its arguments and coefficients native or reduced by '
        'Trace/Restriction/Injection/Average/Mean/PointTrace. The value on random coefficient vectors is compared with dolfin assembling the '
        'same form with every reduced function replaced by an independently constructed function on the domain. key = domains/templates/arity.')
REQUIRED = {'integrals': 150, 'reduced_slots': 150, 'bilinear': 30, 'linear': 30, 'functional': 30, 'blocks': 15, 'mixed_domains': 8}
NAMES = ('CG1', 'CG2', 'vCG1')


def cases(tier, seed):
    rng = np.random.default_rng([seed, 107])
    n = 1 if tier == 'quick' else 12
    out = []
    for r in range(n):
        for dim, k in ((2, 36), (3, 10)):
            for i in range(k):
                out.append(('form', dim, str(rng.choice(NAMES)), str(rng.choice(NAMES))))
        out += [('block', int(d), '', '') for d in (2, 2, 2, 3)]
    return [out[i] for i in rng.permutation(len(out))]


class World:
    def __init__(self, rng, dim):
        self.rng, self.dim = rng, dim
        box = gen.Box(rng, dim, n=3 if dim == 2 else 1 if rng.integers(2) else (1, 2, 1))
        m = box.mesh
        self.mesh = m
        nf = len(gen.entity_vertices(m, dim-1))
        ft = np.zeros(nf, dtype=int)
        ft[rng.permutation(nf)[:nf//2]] = rng.integers(1, 4, nf//2)
        self.em = EmbeddedMesh(gen.mesh_function(m, dim-1, values=ft), sorted(set(ft[ft > 0].tolist())))
        ct = rng.integers(0, 3, m.num_cells())
        ct[0] = 1
        self.sub = EmbeddedMesh(gen.mesh_function(m, dim, values=ct), 1)
        self.fine = df.refine(m) if rng.integers(2) else centroid_refine(m)
        self.domains = {'mesh': m, 'em': self.em, 'sub': self.sub, 'fine': self.fine}
        if dim == 3:
            ev = gen.entity_vertices(m, 1)
            self.domains['curve'] = EmbeddedMesh(gen.mesh_function(m, 1, {2: rng.permutation(len(ev))[:5]}), 2)
        self.tags = {}
        for n, d in self.domains.items():
            self.tags[n] = df.MeshFunction('size_t', d, d.topology().dim(), 0)
            self.tags[n].array()[:] = rng.integers(0, 2, d.num_cells())

    def measure(self, name):
        m = Measure('dx', domain=self.domains[name], subdomain_data=self.tags[name], metadata={'quadrature_degree': 4})
        return m(1) if self.rng.integers(3) == 0 else m

    RED = {'em': Trace, 'sub': Restriction, 'fine': lambda w, m: Injection(w, m), 'curve': lambda w, m: Average(w, m, None)}

    def reducer(self, V, home, name):
        """(ufl reduction, reference construction of the reduced function) or None; both take a function/argument of V"""
        D = self.domains[name]
        if home == name:
            return 'native', (lambda w: w), (lambda f: f)
        if home != 'mesh':
            return None
        red = self.RED[name]

        def ref(f):
            W = df.FunctionSpace(D, V.ufl_element().reconstruct(cell=D.ufl_cell()))
            return gen.interp(W, lambda x: gen.eval_anywhere(f, x, 1E-9))
        return 'reduced', (lambda w: red(w, D)), ref


# templates: name -> (needs, builder) where builder gets resolved arguments (any arity) and coefficients
def scalar(w, rng, i):
    """a scalar from a scalar/vector quantity"""
    if w.ufl_shape == ():
        return w
    return w[i % w.ufl_shape[0]]


def pair(a, b, how, x):
    """bilinear combination of a and b; how selects the template"""
    sa, sb = a.ufl_shape, b.ufl_shape
    i, j = how // 7 % 3, how // 5 % 3
    k = how % 6
    if k == 0:
        return inner(a, b) if sa == sb else scalar(a, None, i)*scalar(b, None, j)
    if k == 1:
        return inner(grad(a), grad(b)) if sa == sb else dot(grad(scalar(a, None, i)), grad(scalar(b, None, j)))
    if k == 2:
        return grad(scalar(a, None, i))[0]*scalar(b, None, j)
    if k == 3:
        return dot(as_vector((scalar(a, None, i), 2*scalar(a, None, j))), as_vector((scalar(b, None, j), -scalar(b, None, i))))
    if k == 4:
        return (x[0]+2*x[1])*scalar(a, None, i)*scalar(b, None, j).dx(1)
    return scalar(a, None, i)*scalar(b, None, j)/(2+x[0]**2) - Constant(0.3)*scalar(a, None, j)*scalar(b, None, i)


def weight(c, k, how, x):
    """scalar weight from a reduced coefficient c and a native one k"""
    c, g = scalar(c, None, how // 8), grad(scalar(c, None, how // 16))
    return [lambda: c, lambda: sin(c)*k, lambda: exp(c), lambda: conditional(gt(c, 0.1), k, 1.), lambda: sqrt(1+c**2),
            lambda: max_value(c, k), lambda: dot(g, g)+k, lambda: Constant(1.5), lambda: abs(c)-x[0], lambda: 1/(3+c*k), lambda: c**3 - 2*c][how % 11]()


def run(rec, case):
    kind, dim, n0, n1 = case
    rng = rec.rng
    w = World(rng, dim)
    rec.ctx = '%s %dd %s %s' % case
    if kind == 'block':
        return blocks(rec, w)
    names = list(w.domains)
    homes = [str(rng.choice(['mesh', 'mesh', 'em', 'sub', 'fine'])), 'mesh']
    rng.shuffle(homes)
    Vs = [spaces.space(w.domains[homes[0]], n0), spaces.space(w.domains[homes[1]], n1)]
    lin, domains = random_form(rec, w, Vs, homes)
    for arity in (2, 1, 0):
        compare(rec, w, lin, Vs, arity)
    rec.event('mixed_domains', len(set(domains)) > 1)
    rec.seen(dim, n0, n1, homes, sorted(domains))
    rec.sample('%dd, test in %s on %s, trial in %s on %s, integrals over %s' % (dim, n0, homes[0], n1, homes[1], domains))


def random_form(rec, w, Vs, homes, n=None):
    """F(v, u, mode): sum of integrals; mode 'xii' applies the reductions, 'ref' uses reference functions"""
    rng = w.rng
    usable = [d for d in w.domains if all(w.reducer(V, h, d) for V, h in zip(Vs, homes))]
    terms = []
    C = spaces.space(w.mesh, str(rng.choice(('CG1', 'CG2', 'vCG1'))))
    c = gen.randfun(rng, C)
    for i in range(n or int(rng.integers(2, 6))):
        d = str(rng.choice(usable))
        k = gen.randfun(rng, df.FunctionSpace(w.domains[d], 'DG', 0) if rng.integers(2) else df.FunctionSpace(w.domains[d], 'CG', 1))
        terms.append(dict(d=d, k=k, c=c, how=int(rng.integers(1000)), wh=int(rng.integers(1000)), dx=w.measure(d),
                          fac=[1., -1., 2.5, -0.3][rng.integers(4)], ffac=int(rng.integers(3)),
                          twist=int(rng.integers(6)), pt=int(rng.integers(w.mesh.num_cells()))))
        rec.event('integrals')

    def F(vv, uu, ref):
        """vv, uu: test/trial or Functions; ref: build the plain form"""
        total = None
        for t in terms:
            args = []
            x = SpatialCoordinate(w.domains[t['d']])
            for V, h, a in zip(Vs, homes, (vv, uu)):
                k, red, rf = w.reducer(V, h, t['d'])
                if k == 'reduced':
                    rec.event('reduced_slots')
                args.append(rf(a) if ref else red(a))
            k, red, rf = w.reducer(t['c'].function_space(), 'mesh', t['d'])
            cc = rf(t['c']) if ref else red(t['c'])
            if k == 'reduced':
                rec.event('reduced_slots')
            v, u = args
            # a global reduction of one of the arguments
            if t['twist'] < 2 and t['d'] == 'mesh':
                V = Vs[0] if t['twist'] == 0 else Vs[1]
                a = (vv, uu)[t['twist']]
                if V.ufl_element().value_shape() == () and t['twist'] == 0:
                    a = Constant(df.assemble(a*df.dx(domain=w.mesh))) if ref else Mean(a)
                else:
                    vert = int(w.mesh.cells()[t['pt']][0])
                    if ref:
                        val = gen.evaluate(a, [w.mesh.coordinates()[vert]], t['pt'])[0]
                        a = Constant(val if len(val) > 1 else val[0])
                    else:
                        a = PointTrace(a, vert, t['pt'])
                rec.event('reduced_slots')
                # no derivatives of constants: plain product
                if t['twist'] == 0:
                    v = a
                else:
                    u = a
                core = scalar(v, None, 0)*scalar(u, None, 1)
            else:
                core = pair(u, v, t['how'], x)
            core = weight(cc, t['k'], t['wh'], x)*core
            if t['ffac'] == 0:
                term = Constant(t['fac'])*core*t['dx']
            elif t['ffac'] == 1:
                term = t['fac']*(core*t['dx'])
            else:
                term = -((-t['fac'])*core)*t['dx']
            total = term if total is None else (total + term if t['how'] % 2 else total - term)
        return total
    F.terms = [t['d'] for t in terms]
    return F, F.terms


def plain(form):
    """value of a form without arguments and reductions, integral by integral"""
    return sum(df.assemble(Form([i])) for i in form.integrals())


def compare(rec, w, F, Vs, arity):
    rng = w.rng
    rec.event({2: 'bilinear', 1: 'linear', 0: 'functional'}[arity])
    V, U = Vs
    v, u = TestFunction(V), TrialFunction(U)
    gv, gu = gen.randfun(rng, V), gen.randfun(rng, U)
    xv, xu = gv.vector().get_local(), gu.vector().get_local()
    ref = plain(F(gv, gu, True))
    tol = dict(rtol=1E-7, atol=1E-9)
    if arity == 2:
        A = ii_assemble(F(v, u, False))
        lazy = (A*gu.vector()).get_local()
        rec.close(xv @ lazy, ref, 'bilinear_form_value', str(F.terms), **tol)
        M = gen.dense(ii_convert(A))
        rec.close(M @ xu, lazy, 'converted_is_lazy', rtol=1E-9)
        lazyT = (block_transpose(A)*gv.vector()).get_local()
        rec.close(M.T @ xv, lazyT, 'transposed_application', rtol=1E-9)
        # the transposed form (roles of the arguments exchanged)
        vt, ut = TestFunction(U), TrialFunction(V)
        At = gen.dense(ii_convert(ii_assemble(F(ut, vt, False))))
        rec.close(At, M.T, 'exchanged_arguments', rtol=1E-9)
    elif arity == 1:
        b = ii_assemble(F(v, gu, False))
        rec.close(xv @ b.get_local(), ref, 'linear_form_value', str(F.terms), **tol)
        c = ii_assemble(F(gv, TestFunction(U), False))
        rec.close(xu @ c.get_local(), ref, 'linear_form_value', str(F.terms), **tol)
    else:
        rec.close(ii_assemble(F(gv, gu, False)), ref, 'functional_value', str(F.terms), **tol)
    rec.check(np.array_equal(gv.vector().get_local(), xv) and np.array_equal(gu.vector().get_local(), xu), 'functions_untouched')


def blocks(rec, w):
    """nested lists of forms and numbers"""
    rng = w.rng
    homes = ['mesh', str(rng.choice(['em', 'sub', 'fine'])), 'mesh']
    Vs = [spaces.space(w.domains[h], str(rng.choice(NAMES))) for h in homes]
    n = len(Vs)
    pattern = rng.random((n, n)) < 0.7
    forms, a = {}, [[0]*n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            if (pattern[i, j] or i == j) and (homes[i] == 'mesh' or homes[j] == 'mesh' or homes[i] == homes[j]):
                F, _ = random_form(rec, w, [Vs[i], Vs[j]], [homes[i], homes[j]], n=2)
                forms[i, j] = F
                a[i][j] = F(TestFunction(Vs[i]), TrialFunction(Vs[j]), False)
    A = ii_assemble(a)
    rec.check(isinstance(A, block_mat) and A.blocks.shape == (n, n), 'block_shape', lambda: str(A.blocks.shape))
    fs = [gen.randfun(rng, V) for V in Vs]
    gs = [gen.randfun(rng, V) for V in Vs]
    y = A*block_vec([f.vector() for f in fs])
    tot = 0.
    for i in range(n):
        for j in range(n):
            if (i, j) in forms:
                ref = plain(forms[i, j](gs[i], fs[j], True))
                one = gs[i].vector().inner(A[i][j]*fs[j].vector())
                rec.close(one, ref, 'block_value', '%d,%d' % (i, j), rtol=1E-7, atol=1E-9)
                alone = gen.dense(ii_convert(ii_assemble(a[i][j])))
                rec.close(gen.dense(ii_convert(A[i][j])), alone, 'block_is_its_form')
                tot += ref
            else:
                rec.check(np.isscalar(A[i][j]) and A[i][j] == 0, 'zero_block_stays', lambda: repr(A[i][j]))
            rec.event('blocks')
    rec.close(sum(gi.vector().inner(yi) for gi, yi in zip(gs, y)), tot, 'block_action', rtol=1E-7, atol=1E-8)
    # right hand sides
    L, refs = [], []
    for i in range(n):
        F, _ = random_form(rec, w, [Vs[i], Vs[0]], [homes[i], homes[0]], n=2)
        L.append(F(TestFunction(Vs[i]), fs[0], False))
        refs.append(plain(F(gs[i], fs[0], True)))
    b = ii_assemble(L)
    rec.check(isinstance(b, block_vec) and len(b) == n, 'block_shape')
    for i in range(n):
        rec.close(b[i].inner(gs[i].vector()), refs[i], 'block_rhs', rtol=1E-7, atol=1E-9)
    rec.seen('block', w.dim, homes, [V.ufl_element().shortstr() for V in Vs])
