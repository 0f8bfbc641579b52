"""Derivatives of forms with reduced functions."""
import numpy as np
import dolfin as df
from dolfin import inner, dot, grad, dx, Constant, Expression, TestFunction, SpatialCoordinate, sin, exp, sqrt, conditional, gt
import gen, ops
from xii import ii_assemble, ii_convert
from xii.nonlin.jacobian import ii_derivative, block_jacobian

RULE = ('one case = a mesh, a reduction operator (trace, sided, restriction, injection, means, points, patches, averages), a state f in its domain and p in its '
        'range; residuals are random sums of integrals with smooth nonlinear functions of the reduced f, of f, of p, of several reductions of f in one integrand, '
        'of other coefficients and expressions, against native and reduced test functions. ii_derivative and block_jacobian are compared with fourth order '
        'finite differences of the assembled residual in random directions; the state must be left alone. key = (operator, templates). '
        'Non-trivial: derivative is not zero.')
REQUIRED = {'derivatives': 150, 'nonzero': 100, 'zero': 10, 'jacobian': 20, 'two_reductions': 15, 'reduced_test': 30, 'expressions': 20}


def cases(tier, seed):
    rng = np.random.default_rng([seed, 116])
    out = ([2]*24 + [3]*12)*(1 if tier == 'quick' else 10)
    return [out[i] for i in rng.permutation(len(out))]


def vec(L, n):
    """residual vector"""
    if not L.empty() if hasattr(L, 'empty') else L.integrals():
        return ii_assemble(L).get_local()
    return np.zeros(n)


def directional(L, f, d, n):
    """dL/df[d] by extrapolated central differences"""
    x = f.vector().get_local()

    def at(t):
        f.vector().set_local(x + t*d)
        return vec(L, n)
    h = 1E-3
    D = [(at(s) - at(-s))/(2*s) for s in (h, 2*h)]
    f.vector().set_local(x)
    return (4*D[0] - D[1])/3


def run(rec, case):
    rng, dim = rec.rng, case
    world = [op for op in ops.world(rng, dim) if op.name != 'Flux']
    for op in [world[i] for i in rng.permutation(len(world))[:3]]:
        one(rec, world, op, dim)
    rec.sample(rec.ctx)


def scalar(a):
    return a if a.ufl_shape == () else a[0] + 2*a[1]


def one(rec, world, op, dim):
    rng = rec.rng
    V, Q = op.V, op.Q
    f, p = gen.randfun(rng, V), gen.randfun(rng, Q)
    other = gen.randfun(rng, V)
    v, q = TestFunction(V), TestFunction(Q)
    rec.ctx = '%dd %s' % (dim, op.name)
    k = Constant(rng.uniform(1, 2))
    E = Expression('1+x[0]*x[0]', degree=2)
    # reductions of f; same mesh and domain space
    partners = [o for o in world if o.V == V and o.dX.ufl_domain() == op.dX.ufl_domain() and o is not op]
    tf = op.op(f)
    used = []

    def weight(i):
        """scalar function of the state on the reduced mesh"""
        x = SpatialCoordinate(Q.mesh())
        t, s = scalar(tf), scalar(p)
        if i == 0:
            return t
        if i == 1:
            return (1 + t**2)*s
        if i == 2:
            return sin(t)*s**2
        if i == 3:
            return exp(t)*k - x[0]*t*s
        if i == 4:
            rec.event('expressions')
            return E*t**2 + s
        if i == 5 and partners:
            rec.event('two_reductions')
            o = partners[rng.integers(len(partners))]
            used.append(o.name)
            return t*scalar(o.op(f)) + t**2
        if i == 6:
            return sqrt(1 + t**2)*scalar(op.op(other))
        if i == 7:
            return s**3
        return conditional(gt(x[0], .3), t*t, s)*k

    def residual(test, reduced):
        L, names = None, []
        a = op.op(test) if reduced else test
        if reduced:
            rec.event('reduced_test')
        for _ in range(int(rng.integers(1, 4))):
            i = int(rng.integers(9))
            c = [1., -1., 2.5][rng.integers(3)]
            T = Constant(c)*weight(i)*scalar(a)*op.dX
            names.append(str(i))
            L = T if L is None else L + T
        # native terms
        W = test.function_space()
        g = f if W == V else p
        if rng.random() < .6:
            dX = dx(domain=W.mesh(), metadata={'quadrature_degree': 5})
            family = W.ufl_element().family()
            T = inner((1+scalar(g)**2)*(g if family == 'Real' else grad(g)), test if family == 'Real' else grad(test))*dX - Constant(2)*inner(g, test)*dX
            names.append('n')
            L = L + T
        return L, names

    Lv, nv = residual(v, True)
    Lq, nq = residual(q, False)
    state = lambda: tuple(hash(g.vector().get_local().tobytes()) for g in (f, p, other)) + tuple(sorted(k for g in (f, p, other) for k in vars(g) if k.endswith('_') and k[0] != '_'))
    before = state()

    def compare(J, L, n, g, oracle):
        U = g.function_space()
        d = rng.uniform(-1, 1, U.dim())
        ref = directional(L, g, d, n)
        if isinstance(J, (int, float)):
            A = np.zeros((n, U.dim()))
            rec.event('zero')
        else:
            ok, A = rec.guard(oracle, lambda: gen.dense(ii_convert(ii_assemble(J))))
            if not ok:
                return
        rec.event('derivatives')
        rec.event('nonzero', np.abs(ref).max() > 1E-8)
        rec.close(A @ d, ref, oracle, '%s %s %s' % (nv, nq, used), rtol=1E-6, atol=1E-8)
        # at another state the same form is the derivative there
        x = g.vector().get_local()
        g.vector().set_local(rng.uniform(-1, 1, len(x)))
        ref = directional(L, g, d, n)
        if not isinstance(J, (int, float)):
            A = gen.dense(ii_convert(ii_assemble(J)))
        rec.close(A @ d, ref, oracle+'_moved', '%s %s %s' % (nv, nq, used), rtol=1E-6, atol=1E-8)
        g.vector().set_local(x)

    for L, n in ((Lv, V.dim()), (Lq, Q.dim())):
        for g in (f, p):
            b = vec(L, n)
            ok, J = rec.guard('derivative', ii_derivative, L, g)
            if ok:
                compare(J, L, n, g, 'derivative')
                rec.close(vec(L, n), b, 'residual_unchanged')
    rec.check(state() == before, 'state_left_alone')
    if Lv.integrals() and Lq.integrals():
        rec.event('jacobian')
        ok, J = rec.guard('jacobian', block_jacobian, [Lv, Lq], [f, p])
        if ok:
            rec.check(np.shape(np.array([[0]*len(r) for r in J])) == (2, 2), 'jacobian', 'shape')
            for i, (L, n) in enumerate(((Lv, V.dim()), (Lq, Q.dim()))):
                for j, g in enumerate((f, p)):
                    compare(J[i][j], L, n, g, 'jacobian')
    rec.seen(dim, op.name, sorted(nv), sorted(nq), sorted(used))
