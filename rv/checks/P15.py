"""Block forms: placing integrals by their arguments, permutations, sums, adjoints."""
import numpy as np
import dolfin as df
from dolfin import inner, dot, grad, dx, ds, dS, avg, jump, Constant, TrialFunction, TestFunction, SpatialCoordinate, conditional, gt, as_vector
from block import block_mat, block_vec
import gen, ops
from xii import ii_assemble, ii_convert
from xii.assembler.block_form import (block_form, form_adjoint, make_selfadjoint, permute, is_upper_triangular, is_lower_triangular,
                                      is_bilinear_form, is_linear_form)

RULE = ('one case = a mesh with 2-4 spaces coupled by randomly chosen reduction operators (trace, sided, restriction, injection, means, points, patches, '
        'averages, fluxes); sums of integrals added to bilinear and linear block forms in random order and grouping and compared with the integrals '
        'assembled one by one; block sums, permutations (by index and by space), triangularity, completion to a self-adjoint form, adjoints of every '
        'operator and of plain forms with equal and different spaces against the transposed matrix. key = (operators, what). '
        'Non-trivial: at least one nonzero off-diagonal block.')
REQUIRED = {'placed': 100, 'linear': 30, 'sum': 20, 'permuted': 30, 'selfadjoint': 20, 'adjoint': 150, 'same_space_adjoint': 40, 'refused': 20}


def cases(tier, seed):
    rng = np.random.default_rng([seed, 115])
    out = []
    for r in range(1 if tier == 'quick' else 10):
        out += [('block', 2)]*24 + [('block', 3)]*8 + [('adjoint', 2)]*3 + [('adjoint', 3)]*2 + [('plain', 2)]*6 + [('plain', 3)]*2
    return [out[i] for i in rng.permutation(len(out))]


def M(form):
    """dense of an assembled form"""
    return gen.dense(ii_convert(ii_assemble(form)))


def D(A, V, U):
    """dense of an assembled block (numbers too)"""
    if isinstance(A, (int, float)) or A is None:
        A = float(A or 0)
        return A*np.eye(V.dim()) if V.dim() == U.dim() else np.zeros((V.dim(), U.dim()))
    return gen.dense(ii_convert(A))


def run(rec, case):
    kind, dim = case
    rec.ctx = '%s %dd' % case
    {'block': block, 'adjoint': adjoint, 'plain': plain}[kind](rec, dim)


def fields(Q):
    """scalar or vector expression to weight things on Q's mesh"""
    x = SpatialCoordinate(Q.mesh())
    return 1 + x[0]**2


def adjoint(rec, dim):
    """every operator"""
    rng = rec.rng
    for op in ops.world(rng, dim):
        rec.ctx = 'adjoint %dd %s' % (dim, op.name)
        u, v, p, q = TrialFunction(op.V), TestFunction(op.V), TrialFunction(op.Q), TestFunction(op.Q)
        forms = [lambda a, b: inner(op.op(a), b)*op.dX]
        if op.Q.ufl_element().value_shape() == ():
            forms.append(lambda a, b: Constant(2)*inner(op.op(a), b)*op.dX + inner(op.op(a)*SpatialCoordinate(op.Q.mesh())[0], -b)*op.dX)
        for f in forms:
            for a, b in ((u, q), (v, p)):
                form = f(a, b)
                A = M(form)
                rec.event('adjoint')
                ok, adj = rec.guard('adjoint', form_adjoint, form)
                if not ok:
                    continue
                ok, At = rec.guard('adjoint', M, adj)
                if ok:
                    rec.close(At, A.T, 'adjoint')
                    rec.close(M(form), A, 'adjoint', 'the form itself afterwards')
                    rec.close(M(form_adjoint(adj)), A, 'adjoint', 'twice')
        rec.seen('adjoint', dim, op.name)
        # both arguments reduced, from one space
        if op.name in ('Flux', 'Point'):
            continue
        form = inner(op.op(u), op.op(v))*op.dX + inner(u, v)*dx(domain=op.V.mesh()) if op.name != 'TransposeTrace' else inner(op.op(u), op.op(v))*op.dX
        k = fields(op.Q)
        form = form + Constant(.5)*(k*inner(op.op(u), op.op(v)))*op.dX
        rec.event('same_space_adjoint')
        ok, At = rec.guard('same_space_adjoint', lambda: M(form_adjoint(form)))
        ok and rec.close(At, M(form).T, 'same_space_adjoint')
    rec.sample(rec.ctx)


def plain(rec, dim):
    """no reductions; all sort of expressions"""
    rng = rec.rng
    mesh = gen.Box(rng, dim, n=2 if dim == 2 else 1).mesh
    V, Q = df.FunctionSpace(mesh, 'CG', 2), df.FunctionSpace(mesh, 'DG', 1)
    Z = df.VectorFunctionSpace(mesh, 'CG', 1)
    b, c = Constant(rng.uniform(-1, 1, dim)), gen.randfun(rng, V)
    x, n, h = SpatialCoordinate(mesh), df.FacetNormal(mesh), df.CellDiameter(mesh)
    pairs = {'advection': (V, V, lambda u, v: dot(b, grad(u))*v*dx),
             'advection2': (V, Q, lambda u, v: c*dot(b, grad(u))*v*dx - inner(u.dx(0), v)*dx),
             'index': (Z, V, lambda u, v: (u[0] + 2*u[dim-1])*v*dx + u[i_]*b[i_]*v*ds),
             'index2': (Z, Z, lambda u, v: u[0]*v[1]*dx + inner(dot(grad(u), b), v)*dx),
             'cond': (V, Q, lambda u, v: conditional(gt(x[0], c), u, 2*u.dx(1))*v*dx),
             'facets': (Q, Q, lambda u, v: inner(jump(u), avg(v))*dS + dot(b, n('+'))*u('+')*v('-')*dS + u*v*h*ds),
             'facets2': (V, Q, lambda u, v: inner(dot(avg(grad(u)), n('+')), jump(v))*dS),
             'vector': (V, Z, lambda u, v: dot(as_vector([u, 3*u.dx(0)] + [u]*(dim-2)), v)*dx + df.div(v)*u*dx),
             'power': (V, V, lambda u, v: df.exp(c)*abs(c-1)**1.5*u*v.dx(0)*dx(metadata={'quadrature_degree': 4}))}
    import ufl_legacy
    i_ = ufl_legacy.i
    for name in rng.permutation(list(pairs)):
        U, W, f = pairs[name]
        form = f(TrialFunction(U), TestFunction(W))
        rec.ctx = 'adjoint of %s %dd' % (name, dim)
        rec.event('same_space_adjoint' if U is W else 'adjoint')
        A = M(form)
        ok, At = rec.guard('plain_adjoint', lambda: M(form_adjoint(form)))
        ok and rec.close(At, A.T, 'plain_adjoint')
        rec.seen('plain', dim, name)
    rec.check(form_adjoint(0) == 0 and form_adjoint(2.5) == 2.5, 'plain_adjoint', 'number')


def block(rec, dim):
    rng = rec.rng
    world = ops.world(rng, dim)
    chosen = [world[i] for i in rng.permutation(len(world))[:rng.integers(1, 4)]]
    W = []
    for op in chosen:
        for V in (op.V, op.Q):
            if not any(V == X for X in W):
                W.append(V)
    if rng.random() < .5:
        m = W[0].mesh()
        pool = [df.FunctionSpace(m, 'DG', 0)]
        if m.topology().dim() == m.geometry().dim():
            pool += [df.FunctionSpace(m, 'RT', 1), df.FunctionSpace(m, 'HDiv Trace', 0), df.TensorFunctionSpace(m, 'DG', 0)]
        W.append(pool[rng.integers(len(pool))])
    W = [W[i] for i in rng.permutation(len(W))][:5]
    n = len(W)
    at = lambda V: next((i for i, X in enumerate(W) if X == V), None)
    chosen = [op for op in chosen if at(op.V) is not None and at(op.Q) is not None]
    rec.ctx = 'block %dd %s of %d' % (dim, [op.name for op in chosen], n)
    u, v = list(map(TrialFunction, W)), list(map(TestFunction, W))

    def mass(i, a, b):
        if W[i].ufl_element().family() == 'HDiv Trace':
            return inner(a('+'), b('+'))*dS(domain=W[i].mesh()) + inner(a, b)*ds(domain=W[i].mesh())
        return inner(a, b)*dx(domain=W[i].mesh())

    # (row, column, form); each of one integral type
    def terms(k):
        out = []
        for _ in range(k):
            if chosen and rng.random() < .65:
                op = chosen[rng.integers(len(chosen))]
                i, j = at(op.V), at(op.Q)
                c = Constant(rng.uniform(1, 2)*rng.choice([-1, 1]))
                if rng.integers(2):
                    out.append((j, i, c*inner(op.op(u[i]), v[j])*op.dX))
                else:
                    out.append((i, j, inner(op.op(v[i]), c*u[j])*op.dX))
            else:
                i = int(rng.integers(n))
                out.append((i, i, mass(i, u[i], v[i])))
        return out

    def dense_sum(ts):
        A = [[np.zeros((X.dim(), Y.dim())) for Y in W] for X in W]
        for i, j, f in ts:
            A[i][j] = A[i][j] + M(f)
        return A

    def compare(bf, ref, oracle, Wn=None):
        Wn = Wn or W
        ok, A = rec.guard(oracle, ii_assemble, bf)
        if not ok:
            return
        rec.check(isinstance(A, block_mat), oracle, 'type')
        for i in range(len(Wn)):
            for j in range(len(Wn)):
                rec.close(D(A[i][j], Wn[i], Wn[j]), ref[i][j], oracle, 'block %d,%d' % (i, j), rtol=1E-9)

    def fill(ts):
        bf = block_form(W, 2)
        ts = [ts[i] for i in rng.permutation(len(ts))]
        while ts:
            how = rng.integers(3)
            if how == 0:                    # several at once
                k = int(rng.integers(1, len(ts)+1))
                f = ts[0][2]
                for t in ts[1:k]:
                    f = f + t[2]
                ts = ts[k:]
                bf.add(f)
            elif how == 1:
                i, j, f = ts.pop()
                bf[i][j] += f
            else:
                i, j, f = ts.pop()
                bf[i][j] = f + bf[i][j] if not isinstance(bf[i][j], int) else f
        return bf

    t0 = terms(int(rng.integers(2, 7)))
    ok, a = rec.guard('placed', fill, t0)
    if not ok:
        return
    rec.event('placed', len(t0))
    ref = dense_sum(t0)
    compare(a, ref, 'placed')
    # a block of the wrong arguments is refused
    if n > 1 and t0:
        i, j, f = t0[0]
        k = (i+1) % n
        if not (W[k] == W[i]):
            rec.event('refused')

            def wrong():
                block_form(W, 2)[k][j] = f
            rec.raises((AssertionError, ValueError), 'wrong_block_refused', wrong, 'form of (%d, %d) put in (%d, %d)' % (i, j, k, j))
        if j != i:
            def wrong():
                block_form(W, 2)[i][i] = f
            rec.raises((AssertionError, ValueError), 'wrong_block_refused', wrong)
    # sum
    t1 = terms(int(rng.integers(1, 4)))
    b = fill(t1)
    ref1 = dense_sum(t1)
    rec.event('sum')
    ok, c = rec.guard('block_sum', lambda: a + b)
    if ok:
        compare(c, [[r + s for r, s in zip(*rows)] for rows in zip(ref, ref1)], 'block_sum')
        compare(a, ref, 'block_sum_operands_unchanged')
    # permutation
    order = [int(i) for i in rng.permutation(n)]
    rec.event('permuted')
    ok, P = rec.guard('permuted', permute, a, order if rng.integers(2) else [W[i] for i in order])
    if ok:
        Wp = [W[i] for i in order]
        rec.check(all(X == Y for X, Y in zip(P.V0, Wp)), 'permuted', 'spaces')
        compare(P, [[ref[i][j] for j in order] for i in order], 'permuted', Wp)
        # still accepts forms
        i, j, f = t0[0]
        ok, _ = rec.guard('permuted', P.add, f)
        if ok:
            rf = [[ref[k][l].copy() for l in order] for k in order]
            rf[order.index(i)][order.index(j)] += M(f)
            compare(P, rf, 'permuted_then_added', Wp)
    # structure
    zero = [[isinstance(a[i][j], (int, float)) and a[i][j] == 0 for j in range(n)] for i in range(n)]
    rec.check(is_upper_triangular(a) == all(zero[i][j] for i in range(n) for j in range(i)), 'triangular')
    rec.check(is_lower_triangular(a) == all(zero[j][i] for i in range(n) for j in range(i)), 'triangular')
    # symmetric completion
    upper = bool(rng.integers(2))
    ts = [(i, j, f) for i, j, f in terms(5) if (i <= j if upper else i >= j)]
    ts += [(k, k, mass(k, u[k], v[k])) for k in range(n)]
    s = fill(ts)
    rec.event('selfadjoint')
    R = dense_sum(ts)
    ok, s2 = rec.guard('selfadjoint', make_selfadjoint, s)
    if ok:
        for i in range(n):
            for j in range(i):
                i_, j_ = (i, j) if upper else (j, i)
                R[i_][j_] = R[j_][i_].T
        compare(s2, R, 'selfadjoint')
    if n > 1 and not is_upper_triangular(a) and not is_lower_triangular(a):
        rec.raises(ValueError, 'selfadjoint', lambda: make_selfadjoint(a), 'full form')
    # linear forms
    L = block_form(W, 1)
    l0 = [np.zeros(X.dim()) for X in W]
    rec.event('linear')
    for i, X in enumerate(W):
        if rng.random() < .4:
            continue
        g = gen.randfun(rng, X)
        f = mass(i, g, v[i])
        L.add(f) if rng.integers(2) else L[i].__class__ and L.__setitem__(i, L[i] + f)
        l0[i] = l0[i] + df.assemble(f).get_local()
    for op in chosen:
        i, j = at(op.V), at(op.Q)
        g = gen.randfun(rng, op.Q)
        if rng.integers(2):
            f = inner(op.op(v[i]), g)*op.dX
            l0[i] = l0[i] + ii_assemble(f).get_local()
            g = f
        else:
            g = inner(g, v[j])*dx(domain=op.Q.mesh())
            l0[j] = l0[j] + ii_assemble(g).get_local()
        ok, _ = rec.guard('linear', L.add, g)
        if not ok:
            return
    ok, y = rec.guard('linear', ii_assemble, L)
    if ok:
        rec.check(isinstance(y, block_vec), 'linear', 'type')
        for i in range(n):
            rec.close(y[i].get_local(), l0[i], 'linear', 'block %d' % i)
        ok, P = rec.guard('linear', permute, L, order)
        if ok:
            yp = ii_assemble(P)
            for k, i in enumerate(order):
                rec.close(yp[k].get_local(), l0[i], 'linear_permuted', 'block %d' % k)
        L2 = L + L
        y2 = ii_assemble(L2)
        for i in range(n):
            rec.close(y2[i].get_local(), 2*l0[i], 'linear_sum', 'block %d' % i)
    rec.check(is_linear_form(L), 'arity')
    rec.check(not is_bilinear_form(L), 'arity')
    nums = any(zero[i][j] for i in range(n) for j in range(n))
    ok, r = rec.guard('arity', is_bilinear_form, a)
    ok and rec.check(r, 'arity', 'bilinear with zeros=%s' % nums)
    ok, r = rec.guard('arity', is_linear_form, a)
    ok and rec.check(not r, 'arity', 'linear with zeros=%s' % nums)
    rec.seen('block', dim, sorted(op.name for op in chosen), n)
    rec.sample(rec.ctx)
