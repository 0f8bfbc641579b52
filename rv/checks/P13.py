"""Null spaces: BlockNullspace, L2 projector, inner product and Riesz map orthogonal to given functions."""
import numpy as np
import dolfin as df
from dolfin import inner, dx, Constant, Expression, TrialFunction, TestFunction
from block import block_vec, block_mat
import gen
from xii.linalg.block_nullspace import BlockNullspace
from xii.linalg.sherman_morrison import Projector, L20_inner_product, L20_riesz_map, orthonormalize
from checks.P11 import spaces_of

RULE = ('one case = (a) a history of vectors (coefficients, numbers, constants, tuples, zeros) added to a BlockNullspace over 1-4 random spaces, dependent ones included, '
        'with projections in between, against a QR factorisation; (b) Projector, L20_inner_product and L20_riesz_map for 1-4 random functions (rigid motions, '
        'symmetric functions with equal Gram eigenvalues) in scalar and vector spaces, against dense algebra. key = (spaces, dim of nullspace, kind). '
        'Non-trivial: nullspace of at least one nonzero vector.')
REQUIRED = {'added': 100, 'dependent': 30, 'numbers': 30, 'constants': 20, 'orthogonalized': 100, 'projector': 60, 'riesz': 60, 'vector_space': 10, 'equal_eigenvalues': 10,
            'single': 10, 'magnitudes': 10}


def cases(tier, seed):
    return list(range(160 if tier == 'quick' else 800))


def cat(b):
    return np.concatenate([x.get_local() for x in b])


def run(rec, case):
    block_nullspace(rec)
    l20(rec)


def block_nullspace(rec):
    rng = rec.rng
    mesh = df.UnitSquareMesh(int(rng.integers(1, 4)), int(rng.integers(1, 4)))
    W = spaces_of(rng, mesh, int(rng.integers(1, 5)))
    W = [w for w in W if w.ufl_element().family() != 'Raviart-Thomas'] or [df.FunctionSpace(mesh, 'CG', 1)]
    dims = [w.dim() for w in W]
    N = sum(dims)
    rec.ctx = 'nullspace over %d spaces' % len(W)
    Z = BlockNullspace(W)
    rec.check(len(Z) == 0, 'nullspace', 'not empty')
    added = np.zeros((N, 0))
    for step in range(5):
        if added.shape[1] >= N-1:
            break
        # a vector and its values
        if rng.random() < .25 and added.shape[1]:
            x = added @ rng.uniform(-1, 1, added.shape[1])
            vec = block_vec([gen.pvec(p) for p in np.split(x, np.cumsum(dims)[:-1])])
            before = cat(vec)
            rec.event('dependent')
            rec.raises(AssertionError, 'dependent_vector', lambda: Z.add_vector(vec), 'a combination of %d vectors was added' % added.shape[1])
            rec.check(len(Z) == added.shape[1], 'dependent_vector', 'length')
        else:
            vec, vals = [], []
            for w in W:
                s = w.ufl_element().value_shape()
                k = rng.integers(5)
                v = rng.uniform(-1, 1, s)
                if k == 0:
                    c = Constant(tuple(v)) if s else Constant(float(v))
                    vec.append(c)
                    rec.event('constants')
                elif k == 1 and s:
                    c = tuple(float(t) for t in v)
                    vec.append(c if rng.integers(2) else list(c))
                    c = Constant(c)
                    rec.event('numbers')
                elif k == 1 or (k == 2 and not s):
                    a = [0, 1, 2.5][rng.integers(3)]
                    vec.append(a)
                    c = Constant(a)
                    if s:
                        vec[-1] = gen.pvec(np.zeros(w.dim()))
                        c = Constant((0, )*s[0])
                    else:
                        rec.event('numbers')
                else:
                    c = gen.randfun(rng, w)
                    vec.append(gen.pvec(c.vector().get_local()))
                vals.append(df.interpolate(c, w).vector().get_local())
            if rng.integers(3) == 0 and all(hasattr(v, 'get_local') for v in vec):
                # length has no meaning, only direction
                unit = 10.**int(rng.integers(-8, 9))
                vals = [unit*v for v in vals]
                vec = [gen.pvec(v) for v in vals]
                rec.event('magnitudes')
            x = np.concatenate(vals)
            direction = x/np.linalg.norm(x) if np.any(x) else x
            old = added
            if np.linalg.matrix_rank(np.c_[old, direction], tol=1E-6) <= old.shape[1]:
                continue
            vec = block_vec(vec)
            frozen = [v.get_local().copy() if hasattr(v, 'get_local') else None for v in vec]
            ok, _ = rec.guard('add_vector', Z.add_vector, vec)
            if not ok:
                return
            rec.check(all(f is None or np.array_equal(f, v.get_local()) for f, v in zip(frozen, vec)), 'add_vector', 'changed its input')
            added = np.c_[added, direction]
            rec.event('added')
        B = np.array([cat(z) for z in Z]).T.reshape((N, len(Z)))
        rec.close(B.T @ B, np.eye(len(Z)), 'orthonormal', rtol=1E-8)
        Q = np.linalg.qr(added)[0] if added.shape[1] else np.zeros((N, 0))
        rec.close(B @ B.T, Q @ Q.T, 'span', rtol=1E-7)
        y = rng.uniform(-1, 1, N)
        yv = Z.orthogonalize(block_vec([gen.pvec(p) for p in np.split(y, np.cumsum(dims)[:-1])]))
        rec.close(cat(yv), y - Q @ (Q.T @ y), 'orthogonalize', rtol=1E-7)
        rec.close(Z.angles(yv), np.zeros(len(Z)), 'orthogonalize', 'angles')
        rec.event('orthogonalized')
    if added.shape[1]:
        vs = [block_vec([gen.pvec(p) for p in np.split(a, np.cumsum(dims)[:-1])]) for a in added.T]
        Z2 = BlockNullspace(W, vs)
        rec.check(len(Z2) == len(Z), 'nullspace', 'from vectors')
        rec.close([[abs(a.inner(b)) for a in Z] for b in Z2], np.eye(len(Z)), 'nullspace', 'from vectors', rtol=1E-6)
    rec.seen('block', len(W), added.shape[1])


def l20(rec):
    rng = rec.rng
    mesh = df.UnitSquareMesh(*[int(k) for k in rng.integers(2, 5, 2)])
    size = float(rng.choice([1E-3, 1, 1, 1E3]))      # metres or millimetres
    mesh.coordinates()[:] *= size
    rec.event('magnitudes', size != 1)
    vector = rng.random() < .35
    deg = int(rng.integers(1, 3))
    V = df.VectorFunctionSpace(mesh, 'CG', deg) if vector else df.FunctionSpace(mesh, 'CG', deg)
    if vector:
        rec.event('vector_space')
        pool = [Constant((1, 0)), Constant((0, 1)), Expression(('-x[1]', 'x[0]'), degree=1), Expression(('x[0]', 'x[1]'), degree=1)]
        kinds = 'rigid'
        k = int(rng.integers(1, 5))
        ns = [pool[i] for i in rng.permutation(4)[:k]]
        if k == 2 and all(isinstance(z, Constant) for z in ns):
            rec.event('equal_eigenvalues')
    else:
        kind = int(rng.integers(3))
        if kind == 0:
            ns = [Constant(float(rng.uniform(.5, 2)))]
        elif kind == 1:
            # same size, orthogonal: Gram matrix is a multiple of identity
            ns = [Expression('x[0]-0.5', degree=1), Expression('x[1]-0.5', degree=1)]
            rec.event('equal_eigenvalues')
        else:
            pool = [Constant(1), Expression('x[0]', degree=1), Expression('x[1]', degree=1), Expression('cos(pi*x[0])+x[1]', degree=3)]
            ns = [pool[i] for i in rng.permutation(4)[:rng.integers(1, 5)]]
        kinds = kind
    # independent in the space
    while True:
        Z = np.array([df.interpolate(z, V).vector().get_local() for z in ns]).T
        if np.linalg.cond(Z) < 1E3:
            break
        ns.pop()
    rec.event('single', len(ns) == 1)
    rec.ctx = 'L20 dim %d, %d functions, %s' % (V.dim(), len(ns), kinds)
    M = df.assemble(inner(TrialFunction(V), TestFunction(V))*dx).array()
    ref = np.eye(V.dim()) - Z @ np.linalg.solve(Z.T @ M @ Z, Z.T @ M)
    rec.event('projector')
    ok, P = rec.guard('projector', Projector, V, ns)
    if not ok:
        return
    B = np.array([b.get_local() for b in P.primal_basis]).T
    rec.close(B.T @ M @ B, np.eye(len(ns)), 'orthonormal_basis', rtol=1E-7)
    x = rng.uniform(-1, 1, V.dim())
    xv = gen.pvec(x)
    px = (P*xv).get_local()
    rec.close(px, ref @ x, 'projector', rtol=1E-7)
    rec.close(xv.get_local(), x, 'projector', 'input')
    rec.close((P*gen.pvec(px)).get_local(), px, 'projector', 'idempotent', rtol=1E-7)
    rec.close(gen.dense(P.collapse()), ref, 'projector_matrix', rtol=1E-7)
    ok, L = rec.guard('inner_product', L20_inner_product, V, ns)
    if ok:
        rec.close((L*gen.pvec(x)).get_local(), M @ ref @ x, 'inner_product', rtol=1E-7)
        rec.close(gen.dense(L.collapse()), M @ ref, 'inner_product_matrix', rtol=1E-7)
    rec.event('riesz')
    ok, R = rec.guard('riesz', L20_riesz_map, V, ns)
    if ok:
        f = M @ ref @ x                      # functionals that vanish on the nullspace
        y = (R*gen.pvec(f)).get_local()
        rec.close(y, ref @ x, 'riesz_inverts', rtol=1E-6)
        rec.close((L*gen.pvec(y)).get_local(), f, 'riesz_inverts', 'L*(R*f)', rtol=1E-6)
    v = [gen.randfun(rng, V).vector() for _ in range(int(rng.integers(1, 4)))]
    Mm = df.assemble(inner(TrialFunction(V), TestFunction(V))*dx)
    on = orthonormalize(v, Mm)
    E = np.array([e.get_local() for e in on])
    rec.close(E @ M @ E.T, np.eye(len(v)), 'orthonormalize', rtol=1E-7)
    rec.check(np.linalg.matrix_rank(np.r_[E, [a.get_local() for a in v]], tol=1E-6) == len(v), 'orthonormalize', 'span')
    rec.seen('l20', V.dim(), len(ns), kinds)
    rec.sample(rec.ctx)
