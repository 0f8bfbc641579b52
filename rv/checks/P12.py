"""PETSc side: nested objects, ii_Function wiring, operators and preconditioners for KSP, local-to-global maps, fieldsplit."""
import gc
import numpy as np
import dolfin as df
from dolfin import inner, grad, dx, Constant, Expression, TrialFunction, TestFunction, PETScVector, as_backend_type, interpolate
from block import block_mat, block_vec, block_transpose
from block.algebraic.petsc import LU, SUPERLU_LU, AMG
from petsc4py import PETSc
import gen
from xii import ii_convert, ii_Function
from xii.linalg.function import as_petsc_nest
from xii.linalg.nest import nest, pc_nest
from xii.linalg.convert import set_lg_map
from xii.linalg.block_utils import ii_PETScOperator, ii_PETScPreconditioner, block_diag_mat, ReductionOperator
from checks.P11 import spaces_of, churn, flat

RULE = ('one case = a random block system (matrices, products, sums, numbers, zeros) over 1-4 spaces: nest() in and out of PETSc, ii_Function histories in which '
        'functions, coefficient vectors, block vector and PETSc vector are written alternately and must all show the last write, ii_PETScOperator and '
        'ii_PETScPreconditioner through PETSc Mat.mult/multTranspose/KSP (with and without nullspace), set_lg_map, pc_nest fieldsplit with LU, AMG and sums of them on the blocks; all against dense numpy. '
        'key = (part, blocks, variant). Non-trivial: at least two blocks or a non-matrix entry.')
REQUIRED = {'nest_mat': 40, 'nest_vec': 40, 'identity_blocks': 4, 'wired_writes': 300, 'operator': 40, 'transpose': 40, 'ksp': 40, 'nullspace': 10,
            'fieldsplit': 30, 'lgmap': 40, 'grouped': 5, 'magnitudes': 10, 'preconditioner:sum': 4}


def cases(tier, seed):
    return list(range(160 if tier == 'quick' else 900))


def run(rec, case):
    rng = rec.rng
    mesh = df.UnitSquareMesh(int(rng.integers(1, 4)), int(rng.integers(1, 4)))
    W = spaces_of(rng, mesh, int(rng.integers(1, 5)))
    rec.ctx = '%d blocks' % len(W)
    nesting(rec, W)
    functions(rec, mesh, W)
    operators(rec, W)
    fieldsplit(rec)
    rec.sample(rec.ctx)


def random_blocks(rng, rows, cols, identity=True):
    blocks, D = [], []
    for i, m in enumerate(rows):
        brow, drow = [], []
        for j, n in enumerate(cols):
            k = rng.integers(8)
            A = rng.uniform(-1, 1, (m, n))*(rng.random((m, n)) < .5)
            if k == 0 and i != j:
                b, A = 0, np.zeros((m, n))
            elif k == 1 and m == n and identity and i != j:
                a = float(rng.integers(-2, 3)) or 1.5
                b, A = a, a*np.eye(m)
            elif k == 2:
                B = rng.uniform(-1, 1, (n, n))
                b, A = gen.mat_of(A)*gen.mat_of(B), A @ B
            elif k == 3:
                B = rng.uniform(-1, 1, (m, n))
                b, A = gen.mat_of(A) + gen.mat_of(B), A + B
            elif k == 4:
                b = block_transpose(gen.mat_of(A.T))
            elif k == 5 and i != j:
                A = 0*A                                    # matrix of zeros
                b = gen.mat_of(A)
            else:
                b = gen.mat_of(A)
            brow.append(b)
            drow.append(A)
        blocks.append(brow)
        D.append(drow)
    return blocks, D


def nested_dense(A, rows, cols):
    out = []
    for i, m in enumerate(rows):
        out.append([])
        for j, n in enumerate(cols):
            S = A.getNestSubMatrix(i, j)
            out[-1].append(np.zeros((m, n)) if not S else gen.dense(S))
    return np.block(out)


def nesting(rec, W):
    rng = rec.rng
    rows = [w.dim() for w in W]
    cols = rows if rng.integers(2) else [int(k) for k in rng.integers(1, 6, rng.integers(1, 4))]
    blocks, D = random_blocks(rng, rows, cols)
    # number blocks on the diagonal need matrices beside them to carry the size
    if cols is rows and len(rows) > 1 and rng.integers(2):
        i = int(rng.integers(len(rows)))
        a = float(rng.choice([0, 2, -1]))
        j = (i+1) % len(rows)
        for r, c in ((i, j), (j, i)):
            if isinstance(blocks[r][c], (int, float)):
                D[r][c] = rng.uniform(-1, 1, (rows[r], cols[c]))
                blocks[r][c] = gen.mat_of(D[r][c])
        blocks[i][i], D[i][i] = a, a*np.eye(rows[i])
        a and rec.event('identity_blocks')
    if rng.integers(2):
        # coefficients in physical units: tiny and huge next to each other, above the documented cut off
        i, j = int(rng.integers(len(rows))), int(rng.integers(len(cols)))
        if not isinstance(blocks[i][j], (int, float)):
            D[i][j] = 10.**rng.uniform(-12, 8)*rng.uniform(.5, 1, (rows[i], cols[j]))*rng.choice([-1, 1], (rows[i], cols[j]))
            blocks[i][j] = gen.mat_of(D[i][j])
            rec.event('magnitudes')
    if any(all(isinstance(b, (int, float)) for b in row) for row in blocks) or \
       any(all(isinstance(row[j], (int, float)) for row in blocks) for j in range(len(cols))):
        return
    rec.event('nest_mat')
    ref = np.block(D)
    A = nest(block_mat(blocks))
    got = nested_dense(A, rows, cols)
    rec.close(got, ref, 'nest_matrix')
    rec.check(np.all(np.abs(got - ref) <= 1E-12*np.abs(ref) + 1E-14), 'nest_matrix', 'entries, relative to each')
    rec.event('nest_vec')
    x = [rng.uniform(-1, 1, n) for n in cols]
    y = [rng.uniform(-1, 1, m) for m in rows]
    X, Y = nest(block_vec([gen.pvec(a) for a in x])), as_petsc_nest(block_vec([gen.pvec(a) for a in y]))
    rec.close(np.concatenate([s.array for s in X.getNestSubVecs()]), np.concatenate(x), 'nest_vector')
    rec.close(np.concatenate([s.array for s in Y.getNestSubVecs()]), np.concatenate(y), 'nest_vector')
    junk = churn(rows+cols, rng)
    A.mult(X, Y)
    rec.close(np.concatenate([s.array for s in Y.getNestSubVecs()]), ref @ np.concatenate(x), 'nest_action')
    del junk
    rec.seen('nest', len(rows), len(cols))
    # local to global maps do not change the matrix and make it accept local insertion
    rec.event('lgmap')
    M = gen.mat_of(D[0][0])
    rec.check(set_lg_map(M) is M, 'lgmap', 'same object')
    rec.close(gen.dense(M), D[0][0], 'lgmap', 'values')
    r, c = as_backend_type(M).mat().getLGMap()
    rec.check(list(r.indices) == list(range(M.size(0))) and list(c.indices) == list(range(M.size(1))), 'lgmap', 'identity map')
    B = set_lg_map(block_mat([[gen.mat_of(D[0][0]), 0], [0, M]]))
    rec.check(isinstance(B, block_mat) and B[0][1] == 0, 'lgmap', 'block')


def functions(rec, mesh, W):
    """every view of an ii_Function shows the last write"""
    rng = rec.rng
    n = len(W)
    dims = [w.dim() for w in W]
    how = str(rng.choice(['spaces', 'functions', 'vectors']))
    x = [rng.uniform(-1, 1, d) for d in dims]
    own = None
    if how == 'spaces':
        u = ii_Function(W)
        x = [np.zeros(d) for d in dims]
    elif how == 'functions':
        own = [df.Function(w, gen.pvec(a)) for w, a in zip(W, x)]
        u = ii_Function(W, own)
    else:
        own = [gen.pvec(a) for a in x]
        u = ii_Function(W, own)
    # vectors are views into the caller's object, functions are the caller's functions
    views = [u.petsc_vec(), u.vector(), u.block_vec(), u.vectors()]

    def read(k):
        if k == 0:
            return np.concatenate([s.array for s in views[0].getNestSubVecs()])
        if k == 1:
            return np.concatenate([s.array for s in as_backend_type(views[1]).vec().getNestSubVecs()])
        if k == 2:
            return np.concatenate([b.get_local() for b in views[2]])
        if k == 3:
            return np.concatenate([b.get_local() for b in views[3]])
        if k == 4:
            return np.concatenate([f.vector().get_local() for f in u])
        return np.concatenate([(f.vector() if hasattr(f, 'vector') else f).get_local() for f in own]) if own else read(4)
    rec.check(len(u) == n and list(u.function_space()) == list(W), 'ii_Function', 'length, spaces')
    for step in range(6):
        rec.event('wired_writes')
        what = str(rng.choice(['petsc', 'dolfin', 'block', 'component', 'interpolate', 'randomize', 'start', 'axpy']))
        i = int(rng.integers(n))
        if what == 'petsc':
            x = [rng.uniform(-1, 1, d) for d in dims]
            for s, a in zip(views[0].getNestSubVecs(), x):
                s.setArray(a)
        elif what == 'axpy':
            y = [rng.uniform(-1, 1, d) for d in dims]
            views[0].axpy(2., as_petsc_nest(block_vec([gen.pvec(a) for a in y])))
            x = [a + 2*b for a, b in zip(x, y)]
        elif what == 'dolfin':
            views[1] *= -0.5
            x = [-0.5*a for a in x]
        elif what == 'block':
            x[i] = rng.uniform(-1, 1, dims[i])
            views[2][i].set_local(x[i])
        elif what == 'component':
            x[i] = rng.uniform(-1, 1, dims[i])
            u[i].vector().set_local(x[i])
        elif what == 'interpolate':
            gs = []
            for w in W:
                s = w.ufl_element().value_shape()
                v = rng.uniform(-1, 1, 2)
                gs.append([Constant(tuple(v)) if s else Constant(v[0]),
                           Expression(('a+x[0]', 'b*x[1]') if s else 'a+b*x[0]*x[1]', a=v[0], b=v[1], degree=2),
                           gen.randfun(rng, w)][rng.integers(3)])
            if all(hasattr(g, 'vector') for g in gs) and rng.integers(2):
                gs = ii_Function(W, gs)
            ok, r = rec.guard('interpolate', u.interpolate, gs)
            if not ok:
                return
            rec.check(r is u, 'interpolate', 'returns itself')
            x = [interpolate(g, w).vector().get_local() for g, w in zip(gs, W)]
        elif what == 'randomize':
            before = flat([f.vector().get_local() for f in u])
            u.randomize()
            x = [f.vector().get_local() for f in u]
            rec.check(np.all(flat(x) != before), 'randomize')
        for k in range(6):
            rec.close(read(k), np.concatenate(x), 'wiring', 'view %d after %s (%s)' % (k, what, how))
        rec.seen('wired', how, what)
    rec.check(all(u[j].function_space() == W[j] for j in range(n)) and u[-1:] == [u[n-1]], 'ii_Function', 'indexing')
    wrong = df.FunctionSpace(mesh, 'CG', 4)
    rec.raises(AssertionError, 'component_spaces', lambda: ii_Function(W, [df.Function(w) for w in W[:-1]] + [df.Function(wrong)]), 'component from another space')
    rec.raises(AssertionError, 'component_spaces', lambda: ii_Function(W, [gen.pvec(np.zeros(d)) for d in dims[:-1]] + [gen.pvec(np.zeros(dims[-1]+1))]), 'size')


def make_nest(parts):
    return as_petsc_nest(block_vec([gen.pvec(p) for p in parts]))


def operators(rec, W):
    rng = rec.rng
    dims = [min(w.dim(), 25) for w in W]
    single = len(dims) == 1
    blocks, D = random_blocks(rng, dims, dims, identity=False)
    spd = bool(rng.integers(2))
    ref = np.block(D)
    N = len(ref)
    if spd:
        ref = ref @ ref.T + np.eye(N)
    else:
        ref = ref + 2*N*np.eye(N)
    off = np.cumsum([0]+dims)
    cut = lambda M, i, j: M[off[i]:off[i+1], off[j]:off[j+1]]
    split = lambda v: np.split(v, off[1:-1])
    lazy = rng.integers(2)

    def lazily(M):
        m = gen.mat_of(M)
        return (m + 1*gen.mat_of(np.zeros_like(M))) if lazy else m
    A = block_mat([[lazily(cut(ref, i, j)) for j in range(len(dims))] for i in range(len(dims))])
    if single:
        A = A[0][0]
    rec.ctx = 'operator %d blocks lazy=%d' % (len(dims), lazy)
    P = np.zeros_like(ref)
    for i in range(len(dims)):
        P[off[i]:off[i+1], off[i]:off[i+1]] = np.linalg.inv(cut(ref, i, i)) if spd else np.diag(1/np.diag(cut(ref, i, i)))
    B = block_diag_mat([gen.mat_of(cut(P, i, i)) for i in range(len(dims))])
    if single:
        B = B[0][0]
    vec = (lambda v: as_backend_type(gen.pvec(v)).vec()) if single else (lambda v: make_nest(split(v)))
    arr = lambda v: np.array(v.array) if single else np.concatenate([s.array for s in v.getNestSubVecs()])
    M = ii_PETScOperator(A, None) if rng.integers(2) else ii_PETScOperator(A)
    rec.check(tuple(M.size) == ref.shape, 'operator', 'size')
    rec.event('operator')
    x, y0 = rng.uniform(-1, 1, N), rng.uniform(-1, 1, N)
    X, Y = vec(x), vec(y0)
    M.mult(X, Y)
    rec.close(arr(Y), ref @ x, 'operator_mult')
    rec.close(arr(X), x, 'operator_mult', 'input')
    rec.event('transpose')
    Y = vec(y0)
    if not lazy or single:
        M.multTranspose(X, Y)
        rec.close(arr(Y), ref.T @ x, 'operator_multTranspose')

    # Krylov solver with preconditioner
    rec.event('ksp')
    ksp = PETSc.KSP().create()
    ksp.setOperators(M)
    ksp.setType('cg' if spd else 'gmres')
    ksp.setGMRESRestart(N+1) if not spd else None
    ksp.setTolerances(rtol=1E-13, atol=1E-30, max_it=10*N)
    pc = ii_PETScPreconditioner(B, ksp)
    Y = vec(y0)
    pc.apply(X, Y)
    rec.close(arr(Y), P @ x, 'preconditioner_apply')
    Y = vec(y0)
    pc.applyTranspose(X, Y)
    rec.close(arr(Y), P.T @ x, 'preconditioner_applyTranspose')
    rhs, sol = vec(ref @ x), vec(np.zeros(N))
    ksp.solve(rhs, sol)
    rec.close(arr(sol), x, 'ksp_solution', 'reason %d' % ksp.getConvergedReason(), rtol=1E-6)
    rec.seen('ksp', len(dims), spd, lazy)

    # singular operator with its nullspace
    rec.event('nullspace')
    k = int(rng.integers(1, 3)) if N > 3 else 1
    if N < 2:
        return
    Z = np.linalg.qr(rng.uniform(-1, 1, (N, k)))[0]
    Pr = np.eye(N) - Z @ Z.T
    S = Pr @ (ref @ ref.T/np.linalg.norm(ref)**2 + np.eye(N)) @ Pr
    A = block_mat([[gen.mat_of(cut(S, i, j)) for j in range(len(dims))] for i in range(len(dims))])
    zs = [block_vec([gen.pvec(p) for p in split(z)]) for z in Z.T]
    if single:
        A, zs = A[0][0], [z[0] for z in zs]
    ok, M = rec.guard('operator_nullspace', ii_PETScOperator, A, zs)
    if ok:
        ns = M.getNullSpace()
        rec.check(not ns.hasConstant() and len(ns.getVecs()) == k, 'operator_nullspace', 'vectors')
        X = vec(x)
        ns.remove(X)
        rec.close(arr(X), Pr @ x, 'operator_nullspace', 'removed component')
        ksp = PETSc.KSP().create()
        ksp.setOperators(M)
        ksp.setType('minres')
        ksp.setTolerances(rtol=1E-13, atol=1E-30, max_it=10*N)
        ksp.getPC().setType('none')
        rhs, sol = vec(S @ x), vec(np.zeros(N))
        ksp.solve(rhs, sol)
        rec.close(Pr @ arr(sol), Pr @ x, 'ksp_singular', rtol=1E-6)


def fieldsplit(rec):
    """pc_nest: block diagonal exact solvers, possibly over groups of blocks"""
    rng = rec.rng
    rec.event('fieldsplit')
    n = int(rng.integers(1, 4))
    dims = [int(k) for k in rng.integers(2, 6, n)]
    off = np.cumsum([0]+dims)
    N = off[-1]
    A = rng.uniform(-1, 1, (N, N)) + 2*N*np.eye(N)
    cut = lambda M, i, j: M[off[i]:off[i+1], off[j]:off[j+1]]
    AA = block_mat([[gen.mat_of(cut(A, i, j)) for j in range(n)] for i in range(n)])
    grouped = n > 2 and rng.integers(2)
    ref = np.zeros((N, N))
    mesh = df.UnitIntervalMesh(1)
    kinds = []

    def inverse(M):
        """Preconditioner for the matrix and (nearly) its inverse as a matrix"""
        kind = str(rng.choice(['lu', 'lu', 'superlu', 'amg', 'sum', 'sum', 'amg_sum']))
        kinds.append(kind)
        rec.event('preconditioner:' + kind)
        one = {'lu': LU, 'superlu': SUPERLU_LU, 'amg': AMG}
        if kind == 'sum':
            M2 = M @ M.T + np.eye(len(M))
            return LU(gen.mat_of(M)) + one[str(rng.choice(['lu', 'superlu']))](gen.mat_of(M2)), np.linalg.inv(M) + np.linalg.inv(M2)
        if kind in ('amg', 'amg_sum'):
            S = M + M.T
            P = AMG(gen.mat_of(S))
            mat = lambda P: np.array([(P*gen.pvec(e)).get_local() for e in np.eye(len(M))]).T
            if kind == 'amg':
                return P, mat(P)
            return (LU(gen.mat_of(M)) + P, np.linalg.inv(M) + mat(P)) if rng.integers(2) else (P + LU(gen.mat_of(M)), np.linalg.inv(M) + mat(P))
        return one[kind](gen.mat_of(M)), np.linalg.inv(M)
    if grouped:
        rec.event('grouped')
        mesh = df.UnitIntervalMesh(1)
        W = [df.VectorFunctionSpace(mesh, 'R', 0, dim=d) for d in dims]
        cutat = int(rng.integers(1, n))
        edges = [0, cutat, n]
        R = ReductionOperator(edges[1:], W)
        mats = []
        for f, l in zip(edges[:-1], edges[1:]):
            M = A[off[f]:off[l], off[f]:off[l]] + np.eye(off[l]-off[f])
            P, ref[off[f]:off[l], off[f]:off[l]] = inverse(M)
            mats.append(P)
        block_pc = R.T*block_diag_mat(mats)*R
    else:
        mats = []
        for i in range(n):
            M = cut(A, i, i) + np.eye(dims[i])
            P, ref[off[i]:off[i+1], off[i]:off[i+1]] = inverse(M)
            mats.append(P)
        block_pc = block_diag_mat(mats)
    rec.ctx = 'fieldsplit %s grouped=%d %s' % (dims, bool(grouped), kinds)
    Amat = nest(AA)
    ksp = PETSc.KSP().create()
    ksp.setType('gmres')
    ksp.setOperators(Amat)
    pc = ksp.getPC()
    if n > 1:
        pc.setType('fieldsplit')
        pc.setFieldSplitType(PETSc.PC.CompositeType.ADDITIVE)
    ok, Bmat = rec.guard('fieldsplit', pc_nest, pc, block_pc, Amat)
    if not ok:
        return
    ksp.setOperators(Amat, Bmat)
    ksp.setTolerances(rtol=1E-13, max_it=200)
    x = rng.uniform(-1, 1, N)
    vec = lambda v: as_backend_type(gen.pvec(v)).vec()
    ok, _ = rec.guard('fieldsplit', ksp.setUp)
    if not ok:
        return
    X, Y = vec(x), vec(np.zeros(N))
    pc.apply(X, Y)
    rec.close(Y.array, ref @ x, 'fieldsplit_apply')
    rhs, sol = vec(A @ x), vec(np.zeros(N))
    ksp.solve(rhs, sol)
    rec.close(sol.array, x, 'fieldsplit_solve', rtol=1E-6)
    rec.seen('fieldsplit', n, bool(grouped), *kinds)
