"""Iterative solvers for block systems (scipy, pyamg, cbc.block front ends) and matrices of user-defined operators."""
import contextlib, io
import numpy as np
import dolfin as df
from block import block_mat, block_vec
from block.iterative import ConjGrad
import gen
from xii.linalg.krylov_api import scipy_solve, pyamg_solve, cbc_solve, ScipyLinOp
from xii.linalg.fe_space_op import FESpaceOperator
from xii.linalg.block_utils import block_diag_mat
from xii import ii_convert
from xii.linalg.convert import Rn_basis

RULE = ('one case = a random well conditioned block system (positive definite or indefinite, 1-4 blocks of sizes 1-12, lazy blocks) solved by every front end '
        '(cg, minres, gmres, bicgstab, ...) with and without a preconditioner and initial guess: residual of the returned solution, agreement with the dense '
        'solution, x0 filled, reported residuals; ScipyLinOp of rectangular block systems; FESpaceOperator subclasses collapsed in histories (recycled vectors) '
        'against their action. key = (solver, method, blocks, preconditioned). Non-trivial: at least one iteration.')
REQUIRED = {'scipy': 80, 'pyamg': 80, 'cbc': 60, 'preconditioned': 60, 'linop': 40, 'rectangular': 15, 'collapse': 40, 'recycled': 15}


def cases(tier, seed):
    return list(range(120 if tier == 'quick' else 600))


def cat(b):
    return np.concatenate([x.get_local() for x in b])


def blocks(M, rows, cols, rng=None, lazy=False):
    r, c = np.cumsum([0]+list(rows)), np.cumsum([0]+list(cols))

    def make(B):
        if lazy and rng.integers(3) == 0:
            C = rng.uniform(-1, 1, B.shape)
            return gen.mat_of(B-C) + gen.mat_of(C)
        return gen.mat_of(B)
    return block_mat([[make(M[r[i]:r[i+1], c[j]:c[j+1]]) for j in range(len(cols))] for i in range(len(rows))])


def bvec(x, sizes):
    return block_vec([gen.pvec(p) for p in np.split(x, np.cumsum(sizes)[:-1])])


def run(rec, case):
    rng = rec.rng
    sizes = [int(k) for k in rng.integers(1, 13, rng.integers(1, 5))]
    if sum(sizes) < 4:               # some methods break down in spaces this small
        sizes.append(4)
    N = sum(sizes)
    B = rng.uniform(-1, 1, (N, N))
    spd = bool(rng.integers(2))
    Q = np.linalg.qr(B)[0]
    ev = rng.uniform(1, 5, N)*(1 if spd else rng.choice([-1, 1], N))
    A = Q @ np.diag(ev) @ Q.T
    A = 0.5*(A+A.T)
    AA = blocks(A, sizes, sizes, rng, lazy=True)
    x = rng.uniform(-1, 1, N)
    # block diagonal positive definite preconditioner
    off = np.cumsum([0]+sizes)
    P = np.zeros((N, N))
    for i in range(len(sizes)):
        C = rng.uniform(-1, 1, (sizes[i], sizes[i]))
        P[off[i]:off[i+1], off[i]:off[i+1]] = C @ C.T/sizes[i] + np.eye(sizes[i])
    PP = block_diag_mat([gen.mat_of(P[f:l, f:l]) for f, l in zip(off[:-1], off[1:])])
    methods = {'scipy': ['gmres', 'lgmres', 'gcrotmk', 'minres'] + (['cg', 'bicgstab'] if spd else []),
               'pyamg': ['gmres', 'fgmres'] + (['cg', 'minimal_residual', 'bicgstab', 'cr'] if spd else []),
               'cbc': ['minres'] + (['cg', 'bicg', 'lgmres'] if spd else ['lgmres'])}
    for lib, f in (('scipy', scipy_solve), ('pyamg', pyamg_solve), ('cbc', cbc_solve)):
        for method in rng.permutation(methods[lib])[:2]:
            method = str(method)
            pre = bool(rng.integers(2)) and method not in ('minimal_residual', 'cr')
            guess = rng.uniform(-1, 1, N)*rng.integers(2)
            rec.ctx = '%s %s %s pre=%d' % (lib, method, sizes, pre)
            rec.event(lib)
            rec.event('preconditioned', pre)
            b, x0 = bvec(A @ x, sizes), bvec(guess, sizes)
            kw = dict(restrt=N+2) if (lib, method) == ('scipy', 'gmres') else {}
            if lib == 'pyamg' and method in ('gmres', 'fgmres'):
                kw = dict(restart=N)
            tol = 1E-9
            maxiter = 40*N if lib != 'pyamg' or method not in ('gmres', 'fgmres') else 20
            with contextlib.redirect_stdout(io.StringIO()):
                ok, out = rec.guard('solve_%s' % lib, f, method, AA, b, tol, PP if pre else None, x0, maxiter=maxiter, **kw)
            if not ok:
                continue
            y, res = out
            rec.close(cat(b), A @ x, 'rhs_unchanged')
            rec.check(isinstance(y, block_vec) and [v.size() for v in y] == sizes, 'solution_blocks_%s' % lib)
            y = cat(y)
            r = np.linalg.norm(A @ (y-x))/max(np.linalg.norm(A @ x), np.linalg.norm(A @ (x-guess)))
            rec.check(r < 1E-5, 'residual_%s' % lib, 'relative residual %g' % r)
            if lib != 'cbc':
                rec.close(cat(x0), y, 'solution_in_x0')
            if lib == 'scipy' and method in ('cg', 'minres', 'bicgstab') and len(res):
                rec.check(abs(res[-1] - np.linalg.norm(A @ (y-x))) < 1E-7*np.linalg.norm(x), 'reported_residual',
                          'reported %g, is %g' % (res[-1], np.linalg.norm(A @ (y-x))))
            rec.check(len(res) > 0 and res[-1] <= 1.0001*max(res), 'reported_residual', 'list of %d' % len(res))
            rec.seen(lib, method, len(sizes), pre)
    # operators for scipy
    rec.event('linop')
    rows, cols = ([int(k) for k in rng.integers(1, 8, rng.integers(1, 4))] for _ in range(2))
    if rng.integers(3) == 0:
        cols = rows
    rec.event('rectangular', rows != cols)
    C = rng.uniform(-1, 1, (sum(rows), sum(cols)))
    rec.ctx = 'linop %s x %s' % (rows, cols)
    ok, L = rec.guard('linop', ScipyLinOp, blocks(C, rows, cols, rng, lazy=True))
    if ok:
        rec.check(L.shape == C.shape, 'linop', 'shape')
        for _ in range(2):
            z = rng.uniform(-1, 1, sum(cols))
            ok, y = rec.guard('linop', L.matvec, z)
            ok and rec.close(y, C @ z, 'linop')
    starts(rec, A, AA, x, sizes, spd)
    collapse(rec)
    k = int(rng.integers(1, 9))
    rec.close([v.get_local() for v in Rn_basis(gen.pvec(np.ones(k)))], np.eye(k), 'Rn_basis')
    rec.sample('%s blocks spd=%s' % (sizes, spd))


def starts(rec, A, AA, x, sizes, spd):
    """the better the initial guess, the fewer iterations; a limit on their number is a limit"""
    rng = rec.rng
    b = A @ x
    for lib, f in (('scipy', scipy_solve), ('pyamg', pyamg_solve), ('cbc', cbc_solve)):
        method = str(rng.choice({'scipy': ['minres', 'gmres'], 'pyamg': ['gmres', 'fgmres'], 'cbc': ['minres']}[lib] + ['cg']*spd))
        kw = {'scipy': dict(restrt=len(x)+2), 'pyamg': dict(restart=len(x))}[lib] if 'gmres' in method else {}
        maxiter = [None, 20 if lib == 'pyamg' and kw else 40*len(x)][int(rng.integers(2))]
        counts = []
        for size in (1, 1E-6):
            x0 = bvec(x + size*rng.standard_normal(len(x)), sizes)
            if lib == 'cbc':                               # tolerance is relative to the initial residual
                tol, start = 1E-8, None
            else:
                tol, start = 1E-4, None
            with contextlib.redirect_stdout(io.StringIO()):
                kwm = kw if maxiter is None else dict(kw, maxiter=maxiter)
                if lib == 'cbc' and maxiter is None:
                    kwm = dict(maxiter=200)
                ok, out = rec.guard('solve_%s' % lib, f, method, AA, bvec(b, sizes), tol, None, x0, **kwm)
            if not ok:
                return
            e = np.linalg.norm(A @ (cat(out[0])-x))/np.linalg.norm(b)
            counts.append((len(out[1]), e))
        rec.event('starts')
        if lib == 'cbc':
            # all errors shrink with that of the guess
            rec.check(counts[1][1] < 1E-5, 'initial_guess_cbc', '%s: relative residual %g' % (method, counts[1][1]))
        else:
            rec.check(counts[1][0] <= 2, 'initial_guess_%s' % lib, '%s, maxiter %s: %d iterations from %d with a bad guess' % (
                method, maxiter, counts[1][0], counts[0][0]))
            rec.check(counts[1][1] < 1E-3, 'initial_guess_%s' % lib, '%s: relative residual %g' % (method, counts[1][1]))


def collapse(rec):
    """matrix of an operator known by its action"""
    rng = rec.rng
    rec.event('collapse')
    mesh = df.UnitSquareMesh(int(rng.integers(1, 3)), int(rng.integers(1, 3)))
    V1 = df.FunctionSpace(mesh, 'CG', int(rng.integers(1, 3)))
    V0 = df.FunctionSpace(mesh, 'DG', int(rng.integers(0, 3))) if rng.integers(2) else V1
    A = rng.uniform(-1, 1, (V0.dim(), V1.dim()))*(rng.random((V0.dim(), V1.dim())) < .5)
    M = gen.mat_of(A)
    pooled = bool(rng.integers(2))

    class Op(FESpaceOperator):
        def matvec(self, b):
            if pooled:
                y = self.create_vec(0)
                y.set_local(A @ b.get_local())
                return y
            return M*b
    op = Op(V1) if V0 is V1 and rng.integers(2) else Op(V1, V0)
    rec.ctx = 'collapse %d x %d pooled=%d' % (A.shape + (pooled, ))
    rec.check((op.create_vec(0).size(), op.create_vec(1).size()) == A.shape, 'collapse', 'sizes')
    if rng.integers(2):
        rec.event('recycled')
        x = op.create_vec(1)
        x.set_local(rng.uniform(1, 2, x.size()))
        y = op*x
        rec.close(y.get_local(), A @ x.get_local(), 'collapse', 'action')
        del x, y
    C = op.collapse()
    rec.close(gen.dense(C), A, 'collapse')
    rec.close(gen.dense(op.collapse()), A, 'collapse', 'again')
    z = rng.uniform(-1, 1, V1.dim())
    rec.close((op*gen.pvec(z)).get_local(), (C*gen.pvec(z)).get_local(), 'collapse', 'acts the same')
    rec.seen('collapse', V0 is V1, pooled)
