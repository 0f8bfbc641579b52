"""ii_convert, ii_collapse, monolithic: the matrix of the expression, checked in dense arithmetic."""
import numpy as np
import dolfin as df
from block import block_mat, block_vec
from block.block_compose import block_transpose, block_mul, block_add, block_sub
from block.algebraic.petsc import Diag, InvDiag, LumpedInvDiag, LU
from block.block_base import block_base
from block.object_pool import vec_pool
import gen
from xii import ii_convert, ii_collapse, set_lg_map
from xii.linalg.convert import block_mat_to_numpy, numpy_to_petsc
from xii.linalg.collapse_iter import monolithic
from xii.linalg.convert import get_dims, bmat_sizes, block_mat_to_petsc
from xii.linalg.matrix_utils import (diagonal_matrix, zero_matrix, row_matrix, identity_matrix, transpose_matrix,
                                     block_reshape)

MAT = (df.Matrix, df.PETScMatrix)

RULE = ('one case = one pool of matrices of three or four sizes (assembled, sparse with empty rows, zero, 1x1, diagonal operators, direct solvers, operators known by their action or able to give their matrix) and a growing set of '
        'lazy expressions over it (sum, difference, negation, product, scaling from either side, zero terms, power, transpose; sub-expressions are shared), '
        'and block systems of such expressions with number blocks. Each is converted by every route and compared with the dense matrix computed alongside. '
        'key = (operation at the root, operations below it). Non-trivial: expression with at least two operations.')
REQUIRED = {'expressions': 400, 'nontrivial': 200, 'shared': 100, 'block_systems': 40, 'number_blocks': 20, 'inputs_unchanged': 100, 'vectors': 40, 'magnitudes': 40, 'operators': 100, 'not_a_matrix': 20}


def cases(tier, seed):
    return list(range(80 if tier == 'quick' else 400))


def op_or(f, cls):
    """the notation if cbc.block has it for the operands (sums have no *), else the object it stands for"""
    def g(a, b):
        try:
            e = f(a, b)
            return e if type(e) is not np.ndarray else cls(a, b)
        except TypeError:
            return cls(a, b)
    return g


add, sub, mul = op_or(lambda a, b: a+b, block_add), op_or(lambda a, b: a-b, block_sub), op_or(lambda a, b: a*b, block_mul)


class Action(block_base):
    """an operator that is known by what it does"""
    def __init__(self, A, recycle):
        # (the matrix is not kept under a name the library looks for)
        self.secret, self.recycle = A, recycle

    def matvec(self, b):
        y = self.create_vec(dim=0) if self.recycle else df.Vector(df.MPI.comm_world, self.secret.shape[0])
        y.set_local(self.secret @ b.get_local())
        return y

    @vec_pool
    def create_vec(self, dim=1):
        return df.Vector(df.MPI.comm_world, self.secret.shape[dim])


class Collapsible(Action):
    """... that can be asked for its matrix"""
    def collapse(self):
        return gen.mat_of(self.secret)


class Known(Action):
    """... that carries its matrix"""
    def __init__(self, A):
        Action.__init__(self, A, False)
        self.matrix = gen.mat_of(A)


class Pool:
    def __init__(self, rec):
        self.rec, self.rng = rec, rec.rng
        rng = rec.rng
        self.sizes = [int(s) for s in rng.choice(np.arange(1, 9), rng.integers(2, 5), replace=False)]
        self.leaves, self.exprs = [], []
        self.bound = {}              # id of dense matrix -> same expression of absolute values, for rounding
        for m in self.sizes:
            for n in self.sizes:
                for kind in rng.choice(['dense', 'sparse', 'zero', 'skip'], 2, p=[.4, .4, .1, .1]):
                    if kind != 'skip':
                        A = rng.integers(-3, 4, (m, n)).astype(float)*(1. if kind == 'dense' else 0. if kind == 'zero' else rng.random((m, n)) < .3)
                        self.leaf(gen.mat_of(A), A, kind)
            D = np.diag(rng.integers(1, 4, m).astype(float)) + np.triu(rng.integers(-2, 3, (m, m)), 1)
            M = gen.mat_of(D)
            self.leaf(Diag(M), np.diag(np.diag(D)), 'Diag')
            self.leaf(InvDiag(M), np.diag(1/np.diag(D)), 'InvDiag')
            self.leaf(LumpedInvDiag(M), np.diag(1/np.abs(D).sum(axis=1)), 'LumpedInvDiag')
            U = np.eye(m) + np.triu(rng.integers(-1, 2, (m, m)), 1)
            self.leaf(LU(gen.mat_of(U)), np.linalg.inv(U), 'LU')
            # (solved with rounding relative to the whole row)
            self.bound[id(self.leaves[-1][1])] = np.abs(np.linalg.inv(U)) @ np.abs(U) @ np.abs(np.linalg.inv(U)) + np.finfo(float).eps
        for m in self.sizes:
            n = int(rng.choice(self.sizes))
            A = rng.integers(-3, 4, (m, n)).astype(float)
            X = [Action(A, False), Action(A, True), Collapsible(A, False), Known(A)][rng.integers(4)]
            self.leaf(X, A, 'operator')
        mesh = df.UnitIntervalMesh(int(rng.integers(2, 5)))
        V, Q = df.FunctionSpace(mesh, 'CG', 1), df.FunctionSpace(mesh, 'DG', 0)
        for X, Y in ((V, V), (V, Q), (Q, V)):
            A = df.assemble(df.inner(df.TrialFunction(X), df.TestFunction(Y))*df.dx)
            self.leaf(A, A.array(), 'assembled')
        self.exprs = [(e, r, (k,)) for e, r, k in self.leaves]

    def leaf(self, A, ref, kind):
        if kind in ('dense', 'sparse') and self.rng.integers(6) == 0:
            # coefficients in physical units: tiny and huge meet in one expression
            unit = 2.**int(self.rng.choice([-40, -20, 20]))
            A, ref = gen.mat_of(unit*ref), unit*ref
            self.rec.event('magnitudes')
        self.leaves.append((A, ref, kind))
        self.bound[id(ref)] = np.abs(ref)

    def pick(self, ok=lambda r: True):
        pool = [x for x in self.exprs if ok(x[1])]
        # recent ones more often: depth and shared sub-expressions
        k = len(pool)
        if not k:
            return None
        return pool[int(k*np.sqrt(self.rng.random()))]

    def grow(self):
        rng = self.rng
        op = str(rng.choice(['add', 'sub', 'mul', 'mul', 'lscale', 'rscale', 'T', 'T', 'neg', 'plus0', '0plus', 'minus0', '0minus', 'pow', 'same']))
        X, x, kx = self.pick()
        bx = self.bound[id(x)]
        lazy = not isinstance(X, MAT)
        c = float(rng.choice([-2, -1, 0, 0.5, 1, 3, 2.**-30])) if rng.integers(2) else int(rng.choice([-2, -1, 0, 2]))
        if op in ('add', 'sub'):
            Y, y, ky = self.pick(lambda r: r.shape == x.shape)
            e, r = (add(X, Y), x + y) if op == 'add' else (sub(X, Y), x - y)
            kx, bound = kx + ky, bx + self.bound[id(y)]
        elif op == 'same':
            bound = 2*bx
            e, r = (add(X, X), 2*x) if rng.integers(2) else (sub(X, mul(0.5, X)), 0.5*x)
        elif op == 'mul':
            Y, y, ky = self.pick(lambda r: r.shape[0] == x.shape[1]) or (None, None, None)
            if Y is None:
                return
            e, r, kx = mul(X, Y), x @ y, kx + ky
            bound = bx @ self.bound[id(y)]
        elif op == 'lscale':
            e, r, bound = mul(c, X), c*x, abs(c)*bx
        elif op == 'rscale':
            e, r, bound = mul(X, c), c*x, abs(c)*bx
        elif op == 'T':
            e, r, bound = block_transpose(X), x.T, bx.T
        elif op == 'neg':
            e, r, bound = -X, -x, bx
        elif op == 'plus0':
            e, r, bound = add(X, 0), x, bx
        elif op == '0plus':
            e, r, bound = add(0, X), x, bx
        elif op == 'minus0':
            e, r, bound = sub(X, 0), x, bx
        elif op == '0minus':
            e, r, bound = sub(0, X), -x, bx
        elif op == 'pow':
            if not lazy or x.shape[0] != x.shape[1] or not hasattr(X, '__pow__'):
                return
            p = int(rng.integers(1, 4))
            e, r, bound = X**p, np.linalg.matrix_power(x, p), np.linalg.matrix_power(bx, p)
        if np.max(bound, initial=0) > 1E12 or len(kx) > 40:
            return
        if isinstance(e, MAT):
            self.rec.event('eager')
        r = np.array(r)
        self.bound[id(r)] = bound
        self.exprs.append((e, r, kx + (op, )))
        return self.exprs[-1]


def same(rec, A, ref, oracle, msg='', bound=None):
    if isinstance(A, (int, float)):
        return rec.check(False, oracle, 'number %s' % msg)
    if bound is not None:
        # as accurate as the arithmetic in every entry, not only relative to the largest
        got = gen.dense(A)
        err = np.abs(got - ref) if got.shape == ref.shape else np.full(ref.shape, np.inf)
        return rec.check(np.all(err <= 1E-12*bound), oracle, lambda: '%s: off by %g, entry of size %g' % (msg, err.max(), bound.flat[np.argmax(err)]))
    rec.close(gen.dense(A), ref, oracle, msg, rtol=1E-10, atol=1E-10)


def snapshot(pool):
    out = []
    for A, _, _ in pool.leaves:
        if isinstance(A, MAT):
            out.append(gen.dense(A).tobytes())
        elif hasattr(A, 'v'):
            out.append(A.v.array.tobytes())
        elif hasattr(A, 'secret'):
            out.append(A.secret.tobytes() + (gen.dense(A.matrix).tobytes() if hasattr(A, 'matrix') else b''))
        else:
            out.append(gen.dense(A.A).tobytes())
    return out


def expressions(rec, pool):
    for _ in range(30):
        x = pool.grow()
        if x is None:
            continue
        e, ref, kinds = x
        rec.ctx = ' '.join(kinds)[-160:]
        rec.event('expressions')
        ops = [k for k in kinds if k in ('add', 'sub', 'mul', 'lscale', 'rscale', 'T', 'neg', 'plus0', '0plus', 'minus0', '0minus', 'pow', 'same')]
        rec.event('nontrivial', len(ops) > 1)
        rec.event('shared', 'same' in ops or 'pow' in ops)
        rec.event('operators', 'LU' in kinds or 'operator' in kinds)
        rec.seen(ops[-1], *sorted(set(ops[:-1]))[:3])
        before = snapshot(pool)
        routes = {}
        for name, f in (('ii_convert', ii_convert), ('ii_collapse', ii_collapse), ('monolithic', monolithic)):
            ok, A = rec.guard(name, f, e)
            if ok:
                same(rec, A, ref, name, bound=pool.bound[id(ref)])
                routes[name] = A
        v = rec.rng.integers(-3, 4, ref.shape[1]).astype(float)
        if routes:
            y = (list(routes.values())[0]*gen.pvec(v)).get_local()
            rec.close(y, ref @ v, 'action')
        if not isinstance(e, (int, float)):
            ok, d = rec.guard('get_dims', get_dims, e)
            rec.check(not ok or tuple(d) == ref.shape, 'get_dims', lambda: '%s, not %s' % (d, ref.shape))
        rec.check(snapshot(pool) == before, 'inputs_unchanged')
        rec.event('inputs_unchanged')


def block_system(rec, pool):
    rng = rec.rng
    nr, nc = rng.integers(1, 5, 2)
    if rng.integers(2):
        nc = nr
    rows = [int(s) for s in rng.choice(pool.sizes, nr)]
    cols = rows[:] if nr == nc and rng.integers(3) else [int(s) for s in rng.choice(pool.sizes, nc)]
    blocks, ref = [[0]*nc for _ in range(nr)], [[np.zeros((m, n)) for n in cols] for m in rows]
    fixed_row, fixed_col = set(), set()
    for i in rng.permutation(nr):
        for j in rng.permutation(nc):
            must = i not in fixed_row or j not in fixed_col
            if not must and rng.random() < 0.4:
                if rows[i] == cols[j] and rng.integers(2):
                    c = rng.choice([1., -2., 0.5, 3.])
                    c = float(c) if rng.integers(2) else int(2*c)
                    blocks[i][j], ref[i][j] = c, c*np.eye(rows[i])
                    rec.event('number_blocks')
                    rec.event('number_blocks_off_diagonal', i != j)
                continue
            x = pool.pick(lambda r: r.shape == (rows[i], cols[j]))
            if x is None or x[2] == ('zero',):
                if not must:
                    continue
                A = rng.integers(-3, 4, (rows[i], cols[j])).astype(float)
                x = gen.mat_of(A), A, ('new',)
            blocks[i][j], ref[i][j] = x[0], x[1]
            fixed_row.add(i)
            fixed_col.add(j)
    rec.event('block_systems')
    rec.ctx = 'blocks %s x %s' % (rows, cols)
    rec.seen('block', nr, nc, sum(isinstance(b, (int, float)) for r in blocks for b in r))
    R = np.block(ref)
    AA = block_mat(blocks)
    before = snapshot(pool)
    ok, sizes = rec.guard('bmat_sizes', bmat_sizes, AA)
    rec.check(not ok or tuple(map(tuple, sizes)) == (tuple(rows), tuple(cols)), 'bmat_sizes', lambda: str(sizes))
    ok, A = rec.guard('block_ii_convert', ii_convert, AA)
    if ok:
        same(rec, A, R, 'block_ii_convert')
        x = rng.integers(-3, 4, R.shape[1]).astype(float)
        rec.close((A*gen.pvec(x)).get_local(), R @ x, 'block_action')
        bx = block_vec([gen.pvec(xi) for xi in np.split(x, np.cumsum(cols)[:-1])])
        rec.close(ii_convert(bx).get_local(), x, 'block_vector')
        rec.check(tuple(bmat_sizes(bx)) == tuple(cols), 'bmat_sizes', 'vector')
        rec.event('vectors')
        # rows can be addressed after conversion (what boundary conditions do)
        lg = df.as_backend_type(A).mat().getLGMap()
        rec.check(lg[0].getSize() == R.shape[0] and lg[1].getSize() == R.shape[1] and
                  np.array_equal(lg[0].indices, np.arange(R.shape[0])), 'local_to_global_map')
        # the result belongs to the caller
        A.mat().zeroEntries()
    rec.check(snapshot(pool) == before, 'inputs_unchanged')
    ok, A = rec.guard('monolithic_blocks', monolithic, AA)
    if ok:
        same(rec, A, R, 'monolithic_blocks')
    ok, BB = rec.guard('block_matrices', ii_convert, AA, '')
    if ok:
        good = rec.check(isinstance(BB, block_mat) and BB.blocks.shape == (nr, nc), 'block_matrices')
        for i in range(nr if good else 0):
            for j in range(nc):
                same(rec, BB[i][j], ref[i][j], 'block_matrices', '(%d, %d)' % (i, j))
        if good and rng.integers(3) == 0:
            same(rec, block_mat_to_petsc(BB), R, 'block_mat_to_petsc')
    # a number that cannot be a multiple of identity is refused
    wrong = [(i, j) for i in range(nr) for j in range(nc) if rows[i] != cols[j]
             and any(not isinstance(blocks[i][k], (int, float)) for k in range(nc) if k != j)
             and any(not isinstance(blocks[k][j], (int, float)) for k in range(nr) if k != i)]
    if wrong:
        i, j = wrong[rng.integers(len(wrong))]
        bad = [list(r) for r in blocks]
        bad[i][j] = 2.
        rec.raises(Exception, 'number_in_rectangular_block_is_refused', lambda: ii_convert(block_mat(bad)))


def utilities(rec, pool):
    rng = rec.rng
    rec.ctx = 'matrix utilities'
    m, n = (int(x) for x in rng.integers(1, 9, 2))
    same(rec, zero_matrix(m, n), np.zeros((m, n)), 'zero_matrix')
    c = float(rng.integers(-3, 4))
    same(rec, diagonal_matrix(m, c), c*np.eye(m), 'diagonal_matrix')
    d = rng.integers(-3, 4, m).astype(float)
    same(rec, diagonal_matrix(m, gen.pvec(d)), np.diag(d), 'diagonal_matrix')
    same(rec, identity_matrix(m), np.eye(m), 'identity_matrix')
    mesh = df.UnitIntervalMesh(m)
    W = [df.FunctionSpace(mesh, 'CG', 1), df.FunctionSpace(mesh, 'DG', 0)]
    same(rec, identity_matrix(W[0]), np.eye(m+1), 'identity_matrix')
    same(rec, ii_convert(identity_matrix(W)), np.eye(2*m+1), 'identity_matrix')
    rows = rng.integers(-3, 4, (m, n)).astype(float)
    same(rec, row_matrix([gen.pvec(r) for r in rows]), rows, 'row_matrix')
    A = rng.integers(-3, 4, (m, n)).astype(float)
    same(rec, transpose_matrix(gen.mat_of(A)), A.T, 'transpose_matrix')
    same(rec, transpose_matrix(df.as_backend_type(gen.mat_of(A)).mat()), A.T, 'transpose_matrix')
    # grouping of rows and columns
    k = int(rng.integers(2, 6))
    cuts = np.r_[np.sort(rng.choice(np.arange(1, k), rng.integers(0, k), replace=False)) if k > 1 else [], k].astype(int)
    mats = [[gen.mat_of(np.full((1, 1), 10.*i+j+1)) for j in range(k)] for i in range(k)]
    BB = block_reshape(block_mat(mats), [int(c) for c in cuts])
    lo = np.r_[0, cuts[:-1]]
    full = np.array([[10.*i+j+1 for j in range(k)] for i in range(k)])
    for a, (i0, i1) in enumerate(zip(lo, cuts)):
        for b, (j0, j1) in enumerate(zip(lo, cuts)):
            block = BB[a][b]
            same(rec, ii_convert(block) if isinstance(block, block_mat) else block, full[i0:i1, j0:j1], 'block_reshape', str(cuts))
    AA = set_lg_map(block_mat([[gen.mat_of(A), 0], [0, gen.mat_of(A.T)]]))
    rec.check(isinstance(AA, block_mat) and AA.blocks.shape == (2, 2) and AA[0][1] == 0, 'set_lg_map')
    same(rec, AA[0][0], A, 'set_lg_map')
    # a number that is not zero is not ignored in sums (no matrix is the only other answer)
    A = rng.integers(-3, 4, (m, n)).astype(float)
    c = float(rng.choice([-2, -1E-3, 1E-3, 1]))
    e, ref = [(block_add(c, gen.mat_of(A)), A), (block_add(gen.mat_of(A), c), A), (block_sub(c, gen.mat_of(A)), -A), (block_sub(gen.mat_of(A), c), A)][rng.integers(4)]
    for name, f in (('ii_convert', ii_convert), ('monolithic', monolithic)):
        rec.event('not_a_matrix')
        try:
            got = gen.dense(f(e))
        except Exception:
            continue
        rec.check(got.shape != ref.shape or np.abs(got - ref).max() > 1E-6, 'number_in_sum_is_not_ignored', lambda: '%s, %g and matrix %s' % (name, c, A.shape))
    # to and from numpy
    same(rec, numpy_to_petsc(A), A, 'numpy_to_petsc')
    rec.close(numpy_to_petsc(d.copy()).get_local(), d, 'numpy_to_petsc')
    B = block_mat([[gen.mat_of(A), 0], [0, gen.mat_of(A.T)]])
    got = block_mat_to_numpy(B).toarray()
    rec.close(got, np.block([[A, np.zeros((m, m))], [np.zeros((n, n)), A.T]]), 'block_mat_to_numpy')
    # numbers, vectors and matrices are what they are
    rec.check(ii_convert(2.5) == 2.5 and monolithic(3) == 3, 'terminals')
    v = gen.pvec(d)
    rec.close(ii_convert(v).get_local(), d, 'terminals')
    rec.close(monolithic(block_vec([v, v])).get_local(), np.r_[d, d], 'terminals')


def run(rec, case):
    pool = Pool(rec)
    expressions(rec, pool)
    for _ in range(6):
        block_system(rec, pool)
    utilities(rec, pool)
    rec.sample('sizes %s, %d expressions, e.g. %s' % (pool.sizes, len(pool.exprs)-len(pool.leaves), ' '.join(pool.exprs[-1][2])))
