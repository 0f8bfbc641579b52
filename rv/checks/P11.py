"""Operators that select, regroup and vectorise blocks; block building utilities."""
import gc
import numpy as np
import dolfin as df
from dolfin import inner, dx, TrialFunction, TestFunction, PETScVector, as_backend_type
from block import block_mat, block_vec
from block.algebraic.petsc import LU
from petsc4py import PETSc
import gen
from xii import ii_convert
from xii.linalg.block_utils import (SubSelectOperator, RearangeOperator, ReductionOperator, RegroupOperator, VectorizedOperator,
                                    BlockPC, block_diag_mat)
from xii.linalg.matrix_utils import (block_reshape, diagonal_matrix, identity_matrix, zero_matrix, row_matrix, transpose_matrix)
from xii.linalg.list_utils import shape_list, flatten_list, reshape_list

RULE = ('one case = 1-5 random spaces with a random selection, permutation or grouping; SubSelect/Rearange/Reduction/Regroup/Vectorized operators, their '
        'transposes, compositions with block matrices and BlockPC are applied to random block, nested and monolithic vectors and compared with index '
        'arithmetic on numpy arrays; the sources are then freed and their memory reused before the results are read again; matrix utilities against dense. '
        'key = (operator, blocks, groups). Non-trivial: at least two blocks.')
REQUIRED = {'select': 60, 'rearange': 60, 'reduction': 60, 'regroup': 60, 'vectorized': 60, 'freed': 100, 'monolithic': 50, 'composed': 40,
            'blockpc': 30, 'utils': 60, 'tensor': 5}


def cases(tier, seed):
    return list(range(200 if tier == 'quick' else 1000))


def spaces_of(rng, mesh, n):
    pool = [('CG', 1), ('CG', 2), ('DG', 0), ('DG', 1), ('vCG', 1), ('RT', 1)]
    out = []
    for _ in range(n):
        fam, deg = pool[rng.integers(len(pool))]
        out.append(df.VectorFunctionSpace(mesh, 'CG', deg) if fam == 'vCG' else df.FunctionSpace(mesh, fam, deg))
    return out


def local(v):
    """nested list of numpy arrays of whatever vector"""
    if isinstance(v, block_vec):
        return [local(x) for x in v]
    p = as_backend_type(v).vec()
    if p.getType() == 'nest':
        return np.concatenate([x.array for x in p.getNestSubVecs()] or [np.zeros(0)])
    return np.array(p.array)


def flat(v):
    v = local(v) if not isinstance(v, list) else v
    return np.concatenate([flat(x) if isinstance(x, list) else x for x in v]) if isinstance(v, list) else v


def churn(sizes, rng):
    """reuse freed memory"""
    gc.collect()
    junk = [gen.pvec(rng.uniform(5, 6, s)) for s in sizes for _ in range(6)]
    junk.append([np.full(s, 7.) for s in sizes for _ in range(6)])
    return junk


def same(rec, got, want, oracle, msg=''):
    """nested comparison with shapes"""
    got = local(got)
    if isinstance(want, list):
        if not rec.check(isinstance(got, list) and len(got) == len(want), oracle, '%s: block structure' % msg):
            return
        for g, w in zip(got, want):
            if isinstance(w, list) != isinstance(g, list):
                rec.check(False, oracle, '%s: block structure' % msg)
            elif isinstance(w, list):
                rec.check(len(g) == len(w), oracle, msg)
                for a, b in zip(g, w):
                    rec.close(a, b, oracle, msg)
            else:
                rec.close(g, w, oracle, msg)
    else:
        rec.check(not isinstance(got, list), oracle, '%s: should be one vector' % msg) and rec.close(got, want, oracle, msg)


def rearange(rec, W, dims, mapping, R, oracle):
    rng = rec.rng
    x = [rng.uniform(-1, 1, d) for d in dims]
    want = [np.concatenate([x[i] for i in g]) for g in mapping]
    single = len(mapping) == 1
    b = block_vec([gen.pvec(a) for a in x])
    y = R*b
    same(rec, y, want[0] if single else want, oracle, 'apply')
    same(rec, b, x, oracle, 'input unchanged')
    back = R.T*y
    same(rec, back, x, oracle+'_transpose', 'of the result')
    del b, y
    junk = churn(dims, rng)
    same(rec, back, x, oracle+'_transpose', 'after the input is gone')
    rec.event('freed')
    # monolithic vectors
    rec.event('monolithic')
    m = gen.pvec(np.concatenate(x))
    y = R*as_backend_type(m)
    del m
    junk = churn([sum(dims)], rng)
    same(rec, y, want[0] if single else want, oracle, 'monolithic input')
    parts = [gen.pvec(w) for w in want]
    z = R.T*(parts[0] if single else block_vec(parts))
    same(rec, parts[0] if single else block_vec(parts), want[0] if single else want, oracle+'_transpose', 'input unchanged')
    del parts
    junk = churn([len(w) for w in want]*3, rng)
    rec.event('freed')
    same(rec, z, x, oracle+'_transpose', 'plain vectors, then freed')
    # in compositions: B acts on groups
    rec.event('composed')
    mats = [rng.uniform(-1, 1, (len(w), len(w))) for w in want]
    D = [gen.mat_of(M) for M in mats]
    B = D[0] if single else block_diag_mat(D)
    b = block_vec([gen.pvec(a) for a in x])
    z = R.T*(B*(R*b)) if rng.integers(2) else ((R.T)*B*R)*b
    ref, k = [None]*len(dims), 0
    for M, g, w in zip(mats, mapping, want):
        s = np.split(M @ w, np.cumsum([dims[i] for i in g])[:-1])
        for i, si in zip(g, s):
            ref[i] = si
    junk = churn([len(w) for w in want], rng)
    same(rec, z, ref, oracle+'_composed')
    # sizes for solvers
    v = R.create_vec(1)
    rec.check([u.size() for u in v] == dims, oracle, 'create_vec(1)')
    v = R.create_vec(0)
    rec.check(([u.size() for u in v] if not single else [v.size()]) == [len(w) for w in want], oracle, 'create_vec(0)')
    del junk


def run(rec, case):
    rng = rec.rng
    mesh = df.UnitSquareMesh(int(rng.integers(1, 4)), int(rng.integers(1, 4)))
    n = int(rng.integers(1, 6))
    W = spaces_of(rng, mesh, n)
    dims = [w.dim() for w in W]
    rec.ctx = '%d blocks' % n

    # -- selection
    rec.event('select')
    k = int(rng.integers(1, n+1))
    idx = [int(i) for i in rng.permutation(n)[:k]]
    S = SubSelectOperator(idx[0] if k == 1 and rng.integers(2) else tuple(idx), W)
    x = [rng.uniform(-1, 1, d) for d in dims]
    b = block_vec([gen.pvec(a) for a in x])
    want = [x[i] for i in idx]
    y = S*b
    same(rec, y, want if k > 1 else want[0], 'select', str(idx))
    same(rec, b, x, 'select', 'input unchanged')
    r = [rng.uniform(-1, 1, dims[i]) for i in idx]
    z = S.T*(block_vec([gen.pvec(a) for a in r]) if k > 1 else gen.pvec(r[0]))
    same(rec, z, [r[idx.index(i)] if i in idx else np.zeros(dims[i]) for i in range(n)], 'select_transpose', str(idx))
    rec.seen('select', n, k)

    # -- groups in any order
    rec.event('rearange')
    p = [int(i) for i in rng.permutation(n)]
    cuts = sorted(int(i) for i in rng.choice(np.arange(1, n), rng.integers(0, n), replace=False)) if n > 1 else []
    mapping = tuple(tuple(p[f:l]) for f, l in zip([0]+cuts, cuts+[n]))
    rec.ctx = 'groups %s of %d blocks' % (mapping, n)
    rearange(rec, W, dims, mapping, RearangeOperator(mapping, W), 'rearange')
    rec.seen('rearange', n, len(mapping))

    rec.event('reduction')
    offsets = cuts + [n]
    offsets = tuple(offsets) if rng.integers(2) else offsets
    given = list(offsets)
    mapping = tuple(tuple(range(f, l)) for f, l in zip([0]+cuts, cuts+[n]))
    rec.ctx = 'offsets %s' % (offsets, )
    R = ReductionOperator(offsets, W)
    rec.check(list(offsets) == given, 'reduction', 'offsets of the caller changed')
    rearange(rec, W, dims, mapping, R, 'reduction')
    rec.seen('reduction', n, len(mapping))

    rec.event('regroup')
    G = RegroupOperator(offsets, W)
    b = block_vec([gen.pvec(a) for a in x])
    y = G*b
    want = [x[g[0]] if len(g) == 1 else [x[i] for i in g] for g in mapping]
    same(rec, y, want if len(want) > 1 else want[0], 'regroup')
    if len(want) > 1:
        same(rec, G.T*y, x, 'regroup_transpose')
    rec.seen('regroup', n, len(mapping))

    vectorized(rec, mesh)
    blockpc(rec)
    utilities(rec)
    rec.sample('%d spaces, groups %s' % (n, mapping))


def vectorized(rec, mesh):
    """the same operator for every component, components found by cells"""
    rng = rec.rng
    rec.event('vectorized')
    fam, deg = [('CG', 1), ('CG', 2), ('DG', 0), ('DG', 1), ('CG', 3)][rng.integers(5)]
    V = df.FunctionSpace(mesh, fam, deg)
    kind = str(rng.choice(['list', 'vector', 'vector3', 'tensor']))
    rec.ctx = 'vectorized %s%d %s' % (fam, deg, kind)
    A = rng.uniform(-1, 1, (V.dim(), V.dim()))
    if rng.integers(3) == 0:
        A = df.assemble(inner(TrialFunction(V), TestFunction(V))*dx)
        op, A = LU(A), np.linalg.inv(A.array())
    else:
        op = gen.mat_of(A)
    if kind == 'list':
        k = int(rng.integers(1, 4))
        W = [V]*k
        try:
            T = VectorizedOperator(op, W)
        except Exception as e:
            return rec.exception(e, rec.ctx, key='vectorized')
        x = [rng.uniform(-1, 1, V.dim()) for _ in W]
        ok, y = rec.guard('vectorized', lambda: T*block_vec([gen.pvec(a) for a in x]))
        if ok:
            same(rec, y, [A @ a for a in x], 'vectorized')
        return
    if kind == 'tensor':
        W = df.TensorFunctionSpace(mesh, fam, deg)
        rec.event('tensor')
    else:
        W = df.VectorFunctionSpace(mesh, fam, deg, dim=3 if kind == 'vector3' else 2)
    subs = [W.sub(j).dofmap() for j in range(W.num_sub_spaces())]
    where = np.zeros((len(subs), V.dim()), dtype=int)
    for c in range(mesh.num_cells()):
        for j, s in enumerate(subs):
            where[j, V.dofmap().cell_dofs(c)] = s.cell_dofs(c)
    x, ref = rng.uniform(-1, 1, W.dim()), np.zeros(W.dim())
    for w in where:
        ref[w] = A @ x[w]
    T = VectorizedOperator(op, W)
    b = gen.pvec(x)
    y = T*b
    rec.close(y.get_local(), ref, 'vectorized')
    rec.close(b.get_local(), x, 'vectorized', 'input unchanged')
    # the pool must not hand out a vector in use
    y2 = T*gen.pvec(2*x)
    rec.close(y.get_local(), ref, 'vectorized', 'first result after second application')
    rec.close(y2.get_local(), 2*ref, 'vectorized')
    rec.check(T.create_vec(0).size() == T.create_vec(1).size() == W.dim(), 'vectorized', 'create_vec')
    rec.seen('vectorized', fam, deg, kind)


def blockpc(rec):
    rng = rec.rng
    rec.event('blockpc')
    n = int(rng.integers(2, 12))
    A = rng.uniform(-1, 1, (n, n)) + 3*n*np.eye(n)
    mat = as_backend_type(gen.mat_of(A)).mat()
    pc = PETSc.PC().create()
    pc.setOperators(mat)
    kind = str(rng.choice(['lu', 'jacobi', 'none']))
    pc.setType(kind)
    pc.setUp()
    inv = {'lu': np.linalg.inv(A), 'jacobi': np.diag(1/np.diag(A)), 'none': np.eye(n)}[kind]
    B = BlockPC(pc)
    xs = [rng.uniform(-1, 1, n) for _ in range(3)]
    ys = [B*gen.pvec(x) for x in xs]
    for x, y in zip(xs, ys):
        rec.close(y.get_local(), inv @ x, 'blockpc', kind)
    BB = block_diag_mat([B, B, 2])
    y = BB*block_vec([gen.pvec(x) for x in xs])
    same(rec, y, [inv @ xs[0], inv @ xs[1], 2*xs[2]], 'blockpc', 'in block matrix')


def utilities(rec):
    rng = rec.rng
    rec.event('utils')
    m, n = int(rng.integers(1, 8)), int(rng.integers(1, 8))
    A = rng.uniform(-1, 1, (m, n))*(rng.random((m, n)) < .5)
    M = gen.mat_of(A)
    rec.close(gen.dense(transpose_matrix(M)), A.T, 'transpose_matrix')
    rec.close(gen.dense(M), A, 'transpose_matrix', 'input unchanged')
    rec.close(gen.dense(transpose_matrix(as_backend_type(M).mat())), A.T, 'transpose_matrix')
    Z = zero_matrix(m, n)
    rec.close(gen.dense(Z), np.zeros((m, n)), 'zero_matrix')
    a = float(rng.uniform(-2, 2))
    rec.close(gen.dense(diagonal_matrix(n, a)), a*np.eye(n), 'diagonal_matrix')
    rec.close(gen.dense(diagonal_matrix(n, 3)), 3*np.eye(n), 'diagonal_matrix')
    d = rng.uniform(-1, 1, n)
    rec.close(gen.dense(diagonal_matrix(n, gen.pvec(d))), np.diag(d), 'diagonal_matrix')
    rec.close(gen.dense(identity_matrix(n)), np.eye(n), 'identity_matrix')
    rows = [rng.uniform(-1, 1, n) for _ in range(m)]
    rec.close(gen.dense(row_matrix([gen.pvec(r) for r in rows])), np.array(rows), 'row_matrix')
    mesh = df.UnitIntervalMesh(2)
    W = [df.FunctionSpace(mesh, 'CG', int(k)) for k in rng.integers(1, 4, rng.integers(1, 4))]
    rec.close(gen.dense(identity_matrix(W[0])), np.eye(W[0].dim()), 'identity_matrix')
    rec.close(gen.dense(ii_convert(identity_matrix(W))), np.eye(sum(w.dim() for w in W)), 'identity_matrix')
    # block_reshape
    k = int(rng.integers(2, 6))
    sizes = [int(i) for i in rng.integers(1, 4, k)]
    blocks = [[rng.uniform(-1, 1, (r, c)) for c in sizes] for r in sizes]
    AA = block_mat([[gen.mat_of(B) for B in row] for row in blocks])
    cuts = sorted(int(i) for i in rng.choice(np.arange(1, k), rng.integers(0, k), replace=False))
    groups = [list(range(f, l)) for f, l in zip([0]+cuts, cuts+[k])]
    BB = block_reshape(AA, tuple(cuts+[k]))
    for i, gi in enumerate(groups):
        for j, gj in enumerate(groups):
            want = np.block([[blocks[r][c] for c in gj] for r in gi])
            got = BB[i][j]
            rec.check(isinstance(got, block_mat) == (len(gi)*len(gj) > 1), 'block_reshape', 'structure %s %s' % (gi, gj))
            if isinstance(got, block_mat):
                rec.check(got.blocks.shape == (len(gi), len(gj)), 'block_reshape', 'shape')
                got = ii_convert(got)
            rec.close(gen.dense(got), want, 'block_reshape', '%s %s' % (gi, gj))
    rec.seen('utils', len(groups), k)
    # lists
    shape = tuple(int(i) for i in rng.integers(1, 4, rng.integers(1, 4)))
    a = np.arange(np.prod(shape)).reshape(shape)
    l = a.tolist()
    rec.check(shape_list(l) == shape, 'lists', 'shape of %s' % l)
    rec.check(flatten_list(l) == a.flatten().tolist(), 'lists', 'flatten %s' % l)
    new = tuple(int(i) for i in rng.permutation(shape))
    rec.check(reshape_list(l, new) == a.reshape(new).tolist(), 'lists', 'reshape %s to %s' % (l, new))
    rec.check(l == a.tolist(), 'lists', 'input changed')
