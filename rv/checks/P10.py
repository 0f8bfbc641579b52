"""apply_bc, apply_b, as_block against elimination in dense arithmetic."""
import numpy as np
import dolfin as df
from dolfin import inner, grad, div, dx, TrialFunction, TestFunction, DirichletBC, Constant, Expression
from block import block_mat, block_vec
from petsc4py import PETSc
import gen
from xii import apply_bc, ii_assemble, ii_convert
from xii.linalg.bc_apply import as_block

RULE = ('one case = a block system over 1-4 spaces (assembled saddle point with zero and number blocks, or random blocks) with a set of Dirichlet conditions '
        '(DirichletBC on random facets or points, time dependent values, dictionaries of dofs, overlapping conditions, none), in every accepted format. '
        'apply_bc is compared with row/column elimination in dense arithmetic for both symmetric options and several diagonal values, the inputs are digested, '
        'the returned apply_b is driven through a history of changed boundary values. key = (format, blocks, symmetric). Non-trivial: at least one dof constrained.')
REQUIRED = {'systems': 100, 'nontrivial': 90, 'symmetric': 30, 'rows_only': 30, 'apply_b': 30, 'updates': 60, 'single_matrix': 10, 'dict_bcs': 20,
            'overlap': 10, 'bc_on_zero_block': 10, 'as_block': 40, 'no_bcs': 5, 'magnitudes': 20}


def cases(tier, seed):
    return list(range(240 if tier == 'quick' else 1200))


def system(rec):
    """(blocks for ii_assemble'd or random system, spaces, rhs)"""
    rng = rec.rng
    mesh = df.UnitSquareMesh(int(rng.integers(1, 4)), int(rng.integers(1, 4)))
    pool = [('CG', 1), ('CG', 2), ('DG', 0), ('DG', 1), ('vCG', 1)]
    n = int(rng.integers(1, 5))
    W = []
    for _ in range(n):
        fam, deg = pool[rng.integers(len(pool))]
        W.append(df.VectorFunctionSpace(mesh, 'CG', deg) if fam == 'vCG' else df.FunctionSpace(mesh, fam, deg))
    blocks = [[0]*n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            full = rng.random() < (0.6 if i != j else 0.7)
            must = j == (i+1) % n          # a matrix in each row and column
            if full or must:
                A = rng.uniform(-1, 1, (W[i].dim(), W[j].dim()))*(rng.random((W[i].dim(), W[j].dim())) < .4)
                if i == j and not must and rng.random() < 0.3:
                    u, v = TrialFunction(W[i]), TestFunction(W[i])
                    blocks[i][j] = df.assemble(inner(grad(u), grad(v))*dx + inner(u, v)*dx)
                elif i == j and W[i].dim() == W[j].dim() and not must and rng.random() < .2:
                    blocks[i][j] = float(rng.integers(-2, 3))
                else:
                    blocks[i][j] = gen.mat_of(A)
    dims = [w.dim() for w in W]
    D = np.block([[b*np.eye(dims[i], dims[j]) if isinstance(b, (int, float)) else gen.dense(b) for j, b in enumerate(row)]
                  for i, row in enumerate(blocks)])
    b = [gen.pvec(rng.uniform(-1, 1, d)) for d in dims]
    if rng.integers(3) == 0:
        # units in which every coefficient is tiny or huge
        unit = 10.**int(rng.choice([-11, -6, 6, 10]))
        D = unit*D
        shift = np.cumsum([0]+dims)
        blocks = [[unit*B if isinstance(B, (int, float)) else gen.mat_of(D[shift[i]:shift[i+1], shift[j]:shift[j+1]])
                   for j, B in enumerate(row)] for i, row in enumerate(blocks)]
        rec.event('magnitudes')
    return mesh, W, blocks, D, b


def conditions(rec, mesh, W):
    """per space: list of (bc given to the code, function -> {dof: value} now), handles to change the values"""
    rng = rec.rng
    out, knobs = [], []
    for V in W:
        mine = []
        for _ in range(rng.integers(0, 3)):
            kind = str(rng.choice(['facets', 'dict', 'facets', 'empty'], p=[.45, .3, .2, .05]))
            fam = V.ufl_element().family()
            if kind == 'dict' or fam == 'Discontinuous Lagrange' and kind != 'empty':
                dofs = rng.permutation(V.dim())[:rng.integers(1, max(2, V.dim()//3))]
                d = {int(k): float(rng.uniform(-1, 1)) for k in dofs}
                mine.append(d)
                knobs.append(lambda d=d: d.update({k: float(rng.uniform(-1, 1)) for k in d}))
                rec.event('dict_bcs')
                continue
            facet_f = df.MeshFunction('size_t', mesh, 1, 0)
            if kind == 'facets':
                facet_f.array()[rng.permutation(len(facet_f.array()))[:rng.integers(1, 5)]] = 1
            shape = V.ufl_element().value_shape()
            value = Expression(('a+b*x[0]', 'b-a*x[1]') if shape else 'a+b*x[0]', a=1., b=2., degree=1)
            value.a, value.b = rng.uniform(-1, 1, 2)
            bc = DirichletBC(V, value, facet_f, 1)
            mine.append(bc)

            def change(value=value):
                value.a, value.b = rng.uniform(-1, 1, 2)
            knobs.append(change)
        out.append(mine)
    return out, knobs


def boundary(bcs, W):
    """{global dof: value}, later condition wins"""
    out, shift, clash = {}, 0, False
    for V, mine in zip(W, bcs):
        for bc in mine:
            d = bc if isinstance(bc, dict) else bc.get_boundary_values()
            clash = clash or any(shift+k in out for k in d)
            out.update({shift+k: v for k, v in d.items()})
        shift += V.dim()
    return out, clash


def eliminate(D, b, values, diag, symmetric):
    D, b = D.copy(), b.copy()
    rows = np.array(sorted(values), dtype=int)
    g = np.array([values[r] for r in rows])
    if len(rows):
        if symmetric:
            b -= D[:, rows] @ g
            D[:, rows] = 0
        D[rows] = 0
        D[rows, rows] = diag
        b[rows] = diag*g
    return D, b


def run(rec, case):
    rng = rec.rng
    mesh, W, blocks, D, b = system(rec)
    n, dims = len(W), [w.dim() for w in W]
    bcs, knobs = conditions(rec, mesh, W)
    symmetric, ask = bool(rng.integers(2)), bool(rng.integers(2))
    diag = float(rng.choice([1., 1., 2., -0.5]))
    rec.ctx = '%d blocks %s symmetric=%s diag=%g' % (n, [len(x) for x in bcs], symmetric, diag)
    values, clash = boundary(bcs, W)
    rec.event('systems')
    rec.event('nontrivial', len(values) > 0)
    rec.event('symmetric' if symmetric else 'rows_only')
    rec.event('overlap', clash)
    shift = np.cumsum([0]+dims)
    for i in range(n):
        zero = isinstance(blocks[i][i], (int, float)) and blocks[i][i] == 0
        rec.event('bc_on_zero_block', zero and any(shift[i] <= k < shift[i+1] for k in values))

    # accepted formats
    single = n == 1 and bool(rng.integers(3))
    A = blocks[0][0] if single else block_mat(blocks)
    if single and isinstance(A, (int, float)):
        single, A = False, block_mat(blocks)
    fmt = 'list'
    given = [list(x) for x in bcs]
    if rng.integers(3) == 0:
        given, fmt = {i: x for i, x in enumerate(given) if x}, 'dict'
    elif single:
        given, fmt = list(bcs[0]), 'flat'
        if len(given) == 1 and isinstance(given[0], DirichletBC) and rng.integers(2):
            given, fmt = given[0], 'bare'
    else:
        given = [x[0] if len(x) == 1 and rng.integers(2) else x for x in given]
    if not any(bcs) and rng.integers(3):
        empty = [None, {}, {i: [] for i in range(n)}] + ([] if single else [[[] for _ in range(n)], []])
        given, fmt = empty[int(rng.integers(len(empty)))], 'empty'
    rhs = b[0] if single else block_vec(list(b))
    rec.event('single_matrix', single)
    rec.seen(fmt, 'single' if single else n, symmetric, diag == 1, ask)
    kw = {} if diag == 1 and rng.integers(2) else {'diag_val': diag}
    if not symmetric or rng.integers(2):
        kw['symmetric'] = symmetric
    if ask:
        kw['return_apply_b'] = True
    before = [x.get_local().tobytes() for x in b]
    matrices = [gen.dense(B) for row in blocks for B in row if not isinstance(B, (int, float))]
    no_rhs = rng.integers(8) == 0 and values
    out = apply_bc(A, None if no_rhs else rhs, given, **kw)
    if not rec.check(len(out) == (3 if ask else 2), 'number_of_results', lambda: str(len(out))):
        return
    rec.check([x.get_local().tobytes() for x in b] == before and
              all(np.array_equal(gen.dense(B), m) for B, m in zip((B for row in blocks for B in row if not isinstance(B, (int, float))), matrices)),
              'inputs_unchanged')
    b0 = np.concatenate([x.get_local() for x in b])
    if no_rhs:
        b0[:] = 0
    refA, refb = eliminate(D, b0, values, diag, symmetric)
    A_, b_ = out[:2]
    rec.check(isinstance(A_, block_mat) != single and isinstance(b_, block_vec) != single, 'type_of_results')
    if not values:
        rec.event('no_bcs')
    gotA = gen.dense(ii_convert(A_))
    gotb = b_.get_local() if not isinstance(b_, block_vec) else np.concatenate([x.get_local() for x in b_])
    rec.close(gotA, refA, 'matrix_after_bcs')
    rec.check(np.all(np.abs(gotA - refA) <= 1E-10*np.abs(refA)), 'matrix_after_bcs', 'entries, relative to each')
    rec.close(gotb, refb, 'vector_after_bcs')
    if not single:
        rec.check([x.size() for x in b_] == dims and all(gen.dense(A_[i][j]).shape == (dims[i], dims[j]) for i in range(n) for j in range(n)
                                                        if not isinstance(A_[i][j], (int, float))), 'block_sizes')
    if ask:
        # the right hand side alone, for changed boundary values and loads
        rec.event('apply_b')
        for _ in range(3):
            rec.event('updates')
            for k in knobs:
                k()
            new = [gen.pvec(rng.uniform(-1, 1, d)) for d in dims]
            b1 = np.concatenate([x.get_local() for x in new])
            ok, y = rec.guard('apply_b', out[2], new[0] if single else block_vec(new))
            if ok:
                got = y.get_local() if not isinstance(y, block_vec) else np.concatenate([x.get_local() for x in y])
                rec.close(got, eliminate(D, b1, boundary(bcs, W)[0], diag, symmetric)[1], 'apply_b')

    # splitting a monolithic object
    rec.event('as_block')
    M, v = gen.mat_of(D), gen.pvec(b0)
    sets = [np.arange(lo, hi) for lo, hi in zip(shift[:-1], shift[1:])]
    how = str(rng.choice(['spaces', 'lists', 'arrays', 'permuted', 'IS']))
    if how == 'permuted':
        p = rng.permutation(len(b0))
        sets = np.split(p, np.sort(rng.choice(np.arange(1, len(b0)), min(2, len(b0)-1), replace=False)))
    arg = {'spaces': W, 'lists': [list(map(int, s)) for s in sets], 'IS': [PETSc.IS().createGeneral(np.asarray(s, dtype='int32')) for s in sets]}.get(how, sets)
    for M_ in (M, df.as_backend_type(M).mat(), df.Matrix(M)):
        ok, B = rec.guard('as_block', as_block, M_, arg)
        if ok:
            for i, si in enumerate(sets):
                for j, sj in enumerate(sets):
                    rec.close(gen.dense(B[i][j]), D[np.ix_(si, sj)], 'as_block', '%s (%d, %d)' % (how, i, j))
    for v_ in (v, df.as_backend_type(v).vec(), df.Vector(v)):
        ok, c = rec.guard('as_block', as_block, v_, arg)
        if ok:
            for i, si in enumerate(sets):
                rec.close(c[i].get_local(), b0[si], 'as_block', how)
                c[i].zero()
    rec.close(v.get_local(), b0, 'as_block', 'vector belongs to the caller')
    rec.sample(rec.ctx + ' %s %s: %d dofs' % (fmt, sorted(kw), len(values)))
