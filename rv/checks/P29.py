"""Requests outside of what is defined are refused and change nothing."""
import traceback
import numpy as np
import dolfin as df
from dolfin import inner, TrialFunction, TestFunction, Measure
from block import block_mat, block_vec
import gen, spaces
from xii import (EmbeddedMesh, SubDomainMesh, OverlapMesh, Restriction, Injection, TransposeTrace, Trace, Average, FluxAverage, CellPatchAverage,
                 PointTrace, Mean, OuterNormal, InnerNormal, ii_assemble, ii_convert, apply_bc, ii_Function)
from xii import Extension
from xii.assembler.average_shape import Circle, Disk, Square, SquareRim
from xii.assembler.block_form import block_form, make_selfadjoint, permute
from xii.nonlin.jacobian import ii_derivative, block_jacobian
from xii.linalg.krylov_api import scipy_solve, pyamg_solve
from xii.linalg.nest import nest
from xii.linalg.convert import get_dims, bmat_sizes
from xii.assembler.surface_mean_form import SurfaceMean
from xii.assembler.interpolation_matrix import interpolation_mat
from xii.meshing.mortar_mesh import mortar_meshes
from xii.meshing.transfer_markers import transfer_markers
from xii.meshing.union_mesh import union_mesh
from xii.meshing.embedded_mesh import TangentCurve, NormalCurve, Skeleton, wind_number
from xii.meshing.branching import color_branches, walk_vertices, is_loop
from xii.meshing import branching
from xii.meshing.dual_mesh import dual_mesh
from xii.meshing.cell_centers import CellCircumcenter
from xii.meshing.dg_utils import pcws_constant, orient_facet_normal
from xii.meshing.gmsh_interopt import build_mesh
from xii.linalg.block_utils import ReductionOperator, RegroupOperator

RULE = ('case = (area, seed): a family of requests of one area (reductions, reductions of other kind, meshes, curves, linear algebra) '
        'on random meshes. Valid requests are served before, between and after requests that are not defined; every undefined '
        'one must raise, and the valid ones must give the same numbers all along, with coordinates, cells, markers and vectors untouched. '
        'key = area/request.')
REQUIRED = {'refused': 200, 'served_again': 80, 'reductions': 3, 'spaces': 3, 'meshes': 3, 'curves': 3, 'algebra': 3, 'shapes': 3, 'forms': 3}
ASSUMPTIONS = ['any exception is a refusal; Python runs without -O']


def cases(tier, seed):
    n = 3 if tier == 'quick' else 20
    rng = np.random.default_rng([seed, 129])
    out = [(area, d) for _ in range(n) for area in AREAS for d in (2, 3)]
    return [out[i] for i in rng.permutation(len(out))]


def value(x):
    if isinstance(x, tuple):
        return tuple(map(value, x))
    if isinstance(x, df.Mesh):
        return (x.coordinates().copy(), x.cells().copy())
    if hasattr(x, 'size') and not isinstance(x, np.ndarray) and not np.isscalar(x):
        return x.get_local() if isinstance(x, df.GenericVector) else gen.dense(x)
    return np.asarray(x)


def same(a, b):
    if isinstance(a, tuple):
        return len(a) == len(b) and all(map(same, a, b))
    return a.shape == b.shape and np.allclose(a, b, rtol=1E-13, atol=1E-14)


def state(mesh):
    """Geometry, cells and what is known about parents"""
    maps = {k: [sorted(m[d].items()) for d in sorted(m)] for k, m in getattr(mesh, 'parent_entity_map', {}).items()}
    mf = getattr(mesh, 'marking_function', None)
    return gen.mesh_state(mesh), maps, None if mf is None else mf.array().tolist()


def form(red, Q, mesh):
    return ii_assemble(inner(red, TestFunction(Q))*Measure('dx', domain=mesh))


def setup(rec, dim):
    rng = rec.rng
    box = gen.Box(rng, dim, n=3 if dim == 2 else 2, keep=[(0, 0.5)])
    mesh = box.mesh
    ff = gen.mesh_function(mesh, dim-1)
    inner_ = box.facets_where(lambda r: gen.near(r[0], 0 if dim == 2 else 0.5))
    outer = box.facets_where(lambda r: gen.near(r[1], 1))
    ff.array()[inner_] = 1
    ff.array()[outer] = 3
    cf = gen.mesh_function(mesh, dim, values=rng.choice([1, 2, 4], mesh.num_cells()))
    cf.array()[:3] = [1, 2, 4]
    return rng, box, mesh, ff, cf


def reductions(rec, dim):
    rng, box, mesh, ff, cf = setup(rec, dim)
    other = gen.Box(rng, dim, n=2).mesh
    gamma, sub = EmbeddedMesh(ff, [1, 3]), EmbeddedMesh(cf, 1)
    apart = EmbeddedMesh(gen.mesh_function(other, dim, values=[1]*other.num_cells()), 1)
    V, W = spaces.space(mesh, 'CG2'), spaces.space(mesh, 'vCG1')
    D, Y = spaces.space(mesh, 'DG1'), spaces.space(mesh, 'RT1')
    f, g, d = gen.randfun(rng, V), gen.randfun(rng, W), gen.randfun(rng, D)
    Q, P = spaces.space(gamma, 'DG1'), spaces.space(sub, 'DG1')
    n0 = df.Function(df.VectorFunctionSpace(gamma, 'DG', 0, dim))
    n0.vector()[:] = 1.
    n1 = df.interpolate(df.Constant((1., )*dim), df.VectorFunctionSpace(gamma, 'CG', 1, dim))
    edges = gen.mesh_function(mesh, 1)
    edges.array()[rng.choice(len(edges.array()), 4, replace=False)] = 1
    line = EmbeddedMesh(edges, 1)
    good = [lambda: form(Trace(f, gamma, tag=3), Q, gamma), lambda: form(Restriction(f, sub), P, sub),
            lambda: form(Trace(d, gamma), Q, gamma)]
    bad = {
        'trace_side': lambda: form(Trace(f, gamma, str(rng.choice(['plus', 'x', '+-', 'mean'])), n0), Q, gamma),
        'trace_no_normal': lambda: form(Trace(d, gamma, str(rng.choice(['+', '-', 'avg', 'jump']))), Q, gamma),
        'trace_normal_not_cellwise': lambda: form(Trace(d, gamma, '+', n1), Q, gamma),
        'trace_tag': lambda: form(Trace(f, gamma, tag=int(rng.choice([0, 2, 7]))), Q, gamma),
        'trace_some_tags': lambda: form(Trace(f, gamma, tag=[1, 5]), Q, gamma),
        'trace_to_cells': lambda: form(Trace(f, sub), P, sub),
        'trace_expression': lambda: form(Trace(2*f, gamma), Q, gamma),
        'trace_gradient': lambda: form(Trace(df.grad(f)[0], gamma), Q, gamma),
        'restriction_to_facets': lambda: form(Restriction(f, gamma), Q, gamma),
        'restriction_elsewhere': lambda: form(Restriction(f, apart), spaces.space(apart, 'DG1'), apart),
        'restriction_expression': lambda: form(Restriction(-f, sub), P, sub),
        'restriction_to_parent_mesh': lambda: form(Restriction(gen.randfun(rng, P), other), spaces.space(other, 'DG1'), other),
        'injection_project': lambda: form(Injection(f, other, not_nested_method='project'), spaces.space(other, 'DG1'), other),
        'injection_method': lambda: Injection(f, other, not_nested_method='closest'),
        'injection_to_facets': lambda: Injection(f, gamma),
        'flux_of_scalar': lambda: form(FluxAverage(TrialFunction(V), line, Square(np.full(dim, .01), 2)), spaces.space(line, 'DG0'), line),
        'flux_of_function': lambda: form(FluxAverage(g, line, Circle(0.1, 4)), spaces.space(line, 'DG0'), line),
        'flux_no_shape': lambda: FluxAverage(TrialFunction(W), line, None),
        'average_DG_no_shape': lambda: form(Average(d, line, None), spaces.space(line, 'DG0'), line) if dim == 3 else Average(d, sub, None),
        'average_onto_cells': lambda: Average(f, sub, Circle(0.1, 4)),
        'mean_of_vector': lambda: Mean(g, gamma, 1),
        'mean_of_expression': lambda: Mean(f+f, sub),
        'transpose_trace_no_map': lambda: TransposeTrace(gen.randfun(rng, Q), df.Mesh(gamma)),
        'transpose_trace_elsewhere': lambda: TransposeTrace(gen.randfun(rng, Q), gamma, other),
        'transpose_trace_expression': lambda: TransposeTrace(2*gen.randfun(rng, Q), gamma),
    }
    return good, bad, [mesh, other, gamma, sub], [f, g, d], [ff, cf]


def spaces_(rec, dim):
    rng, box, mesh, ff, cf = setup(rec, dim)
    other = df.Mesh(mesh)
    els = {e: spaces.space(mesh, e) for e in ('CG1', 'vCG1', 'DG0', 'RT1', 'CR1')}
    R = spaces.space(mesh, 'R0')
    f = gen.randfun(rng, els['CG1'])
    cells = mesh.cells()
    c = int(rng.integers(len(cells)))
    v = int(rng.choice(cells[c]))
    off = int(rng.choice(np.setdiff1d(np.arange(mesh.num_vertices()), cells[c])))
    r = TestFunction(R)
    line = df.UnitIntervalMesh(5)
    L = df.FunctionSpace(line, 'DG', 1)
    l = gen.randfun(rng, L)
    rl = TestFunction(df.FunctionSpace(line, 'R', 0))
    lv = int(rng.integers(1, 5))
    at = lambda k: int(np.where((line.cells() == k).any(axis=1))[0][0])
    far = int(np.where(~(line.cells() == lv).any(axis=1))[0][0])
    q = TestFunction(els['CG1'])
    H = els['CG1']
    bc = lambda k: [df.DirichletBC(H, df.Constant(1), 'on_boundary')]*k
    u = TrialFunction(H)
    A = block_mat([[df.assemble(u*q*df.dx), 0], [0, df.assemble(2*u*q*df.dx)]])
    b = block_vec([df.assemble(q*df.dx), df.assemble(3*q*df.dx)])
    S = [els['CG1'], els['DG0']]
    good = [lambda: ii_assemble(PointTrace(f, point=v, cell=c)*r*df.dx), lambda: interpolation_mat(els['CG1'], els['DG0']),
            lambda: ii_assemble(PointTrace(l, point=lv, cell=at(lv))*rl*df.dx),
            lambda: ii_convert(apply_bc(A, b, [bc(1), []])[0])]
    bad = {
        'point_not_in_cell': lambda: ii_assemble(PointTrace(f, point=off, cell=c)*r*df.dx),
        'point_not_in_line_cell': lambda: ii_assemble(PointTrace(l, point=lv, cell=far)*rl*df.dx),
        'point_as_coordinates': lambda: PointTrace(f, point=tuple(mesh.coordinates()[v]), cell=c),
        'point_of_DG_in_the_plane': lambda: ii_assemble(PointTrace(gen.randfun(rng, els['DG0']), point=v, cell=c)*r*df.dx),
        'point_of_RT': lambda: PointTrace(TrialFunction(els['RT1']), point=v, cell=c),
        'point_of_CR': lambda: PointTrace(TrialFunction(els['CR1']), point=v, cell=c),
        'point_of_expression': lambda: PointTrace(2*f, point=v, cell=c),
        'interpolation_shapes': lambda: interpolation_mat(els['CG1'], els['vCG1']),
        'interpolation_shapes_': lambda: interpolation_mat(els['RT1'], els['CG1']),
        'interpolation_meshes': lambda: interpolation_mat(els['CG1'], spaces.space(other, 'CG1')),
        'bc_missing': lambda: apply_bc(A, b, [bc(1)]),
        'bc_too_many': lambda: apply_bc(A, b, [bc(1), [], bc(1)]),
        'bc_no_such_block': lambda: apply_bc(A, b, {2: bc(1)}),
        'bc_negative_block': lambda: apply_bc(A, b, {-1: bc(1)}),
        'bc_not_list': lambda: apply_bc(A, b, {0: bc(1)[0]}),
        'bc_rhs_short': lambda: apply_bc(A, block_vec([b[0]]), [bc(1), []]),
        'function_short': lambda: ii_Function(S, [gen.randfun(rng, S[0])]),
        'function_swapped': lambda: ii_Function(S, [gen.randfun(rng, S[1]), gen.randfun(rng, S[0])]),
        'function_other_mesh': lambda: ii_Function(S, [gen.randfun(rng, spaces.space(other, 'CG1')), gen.randfun(rng, S[1])]),
        'function_vectors_swapped': lambda: ii_Function(S, [gen.randfun(rng, w).vector() for w in S[::-1]]),
        'function_index': lambda: ii_Function(S)[2],
    }
    return good, bad, [mesh, other], [f, l], [ff, cf]


def meshes(rec, dim):
    rng, box, mesh, ff, cf = setup(rec, dim)
    other = gen.Box(rng, dim, n=2).mesh
    shifted = gen.clone(mesh)
    shifted.coordinates()[:] += 0.123
    ffs = gen.mesh_function(shifted, dim-1, values=ff.array())
    gamma, sub = EmbeddedMesh(ff, [1, 3]), EmbeddedMesh(cf, [1, 2])
    s1, s2, s3 = SubDomainMesh(cf, [1, 2]), SubDomainMesh(cf, [2, 4]), SubDomainMesh(cf, [1, 2, 4])
    s4 = SubDomainMesh(cf, 4)
    moved = SubDomainMesh(gen.mesh_function(shifted, dim, values=cf.array()), [2, 4])
    vf = gen.mesh_function(mesh, 0, values=[1]*mesh.num_vertices())
    of = gen.mesh_function(other, 0, values=[1]*other.num_vertices())
    oc = gen.mesh_function(other, dim, values=[1]*other.num_cells())
    good = [lambda: EmbeddedMesh(ff, [1, 3]), lambda: OverlapMesh(s1, s2), lambda: OuterNormal(gamma, np.zeros(dim)).vector(),
            lambda: transfer_markers(sub, ff), lambda: sub.translate_markers(ff, 1),
            lambda: tuple(mortar_meshes(cf, [1, 2], strict=False)[0])]
    bad = {
        'embedded_vertices': lambda: EmbeddedMesh(vf, 1),
        'embedded_no_marker': lambda: EmbeddedMesh(ff, []),
        'subdomain_of_facets': lambda: SubDomainMesh(ff, 1),
        'overlap_none': lambda: OverlapMesh(SubDomainMesh(cf, 1), s4),
        'overlap_two_tags': lambda: OverlapMesh(s1, s3),
        'overlap_not_subdomain': lambda: OverlapMesh(EmbeddedMesh(cf, [1, 2]), s2),
        'overlap_not_subdomain_': lambda: OverlapMesh(s1, mesh),
        'overlap_moved': lambda: OverlapMesh(s1, moved),
        'embedding_moved': lambda: gamma.compute_embedding(ffs, [1, 3]),
        'embedding_absent_tag': lambda: gamma.compute_embedding(gen.mesh_function(shifted, dim-1), 1),
        'embedding_of_cells': lambda: gamma.compute_embedding(gen.mesh_function(shifted, dim, values=[1]*mesh.num_cells()), 1),
        'embedding_known': lambda: gamma.compute_embedding(ff, 1),
        'translate_elsewhere': lambda: sub.translate_markers(of, 1),
        'translate_cells': lambda: sub.translate_markers(cf, 1),
        'translate_into_other_dimension': lambda: sub.translate_markers(ff, 1, gen.mesh_function(sub, 0)),
        'transfer_elsewhere': lambda: transfer_markers(sub, of),
        'transfer_cells': lambda: transfer_markers(sub, cf),
        'mortar_one_tag': lambda: mortar_meshes(cf, [1]),
        'mortar_facets': lambda: mortar_meshes(ff, [1, 3]),
        'normal_of_volume': lambda: OuterNormal(mesh, np.zeros(dim)),
        'normal_length': lambda: OuterNormal(gamma, np.zeros(5-dim)),
        'normal_expression_length': lambda: OuterNormal(gamma, df.Constant((1., )*(5-dim))),
        'normal_scalar': lambda: OuterNormal(gamma, df.Constant(1.)),
        'normal_other_mesh': lambda: OuterNormal(gamma, other),
        'normal_other_facets': lambda: OuterNormal(gamma, df.FacetNormal(other)),
        'normal_other_subdomains': lambda: OuterNormal(gamma, oc),
        'inner_normal_other_mesh': lambda: InnerNormal(gamma, other),
        'orient_other_mesh': lambda: orient_facet_normal(df.FacetNormal(mesh), oc),
        'constant_of_facets': lambda: pcws_constant(ff),
        'constant_of_numbers': lambda: pcws_constant([1, 2, 3]),
        'union_nothing': lambda: union_mesh([]),
        'union_of_dimensions': lambda: union_mesh([mesh, gamma]),
        'union_of_spaces': lambda: union_mesh([mesh, df.UnitIntervalMesh(3)]),
        'build_width': lambda: build_mesh(np.zeros((4, 5-dim)), mesh.cells(), mesh.ufl_cell()),
        'build_cells': lambda: build_mesh(mesh.coordinates(), mesh.cells()[:, :-1], mesh.ufl_cell()),
        'skeleton_of_curve': lambda: Skeleton(df.UnitIntervalMesh(4)),
        'circumcenter_of_quads': lambda: CellCircumcenter(df.UnitSquareMesh.create(2, 2, df.CellType.Type.quadrilateral)),
    }
    if dim == 3:
        bad['dual_of_tets'] = lambda: dual_mesh(mesh)
    return good, bad, [mesh, other, shifted, gamma, sub, s1, s2, s3, s4, moved], [], [ff, cf, vf]


def curves(rec, dim):
    rng = rec.rng
    n = int(rng.integers(5, 9))
    t = np.linspace(0, 2*np.pi, n, endpoint=False)
    X = np.c_[np.cos(t), np.sin(t), 0*t][:, :dim] @ gen.affine(rng, dim)
    ring = gen.build(X, np.array([(i, (i+1) % n) for i in range(n)]), 1)
    path = gen.build(X, np.array([(i, i+1) for i in range(n-1)]), 1)
    # a loop with a tail: as many ends of cells as vertices twice
    tail = gen.build(np.r_[X, [2*X[0]], [3*X[0]]], np.array([(i, (i+1) % n) for i in range(n)] + [(0, n), (n, n+1)]), 1)
    single = gen.build(X[:2], np.array([(0, 1)]), 1)
    flat = df.UnitSquareMesh(1, 1)
    closed = np.r_[X[:, :2], X[:1, :2]]
    pts = rng.uniform(-1, 1, (3, 2))
    good = [lambda: TangentCurve(path).vector(), lambda: color_branches(tail)[0], lambda: np.array(list(walk_vertices(path))),
            lambda: branching.wind_number(closed, pts)]
    bad = {
        'root_inside': lambda: TangentCurve(path, root=int(rng.integers(1, n-1))),
        'root_absent': lambda: TangentCurve(path, root=n+3),
        'root_of_loop': lambda: TangentCurve(ring, root=0),
        'tangent_of_surface': lambda: TangentCurve(flat),
        'branches_of_surface': lambda: color_branches(flat),
        'loop_of_surface': lambda: is_loop(flat),
        'walk_surface': lambda: list(walk_vertices(flat)),
        'walk_one_cell': lambda: list(walk_vertices(single)),
        'walk_line': lambda: list(walk_vertices(df.UnitIntervalMesh(3))),
        'walk_array': lambda: list(walk_vertices(np.ones(n), 1)),
        'walk_vertex_function': lambda: list(walk_vertices(gen.mesh_function(path, 0, values=[1]*n), 1)),
        'walk_branched': lambda: list(walk_vertices(gen.mesh_function(tail, 1, values=[1]*tail.num_cells()), 1)) and 0/0,
        'open_contour': lambda: branching.wind_number(closed[:-1], pts),
        'flat_contour': lambda: branching.wind_number(closed.ravel(), pts),
        'refine_negative': lambda: branching.refine_contour(closed, -1),
        'inside_of_open_contour': lambda: branching.is_inside_contour(closed[:-1], pts),
        'wind_open': lambda: wind_number(path, pts),
        'wind_tail': lambda: wind_number(tail, pts),
        'wind_space': lambda: wind_number(ring, rng.uniform(-1, 1, (3, 3))) if dim == 3 else wind_number(ring, pts[0]),
        'normal_of_open': lambda: NormalCurve(path),
        'normal_outside': lambda: NormalCurve(ring, outside=np.zeros(3)),
    }
    del bad['walk_branched']
    return good, bad, [ring, path, tail, single], [], []


def solved(solve, system):
    solve('cg', *system, maxiter=200)
    return np.round(np.concatenate([x.get_local() for x in system[-1]]), 8)


def mat_spd(rng, n):
    C = rng.uniform(-1, 1, (n, n))
    return gen.mat_of(C @ C.T + np.diag(1. + np.arange(n)))


def algebra(rec, dim):
    rng = rec.rng
    m, n, k = rng.permutation([3, 4, 5, 6])[:3]
    mat = lambda r, c: gen.mat_of(rng.uniform(-1, 1, (r, c)))
    A, B, C = mat(m, n), mat(n, k), mat(n, m)
    D, F = mat(m, m), mat(n, n)
    mesh = df.UnitSquareMesh(2, 2)
    W = [spaces.space(mesh, e) for e in ('CG1', 'DG0', 'CG2')]
    c = lambda x: ii_convert(x)
    rows = block_mat([[D, A], [C, F]])
    spd = block_mat([[mat_spd(rng, m), 0], [0, mat_spd(rng, n)]])
    rhs = [rng.uniform(-1, 1, s) for s in (m, n)]

    def system():
        """Operator, right hand side, tolerance, preconditioner, initial guess"""
        return spd, block_vec([gen.pvec(x) for x in rhs]), 1E-10, None, block_vec([gen.pvec(0*x) for x in rhs])

    good = [lambda: c(A*B), lambda: c(D + A*C), lambda: c(rows), lambda: c(2*A*C),
            lambda: solved(scipy_solve, system()), lambda: solved(pyamg_solve, system())]
    bad = {
        'product': lambda: c(B*A),
        'product_of_three': lambda: c(A*B*D) if k != m else 0/0,
        'sum': lambda: c(A + C),
        'sum_of_products': lambda: c(A*C + F),
        'difference': lambda: c(A - B),
        'rectangular_identity': lambda: c(block_mat([[D, 1], [C, F]])),
        'rectangular_identity_last': lambda: c(block_mat([[D, A], [-2.5, F]])),
        'dims_of_product': lambda: get_dims(B*A),
        'dims_of_sum': lambda: get_dims(A + C),
        'dims_of_nothing': lambda: get_dims('A'),
        'sizes_of_matrix': lambda: bmat_sizes(D),
        'unconverged_scipy': lambda: scipy_solve(str(rng.choice(['cg', 'minres', 'bicgstab'])), *system(), maxiter=1),
        'unconverged_pyamg': lambda: pyamg_solve(str(rng.choice(['cg', 'bicgstab'])), *system(), maxiter=1),
        'not_an_operator': lambda: c('A'),
        'reduction_end': lambda: ReductionOperator([1, 2], W),
        'reduction_beyond': lambda: ReductionOperator([2, 4], W),
        'reduction_order': lambda: ReductionOperator([2, 1, 3], W),
        'regroup_end': lambda: RegroupOperator([2], W),
        'regroup_order': lambda: RegroupOperator([2, 1, 3], W),
        'nest_rectangular_identity': lambda: nest(block_mat([[D, 1.5], [C, F]])),
    }
    return good, bad, [mesh], [A, B, C, D, F], []


def shapes(rec, dim):
    """Reductions to lines; in space"""
    rng = rec.rng
    box = gen.Box(rng, 3, n=2)
    mesh = box.mesh
    edges = gen.mesh_function(mesh, 1)
    edges.array()[rng.choice(len(edges.array()), 3, replace=False)] = 1
    line = EmbeddedMesh(edges, 1)
    facets = gen.mesh_function(mesh, 2)
    facets.array()[rng.choice(len(facets.array()), 3, replace=False)] = 1
    surface = EmbeddedMesh(facets, 1)
    V, W, Y, D = (spaces.space(mesh, e) for e in ('CG2', 'vCG1', 'RT1', 'DG1'))
    f, g, d = gen.randfun(rng, V), gen.randfun(rng, W), gen.randfun(rng, D)
    Q, R, S = spaces.space(line, 'DG0'), spaces.space(surface, 'R0'), spaces.space(surface, 'DG0')
    P = spaces.space(line, 'CG1')
    patches = gen.mesh_function(mesh, 3, values=np.arange(mesh.num_cells()))
    color = df.Function(P)
    # not in the plane of any of the cells
    skew = lambda x: np.asarray(x) + 0.1*np.array([1., 0.3, -0.2]) + 0.05*np.sin(np.arange(3) + np.sum(x))
    far = rng.uniform(0.1, 1, 3)
    reduced = lambda r: form(r, Q, line)
    good = [lambda: reduced(Average(f, line, Circle(0.05, 4))), lambda: reduced(Average(d, line, Disk(0.05, 4))),
            lambda: reduced(Average(f, line, None)), lambda: form(SurfaceMean(f, surface), R, surface)]
    bad = {
        'circle_no_radius': lambda: Circle(0, 4),
        'circle_negative': lambda: Circle(-rng.uniform(1E-3, 1), 4),
        'disk_no_radius': lambda: Disk(0., 4),
        'disk_negative': lambda: Disk(-rng.uniform(1E-3, 1), 4),
        'square_of_words': lambda: Square(['a', 'b', 'c'], 3),
        'rim_of_words': lambda: SquareRim(('a', 'b', 'c'), 3),
        'square_of_points': lambda: Square([np.ones(3), np.zeros(3)], 3),
        'square_not_in_plane': lambda: reduced(Average(f, line, Square(skew, 3))),
        'rim_not_in_plane': lambda: reduced(Average(f, line, SquareRim(skew, 3))),
        'square_far_from_plane': lambda: reduced(Average(f, line, Square(far, 3))),
        'average_expression': lambda: Average(3*f, line, Circle(0.05, 4)),
        'average_derivative': lambda: Average(f.dx(0), line, Circle(0.05, 4)),
        'average_onto_surface': lambda: Average(f, surface, Circle(0.05, 4)),
        'average_onto_volume': lambda: Average(f, mesh, Circle(0.05, 4)),
        'average_RT_no_shape': lambda: Average(gen.randfun(rng, Y), line, None),
        'average_DG_no_shape': lambda: Average(d, line, None),
        'flux_no_shape': lambda: FluxAverage(TrialFunction(Y), line, None),
        'flux_of_scalar': lambda: reduced(FluxAverage(TrialFunction(V), line, Circle(0.05, 4))),
        'flux_of_function': lambda: FluxAverage(g, line, Circle(0.05, 4)),
        'flux_expression': lambda: FluxAverage(2*TrialFunction(W), line, Circle(0.05, 4)),
        'flux_onto_surface': lambda: FluxAverage(TrialFunction(W), surface, Circle(0.05, 4)),
        'surface_mean_of_vector': lambda: form(SurfaceMean(g, surface), df.VectorFunctionSpace(surface, 'R', 0, 3), surface),
        'surface_mean_expression': lambda: SurfaceMean(f*f, surface),
        'surface_mean_onto_line': lambda: SurfaceMean(f, line),
        'surface_mean_onto_volume': lambda: SurfaceMean(f, mesh),
        'patch_of_vector': lambda: CellPatchAverage(g, color, patches),
        'patch_expression': lambda: CellPatchAverage(2*f, color, patches),
        'patch_of_facets': lambda: CellPatchAverage(f, color, facets),
        'patch_onto_surface': lambda: CellPatchAverage(f, df.Function(S), patches),
        'patch_vector_coloring': lambda: CellPatchAverage(f, df.Function(spaces.space(line, 'vCG1')), patches),
        'extension_of_volume': lambda: Extension(f, mesh, 'uniform'),
        'extension_onto_line': lambda: Extension(gen.randfun(rng, P), mesh, 'uniform'),
        'extension_expression': lambda: Extension(2*gen.randfun(rng, P), surface, 'uniform'),
    }
    return good, bad, [mesh, line, surface], [f, g, d], [edges, facets, patches]


def forms(rec, dim):
    """Systems of forms"""
    rng, box, mesh, ff, cf = setup(rec, dim)
    gamma = EmbeddedMesh(ff, [1, 3])
    V, S, Q = spaces.space(mesh, 'CG2'), spaces.space(mesh, 'DG0'), spaces.space(gamma, 'DG0')
    # As for dolfin, spaces with same mesh and element are the same
    N = spaces.space(mesh, 'CG1')
    W = [V, S, Q]
    (u, s, p), (v, t, q) = map(TrialFunction, W), map(TestFunction, W)
    n, m = TrialFunction(N), TestFunction(N)
    dx_ = Measure('dx', domain=gamma)
    Tu, Tv = Trace(u, gamma), Trace(v, gamma)
    f, g, h = gen.randfun(rng, V), gen.randfun(rng, S), gen.randfun(rng, Q)
    a = lambda: inner(u, v)*df.dx

    def bilinear(sym=True):
        b = block_form(W, 2)
        b[0][0] = a()
        b[0][2] = inner(Tv, p)*dx_
        b[1][1] = inner(s, t)*df.dx
        if not sym:
            b[2][0] = 3*inner(Tu, q)*dx_
        return b

    def linear():
        b = block_form(W, 1)
        b[0] = inner(f, v)*df.dx
        b[2] = inner(h, q)*dx_
        return b

    def assembled(b):
        A = ii_assemble(b)
        return tuple(value(ii_convert(x)) for x in ([A[0][0], A[0][2], A[1][1]] if isinstance(A, block_mat) else [A[0], A[2]]))

    def put(b, i, x, j=None):
        if j is None:
            b[i] = x
        else:
            b[i][j] = x
        return b

    L = [f*f*inner(f, v)*df.dx + inner(h, Trace(v, gamma))*dx_, inner(f*g, t)*df.dx]
    functional = lambda: inner(f, f)*df.dx
    B, L0, full = bilinear(), linear(), bilinear(False)
    good = [lambda: assembled(B), lambda: assembled(L0), lambda: assembled(full), lambda: assembled(make_selfadjoint(bilinear())),
            lambda: tuple(value(ii_assemble(x)) for x in block_jacobian(L, [f, g])[1])]
    bad = {
        'arity_0': lambda: block_form(W, 0),
        'arity_3': lambda: block_form(W, 3),
        'of_one_space': lambda: block_form(V, 1),
        'row_of_other_space': lambda: put(L0, 0, inner(f, t)*df.dx),
        'row_of_foreign_space': lambda: put(L0, 1, inner(f, m)*df.dx),
        'row_bilinear': lambda: L0.add(a()),
        'entry_transposed': lambda: put(B, 0, inner(Tu, q)*dx_, 2),
        'entry_transposed_': lambda: put(B, 2, inner(Tv, p)*dx_, 0),
        'entry_shifted': lambda: put(B, 1, a(), 0),
        'entry_shifted_': lambda: put(B, 1, a(), 1),
        'entry_of_foreign_space': lambda: put(B, 0, inner(n, v)*df.dx, 0),
        'entry_of_foreign_space_': lambda: put(B, 0, inner(u, m)*df.dx, 0),
        'add_foreign_test': lambda: B.add(inner(u, m)*df.dx),
        'add_foreign_trial': lambda: B.add(inner(n, t)*df.dx),
        'add_foreign_row': lambda: L0.add(inner(f, m)*df.dx),
        'add_linear_to_bilinear': lambda: B.add(inner(f, v)*df.dx),
        'add_functional': lambda: L0.add(functional()),
        'sum_of_arities': lambda: B + L0,
        'sum_of_spaces': lambda: L0 + block_form([V, S], 1),
        'sum_of_orders': lambda: L0 + block_form([S, V, Q], 1),
        'selfadjoint_of_full': lambda: make_selfadjoint(full),
        'permute_short': lambda: permute(B, [1, 0]),
        'permute_twice': lambda: permute(B, [0, 1, 1]),
        'permute_from_one': lambda: permute(B, [3, 1, 2]),
        'permute_foreign': lambda: permute(B, [V, Q, N]),
        'jacobian_rectangular': lambda: block_jacobian(L, [f]),
        'jacobian_order': lambda: block_jacobian(L, [g, f]),
        'jacobian_of_bilinear': lambda: block_jacobian([a(), L[1]], [f, g]),
        'jacobian_of_functional': lambda: block_jacobian([functional(), L[1]], [f, g]),
        'jacobian_of_numbers': lambda: block_jacobian([0, L[1]], [f, g]),
        'jacobian_wrt_expression': lambda: block_jacobian(L, [2*f, g]),
        'jacobian_wrt_vector': lambda: block_jacobian(L, [f.vector(), g]),
        'derivative_of_bilinear': lambda: ii_derivative(a(), f),
        'derivative_of_functional': lambda: ii_derivative(functional(), f),
        'derivative_wrt_reduced': lambda: ii_derivative(L[0], Trace(f, gamma)),
        'derivative_wrt_expression': lambda: ii_derivative(L[0], f*f),
        'derivative_wrt_argument': lambda: ii_derivative(L[0], u),
    }
    return good, bad, [mesh, gamma], [f, g, h], [ff, cf]


AREAS = {'shapes': shapes, 'forms': forms, 'reductions': reductions, 'spaces': spaces_, 'meshes': meshes, 'curves': curves, 'algebra': algebra}


def refused(rec, f):
    try:
        f()
    except Exception as e:
        if isinstance(e, NameError) and traceback.extract_tb(e.__traceback__)[-1].filename == __file__:
            raise               # our own error
        return rec.check(True, 'refused')
    return rec.check(False, 'refused', 'request which is not defined was served')


def run(rec, case):
    area, dim = case
    rng = rec.rng
    good, bad, used, functions, markers = AREAS[area](rec, dim)
    rec.ctx = '%s %dd' % (area, dim)
    rec.event(area)
    reference = []
    for k, g in enumerate(good):
        ok, val = rec.guard('valid_request', lambda: value(g()))
        if not ok:
            return
        reference.append(val)
    vec = lambda f: f.vector().get_local() if hasattr(f, 'vector') else gen.dense(f)
    before = [state(m) for m in used], [vec(f) for f in functions], [np.array(f.array()) for f in markers]
    names = list(bad)
    for i in rng.permutation(len(names)):
        name = names[i]
        rec.ctx = '%s %dd %s' % (area, dim, name)
        refused(rec, bad[name])
        rec.event('refused')
        rec.seen(area, dim, name)
        if rng.integers(4) == 0:
            k = int(rng.integers(len(good)))
            ok, val = rec.guard('valid_request', lambda: value(good[k]()))
            if ok:
                rec.check(same(val, reference[k]), 'served_again', lambda: 'request %d after %s' % (k, name))
                rec.event('served_again')
    rec.ctx = '%s %dd' % (area, dim)
    rec.check(before[0] == [state(m) for m in used], 'meshes_untouched')
    rec.check(all(np.array_equal(a, vec(f)) for a, f in zip(before[1], functions)), 'functions_untouched')
    rec.check(all(np.array_equal(a, f.array()) for a, f in zip(before[2], markers)), 'markers_untouched')
    for k, g in enumerate(good):
        ok, val = rec.guard('valid_request', lambda: value(g()))
        if ok:
            rec.check(same(val, reference[k]), 'served_again', lambda: 'request %d at the end' % k)
            rec.event('served_again')
    rec.sample('%s: %d requests refused' % (rec.ctx, len(names)))
