"""A world of meshes with one of every reduction operator."""
import numpy as np
import dolfin as df
from dolfin import Measure, Constant
import gen
from xii import EmbeddedMesh, Trace, Restriction, Injection, Average, TransposeTrace
from xii.assembler.average_shape import Circle, Disk
from xii.assembler.mean_form import Mean
from xii.assembler.surface_mean_form import SurfaceMean
from xii.assembler.point_trace_form import PointTrace
from xii.assembler.gradient_point_trace_form import GradientPointTrace
from xii.assembler.patch_average_form import CellPatchAverage
from xii.assembler.flux_average_form import FluxAverage
from xii.meshing.refinement import centroid_refine


class Op:
    """name; V: space of the argument; Q: space on the reduced mesh; op(w): reduced argument; dX: measure of the reduced mesh"""
    def __init__(self, name, V, Q, op, dX):
        self.name, self.V, self.Q, self.op, self.dX = name, V, Q, op, dX


def world(rng, dim):
    """[Op, ...] on one mesh"""
    n = 2 if dim == 2 else 1
    box = gen.Box(rng, dim, n=n)
    m = box.mesh
    fv = gen.entity_vertices(m, dim-1)
    cells = [set(c) for c in m.cells()]
    inside = [i for i, f in enumerate(fv) if sum(set(f) <= c for c in cells) == 2]
    ff = gen.mesh_function(m, dim-1)
    chosen = rng.permutation(inside)[:5]
    ff.array()[chosen] = 1 + np.arange(len(chosen)) % 2
    em = EmbeddedMesh(ff, [1, 2])
    cf = gen.mesh_function(m, dim, values=1 + np.arange(m.num_cells()) % 2)
    sub = EmbeddedMesh(cf, 1)
    fine = centroid_refine(m)
    X, C = em.coordinates(), em.cells()
    nrm = df.Function(df.VectorFunctionSpace(em, 'DG', 0))
    values = nrm.vector().get_local()
    for c in range(em.num_cells()):
        v = np.linalg.svd(X[C[c][1:]] - X[C[c][0]])[2][-1]*rng.choice([-1, 1])
        values[nrm.function_space().dofmap().cell_dofs(c)] = v
    nrm.vector().set_local(values)
    V, D = df.FunctionSpace(m, 'CG', 1), df.FunctionSpace(m, 'DG', 1)
    vV = df.VectorFunctionSpace(m, 'CG', 1)
    mk = lambda mesh: df.FunctionSpace(mesh, 'CG', 1)
    dx = lambda mesh: Measure('dx', domain=mesh, metadata={'quadrature_degree': 5})
    w = gen.randfun(rng, df.FunctionSpace(m, 'DG', 0))
    cell = int(rng.integers(m.num_cells()))
    vertex = int(m.cells()[cell][rng.integers(dim+1)])
    line = gen.build(rng.uniform(0, 1, (5, dim)), [[0, 1], [1, 2], [2, 3], [3, 4]], 1)
    vertex_f = df.Function(df.FunctionSpace(line, 'DG', 0))
    vertex_f.vector().set_local(rng.integers(1, 3, 4).astype(float))
    lc = int(rng.integers(4))
    tau = Constant(rng.uniform(-1, 1, dim))
    real = df.FunctionSpace(m, 'R', 0)
    ops = [Op('Trace', V, mk(em), lambda a: Trace(a, em), dx(em)),
           Op('TraceVector', vV, df.VectorFunctionSpace(em, 'CG', 1), lambda a: Trace(a, em), dx(em)),
           Op('TraceTag', V, mk(em), lambda a: Trace(a, em, tag=2), dx(em))]
    ops += [Op('Trace'+s, D, mk(em), lambda a, s=s: Trace(a, em, s, nrm), dx(em)) for s in ('+', '-', 'avg', 'jump')]
    ops += [Op('Restriction', V, mk(sub), lambda a: Restriction(a, sub), dx(sub)),
            Op('RestrictionVector', vV, df.VectorFunctionSpace(sub, 'CG', 1), lambda a: Restriction(a, sub), dx(sub)),
            Op('Injection', V, mk(fine), lambda a: Injection(a, fine), dx(fine)),
            Op('InjectionInterp', V, mk(fine), lambda a: Injection(a, fine, 'interpolate'), dx(fine)),
            Op('Mean', V, mk(m), lambda a: Mean(a), dx(m)),
            Op('MeanWeight', V, mk(m), lambda a: Mean(a, w), dx(m)),
            Op('SurfaceMean', V, mk(em), lambda a: SurfaceMean(a, em), dx(em)),
            Op('Point', V, real, lambda a: PointTrace(a, vertex, cell), dx(m)),
            Op('GradientPoint', df.FunctionSpace(line, 'DG', 1), df.FunctionSpace(line, 'R', 0), lambda a: GradientPointTrace(a, lc, lc, tau), dx(line)),
            Op('Patch', D, vertex_f.function_space(), lambda a: CellPatchAverage(a, vertex_f, cf), dx(line))]
    bf = gen.mesh_function(m, dim-1)
    rim = [i for i, f in enumerate(fv) if sum(set(f) <= c for c in cells) == 1]
    bf.array()[rng.permutation(rim)[:4]] = 3
    bm = EmbeddedMesh(bf, 3)
    ops.append(Op('TransposeTrace', mk(bm), V, lambda a: TransposeTrace(a, bm, m), Measure('ds', domain=m, subdomain_data=bf, metadata={'quadrature_degree': 5})(3)))
    if dim == 3:
        ev = gen.entity_vertices(m, 1)
        curve = EmbeddedMesh(gen.mesh_function(m, 1, {1: rng.permutation(len(ev))[:4]}), 1)
        wire = gen.build(box.map(np.outer(np.linspace(0.4, 0.6, 4), [1, 1, 1]) + 0.03*rng.standard_normal((4, 3))), [[0, 1], [1, 2], [2, 3]], 1)
        r = 0.05*np.linalg.norm(box.A, 2)/2
        ops += [Op('EdgeTrace', V, mk(curve), lambda a: Average(a, curve, None), dx(curve)),
                Op('AverageCircle', V, mk(wire), lambda a: Average(a, wire, Circle(r, 6)), dx(wire)),
                Op('AverageDisk', V, mk(wire), lambda a: Average(a, wire, Disk(r, 6)), dx(wire)),
                Op('Flux', vV, mk(wire), lambda a: FluxAverage(a, wire, Circle(r, 6)), dx(wire))]
    return ops
