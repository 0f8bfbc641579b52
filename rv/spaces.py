"""Finite element spaces under test, by short name"""
import dolfin as df


def element(name, cell):
    """names: CG2, vCG1 (vector), tCG1 (tensor), wCG1 (vector of another length than gdim), hCG1 (2 x 3 tensor), DG1, vDG0, RT1, BDM1, N1curl1, CR1, MINI, TH (mixed)"""
    if name == 'MINI':
        d = cell.topological_dimension()
        return df.FiniteElement('Lagrange', cell, 1) + df.FiniteElement('Bubble', cell, d+1)
    if name == 'TH':
        return df.MixedElement([df.VectorElement('Lagrange', cell, 2), df.FiniteElement('Lagrange', cell, 1)])
    if name == 'MX':
        return df.MixedElement([df.FiniteElement('RT', cell, 1), df.FiniteElement('DG', cell, 0)])
    if name == 'MD':
        return df.MixedElement([df.FiniteElement('DG', cell, 1), df.VectorElement('DG', cell, 0)])
    kind = df.FiniteElement
    if name[0] == 'v':
        kind, name = df.VectorElement, name[1:]
    elif name[0] == 't':
        kind, name = df.TensorElement, name[1:]
    if name[0] == 'w':
        kind, name = (lambda *a: df.VectorElement(*a, dim=5-cell.geometric_dimension())), name[1:]
    elif name[0] == 'h':
        kind, name = (lambda *a: df.TensorElement(*a, shape=(2, 3))), name[1:]
    fam, deg = name.rstrip('0123456789'), int(name[len(name.rstrip('0123456789')):])
    fam = {'BDM': 'BDM', 'RT': 'RT', 'CG': 'Lagrange', 'DG': 'DG', 'N1curl': 'N1curl', 'CR': 'CR', 'P': 'Lagrange', 'R': 'Real'}[fam]
    return kind(fam, cell, deg)


def space(mesh, name):
    return df.FunctionSpace(mesh, element(name, mesh.ufl_cell()))


CONTINUOUS = ('CG1', 'CG2', 'CG3', 'vCG1', 'vCG2', 'vCG3', 'tCG1', 'tCG2', 'MINI', 'TH', 'wCG1', 'wCG2', 'hCG1')


def like(V, fam='DG', deg=1):
    """element factory for a multiplier with the value shape of V"""
    shape = V.ufl_element().value_shape()
    kind = [df.FiniteElement, df.VectorElement, df.TensorElement][len(shape)]

    def make(mesh):
        if kind is df.FiniteElement:
            return df.FunctionSpace(mesh, kind(fam, mesh.ufl_cell(), deg))
        if kind is df.VectorElement:
            return df.FunctionSpace(mesh, kind(fam, mesh.ufl_cell(), deg, dim=shape[0]))
        return df.FunctionSpace(mesh, kind(fam, mesh.ufl_cell(), deg, shape=shape))
    return make
