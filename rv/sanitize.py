"""Access sanitizer: dolfin does not check entity, cell and dof numbers (a wrong one reads foreign memory or an empty
list); connectivity that was not computed is silently empty. The wrappers check both, for calls made by the code under test."""
import os, sys, weakref
import numpy as np
import dolfin as df
from core import REPO

log = {'checked': 0, 'bad': []}


def caller():
    f = sys._getframe(2)
    for _ in range(6):
        if f is None:
            return None
        if f.f_code.co_filename.startswith(os.path.join(REPO, 'xii')):
            return '%s:%d' % (os.path.basename(f.f_code.co_filename), f.f_lineno)
        f = f.f_back
    return None


def judge(ok, text):
    where = caller()
    if where is None:
        return
    log['checked'] += 1
    if not ok:
        log['bad'].append((where, text))


class Connectivity:
    """stands for a MeshConnectivity and knows its mesh topology"""
    def __init__(self, conn, topology, d0, d1):
        self._c, self._t, self._d = conn, topology, (d0, d1)

    def __call__(self, i):
        n = self._t.size(self._d[0])
        judge(n > 0 and self._c.size() > 0, 'connectivity %s read before it was computed' % (self._d, ))
        judge(0 <= int(i) < max(n, 1), 'entity %s of %d' % (i, n))
        return self._c(i)

    def __getattr__(self, name):
        return getattr(self._c, name)


def size_of(f):
    return f.size() if hasattr(f, 'size') and callable(f.size) else len(f.array())


dofmaps = {}


def install():
    mesh, fem = df.cpp.mesh, df.cpp.fem
    if getattr(mesh.MeshTopology, '_rv', False):
        return
    mesh.MeshTopology._rv = True
    # connectivity
    call = mesh.MeshTopology.__call__

    def topology(self, *args):
        c = call(self, *args)
        return Connectivity(c, self, *args) if len(args) == 2 and caller() else c
    mesh.MeshTopology.__call__ = topology
    # entities of an entity
    entities = mesh.MeshEntity.entities

    def of_entity(self, d):
        if d != self.dim():
            t = self.mesh().topology()
            # dolfin computes the rest itself
            judge(call(t, self.dim(), d).size() > 0, 'entities %s read before they were computed' % ((self.dim(), d), ))
        return entities(self, d)
    mesh.MeshEntity.entities = of_entity
    # mesh functions
    for name in ('Sizet', 'Int', 'Double', 'Bool'):
        cls = getattr(mesh, 'MeshFunction'+name)

        def wrap(cls=cls):
            get, put = cls.__getitem__, cls.__setitem__

            def number(self, i):
                i = i.index() if hasattr(i, 'index') else i
                if isinstance(i, (int, np.integer)):
                    judge(0 <= int(i) < size_of(self), 'value %s of a mesh function of size %d' % (i, size_of(self)))

            def getitem(self, i):
                number(self, i)
                return get(self, i)

            def setitem(self, i, v):
                number(self, i)
                return put(self, i, v)
            cls.__getitem__, cls.__setitem__ = getitem, setitem
        wrap()
    # dofs of cells
    inner = df.FunctionSpace.dofmap

    def dofmap(self):
        dm = inner(self)
        dofmaps[id(dm)] = weakref.ref(dm), self.mesh().num_cells()
        return dm
    df.FunctionSpace.dofmap = dofmap
    cell_dofs = fem.GenericDofMap.cell_dofs

    def of_cell(self, c):
        ref = dofmaps.get(id(self))
        if ref is not None and ref[0]() is self:
            judge(0 <= int(c) < ref[1], 'dofs of cell %s of %d' % (c, ref[1]))
        return cell_dofs(self, c)
    fem.GenericDofMap.cell_dofs = of_cell
    for cls in (getattr(fem, 'DofMap', None), ):
        if cls is not None and 'cell_dofs' in vars(cls):
            cls.cell_dofs = of_cell
    # matrices from arrays
    init = df.PETScMatrix.__init__

    def matrix(self, *args):
        init(self, *args)
        if args and hasattr(args[0], 'getRowIJ') and args[0].getType() == 'seqaij':
            ja = args[0].getRowIJ()[1]
            n = args[0].getSize()[1]
            judge(len(ja) == 0 or (ja.min() >= 0 and ja.max() < n), 'column outside of a matrix with %d columns' % n)
    df.PETScMatrix.__init__ = matrix
    # the mesh builder
    from xii.meshing import make_mesh_cpp
    fill = getattr(getattr(make_mesh_cpp, 'module', None), 'fill_mesh', None)
    if fill is None:
        return      # built in another way

    class Module:
        def __getattr__(self, name):
            return getattr(inner_module, name)

        def fill_mesh(self, coordinates, cells, tdim, gdim, m):
            nv = len(coordinates)//gdim
            judge(len(coordinates) == nv*gdim and len(cells) % (tdim+1) == 0, 'arrays of wrong length')
            judge(len(cells) == 0 or (np.min(cells) >= 0 and np.max(cells) < nv), 'cell with vertex %s of %d' % (np.max(cells) if len(cells) else '', nv))
            return fill(coordinates, cells, tdim, gdim, m)
    inner_module = make_mesh_cpp.module
    make_mesh_cpp.module = Module()
