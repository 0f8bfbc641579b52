"""Hostile inputs (meshes, markings, functions) and reference numerics in plain numpy."""
import numpy as np
import dolfin as df
from functools import lru_cache
from math import factorial


# ---------------------------------------------------------------- meshes
def build(X, cells, tdim=None):
    """Mesh from arrays through dolfin's own editor (independent of xii's builder)"""
    X, cells = np.asarray(X, dtype=float), np.asarray(cells, dtype='uintp')
    gdim = X.shape[1]
    tdim = cells.shape[1] - 1 if tdim is None else tdim
    mesh, ed = df.Mesh(), df.MeshEditor()
    ed.open(mesh, {1: 'interval', 2: 'triangle', 3: 'tetrahedron'}[tdim], tdim, gdim)
    ed.init_vertices(len(X))
    ed.init_cells(len(cells))
    for i, x in enumerate(X):
        ed.add_vertex(i, x)
    for i, c in enumerate(cells):
        ed.add_cell(i, c)
    ed.close()
    return mesh


def rotation(rng, gdim):
    Q, R = np.linalg.qr(rng.standard_normal((gdim, gdim)))
    Q = Q*np.sign(np.diag(R))
    if np.linalg.det(Q) < 0:
        Q[:, 0] *= -1
    return Q


def affine(rng, gdim, strength=0.3):
    return rotation(rng, gdim) @ (np.eye(gdim) + strength*rng.uniform(-0.5, 0.5, (gdim, gdim)))


def stretch(rng, mesh, power=2):
    """Make the cells of a mesh thin: stretch by up to 10^power along a random direction"""
    X = mesh.coordinates()
    R = rotation(rng, X.shape[1])
    s = np.ones(X.shape[1])
    s[0] = 10**rng.uniform(0.5, power)
    X[:] = X @ (R*s) @ R.T


def move(rng, *meshes, rigid=False):
    """The same map (turn, stretch, reflection, shift) of all meshes, in place; equal points stay equal
    bit by bit"""
    gdim = meshes[0].geometry().dim()
    A = affine(rng, gdim, 0. if rigid else 0.6)*rng.uniform(0.5, 2) if gdim > 1 else rng.uniform(0.5, 2, (1, 1))
    if rng.integers(2):
        A[:, 0] *= -1
    size = max(np.abs(m.coordinates()).max() for m in meshes)
    b = size*rng.uniform(-1, 1, gdim)
    f = lambda x: sum(np.asarray(x)[..., i:i+1]*A[:, i] for i in range(gdim)) + b
    for m in {m.id(): m for m in meshes}.values():
        m.coordinates()[:] = f(m.coordinates())
        m.bounding_box_tree().build(m)
    return f


def oriented_surface(box, sign=1):
    """boundary of a box in 3d as a mesh with a global orientation"""
    f = mesh_function(box.mesh, 2)
    df.DomainBoundary().mark(f, 1)
    from xii import EmbeddedMesh
    surface = clone(EmbeddedMesh(f, 1))
    orient(surface, box, sign)
    return surface


def orient(mesh, box, sign=1):
    c = box.map(np.full(3, 0.5))
    mesh.init_cell_orientations(df.Expression(tuple('s*(x[%d]-c%d)' % (i, i) for i in range(3)), s=float(sign), degree=1,
                                              **{'c%d' % i: v for i, v in enumerate(c)}))


class Box:
    """Unit square/cube triangulation; keeps the reference coordinates `ref` (before
    the affine map) so that flat interior interfaces can be marked combinatorially."""
    def __init__(self, rng, dim, n=3, distort=True, perturb=True, permute=True, diag=None, keep=()):
        ns = [n]*dim if np.isscalar(n) else list(n)
        if dim == 2:
            base = df.UnitSquareMesh(*ns, diag or str(rng.choice(['left', 'right', 'crossed', 'left/right'])))
        else:
            base = df.UnitCubeMesh(*ns)
        R, C = base.coordinates().copy(), base.cells().copy()
        Y = R.copy()
        h = 1./max(ns)
        if perturb:
            free = np.all((R > 1E-10) & (R < 1-1E-10), axis=1)
            for axis, value in keep:                       # keep these planes flat
                free &= np.abs(R[:, axis] - value) > 1E-10
            Y[free] += 0.12*h*rng.uniform(-1, 1, (free.sum(), dim))
        self.A, self.b = (affine(rng, dim), rng.uniform(-1, 1, dim)) if distort else (np.eye(dim), np.zeros(dim))
        Y = Y @ self.A.T + self.b
        if permute:
            p = rng.permutation(len(Y))                    # new index of old vertex i is p[i]
            ip = np.argsort(p)
            Y, R, C = Y[ip], R[ip], p[C]
            C = C[rng.permutation(len(C))]
        self.mesh = build(Y, C, dim)
        self.ref = R
        self.dim = dim

    def map(self, x):
        return np.asarray(x) @ self.A.T + self.b

    def vertices_on(self, f):
        return np.array([bool(f(r)) for r in self.ref])

    def facets_where(self, f):
        """indices of facets all of whose vertices satisfy f (in reference coordinates)"""
        on = self.vertices_on(f)
        fv = entity_vertices(self.mesh, self.mesh.topology().dim()-1)
        return np.array([e for e, vs in enumerate(fv) if on[vs].all()], dtype=int)

    def cells_where(self, f):
        return np.array([c for c, vs in enumerate(self.mesh.cells()) if f(self.ref[vs].mean(axis=0))], dtype=int)


def near(a, b):
    return abs(a-b) < 1E-10


def mesh_function(mesh, dim, tags=None, values=None):
    """tags: {tag: indices}"""
    f = df.MeshFunction('size_t', mesh, dim, 0)
    arr = f.array()
    if values is not None:
        arr[:] = values
    for t, idx in (tags or {}).items():
        arr[np.asarray(idx, dtype=int)] = t
    return f


def clone(mesh):
    """Same vertices and cells, nothing else computed"""
    return build(mesh.coordinates(), mesh.cells(), mesh.topology().dim())


def entity_vertices(mesh, d):
    fresh = clone(mesh)                 # leave to the code under test which connectivity it computes
    if np.array_equal(fresh.cells(), mesh.cells()):
        mesh = fresh
    mesh.init(d)
    mesh.init(d, 0)
    e2v = mesh.topology()(d, 0)
    return np.array([np.array(e2v(e)) for e in range(mesh.num_entities(d))], dtype=int)


def coord_key(x, digits=10):
    return tuple(np.round(np.asarray(x, dtype=float), digits) + 0.)


# ------------------------------------------------------------- polynomials
class Poly:
    """Random polynomial R^gdim -> R^shape of total degree deg"""
    def __init__(self, rng, gdim, deg, shape=()):
        from itertools import product
        self.exps = np.array([e for e in product(range(deg+1), repeat=gdim) if sum(e) <= deg])
        self.shape, self.gdim, self.deg = tuple(shape), gdim, deg
        self.c = rng.uniform(-1, 1, (int(np.prod(shape)) if shape else 1, len(self.exps)))

    def __call__(self, X):
        X = np.atleast_2d(np.asarray(X, dtype=float))
        mono = np.prod(X[:, None, :]**self.exps[None], axis=2)
        return mono @ self.c.T                              # npts x ncomp

    def grad(self, X):
        X = np.atleast_2d(np.asarray(X, dtype=float))
        out = []
        for i in range(self.gdim):
            e = self.exps.copy()
            fac = e[:, i].copy()
            e[:, i] = np.maximum(e[:, i]-1, 0)
            out.append((np.prod(X[:, None, :]**e[None], axis=2)*fac) @ self.c.T)
        return np.stack(out, axis=2)                        # npts x ncomp x gdim


class _Expr(df.UserExpression):
    def __init__(self, f, shape, **kw):
        self._f, self._shape = f, shape
        super().__init__(**kw)

    def eval(self, v, x):
        v[:] = self._f(x).ravel()

    def value_shape(self):
        return self._shape


def interp(V, f):
    """Interpolate callable x -> values into V"""
    shape = tuple(V.ufl_element().value_shape())
    g = _Expr(f, shape, degree=max(V.ufl_element().degree(), 1))
    return df.interpolate(g, V)


def randfun(rng, V):
    f = df.Function(V)
    f.vector().set_local(rng.uniform(-1, 1, V.dim()))
    f.vector().apply('insert')
    return f


def randvec(rng, n):
    return rng.uniform(-1, 1, n)


def dvec(V, values):
    v = df.Function(V).vector()
    v.set_local(np.asarray(values, dtype=float))
    v.apply('insert')
    return v


def pvec(values):
    v = df.Vector(df.MPI.comm_self, len(values))
    v.set_local(np.asarray(values, dtype=float))
    v.apply('insert')
    return v


# --------------------------------------------------------------- quadrature
@lru_cache(maxsize=None)
def simplex_rule(tdim, deg):
    """Reference rule by Duffy transform of Gauss-Legendre; weights sum to 1 (relative measure)"""
    n = deg//2 + 2
    x, w = np.polynomial.legendre.leggauss(n)
    x, w = 0.5*(x+1), 0.5*w
    if tdim == 0:
        return np.ones((1, 1)), np.ones(1)
    if tdim == 1:
        P = np.c_[1-x, x]
        return P, w
    if tdim == 2:
        pts, ws = [], []
        for a, wa in zip(x, w):
            for b, wb in zip(x, w):
                pts.append((a, b*(1-a)))
                ws.append(wa*wb*(1-a)*2)
        pts = np.array(pts)
        return np.c_[1-pts.sum(axis=1), pts], np.array(ws)
    pts, ws = [], []
    for a, wa in zip(x, w):
        for b, wb in zip(x, w):
            for c, wc in zip(x, w):
                pts.append((a, b*(1-a), c*(1-a)*(1-b)))
                ws.append(wa*wb*wc*(1-a)**2*(1-b)*6)
    pts = np.array(pts)
    return np.c_[1-pts.sum(axis=1), pts], np.array(ws)


def simplex_volume(P):
    """P: nverts x gdim"""
    E = P[1:] - P[0]
    k = len(E)
    if k == 0:
        return 1.
    return np.sqrt(max(np.linalg.det(E @ E.T), 0.))/factorial(k)


def cell_volumes(mesh, cells=None):
    X, C = mesh.coordinates(), mesh.cells()
    idx = range(len(C)) if cells is None else cells
    return np.array([simplex_volume(X[C[c]]) for c in idx])


def quad(mesh, deg, cells=None):
    """yield (cell, points, weights)"""
    X, C = mesh.coordinates(), mesh.cells()
    L, w = simplex_rule(mesh.topology().dim(), deg)
    for c in (range(len(C)) if cells is None else cells):
        P = X[C[c]]
        yield c, L @ P, w*simplex_volume(P)


def evaluate(f, X, cell):
    """values of Function f at points X using the polynomial of the given cell"""
    mesh = f.function_space().mesh()
    n = int(np.prod(f.ufl_shape)) if f.ufl_shape else 1
    c = df.Cell(mesh, int(cell))
    out = np.zeros((len(X), n))
    v = np.zeros(n)
    for i, x in enumerate(X):
        f.eval_cell(v, np.asarray(x, dtype=float), c)
        out[i] = v
    return out


def barycentric(mesh, cell, x):
    P = mesh.coordinates()[mesh.cells()[cell]]
    A = (P[1:]-P[0]).T
    l, *_ = np.linalg.lstsq(A, np.asarray(x)-P[0], rcond=None)
    return np.r_[1-l.sum(), l]


def locate(mesh, x, tol=1E-10):
    """All cells containing x, by brute force barycentrics (no bounding box tree)"""
    X, C = mesh.coordinates(), mesh.cells()
    P = X[C]
    d = P.shape[1]-1
    if X.shape[1] == d:
        A = np.transpose(P[:, 1:] - P[:, :1], (0, 2, 1))
        l = np.linalg.solve(A, (np.asarray(x) - P[:, 0])[:, :, None])[:, :, 0]
        l = np.c_[1-l.sum(axis=1), l]
        return np.where(np.all(l > -tol, axis=1))[0]
    out = []
    for c in range(len(C)):
        l = barycentric(mesh, c, x)
        if np.all(l > -tol) and np.linalg.norm(l @ P[c] - x) < tol*10:
            out.append(c)
    return np.array(out, dtype=int)


def eval_anywhere(f, x, tol=1E-10):
    mesh = f.function_space().mesh()
    cs = locate(mesh, x, tol)
    if not len(cs):
        return None
    return evaluate(f, [x], cs[0])[0]


# ------------------------------------------------------------------- dense
def dense(A):
    """numpy array of anything matrix-like dolfin/petsc (not a block expression)"""
    if isinstance(A, np.ndarray):
        return A
    if hasattr(A, 'array'):
        return np.array(A.array())
    import dolfin
    from petsc4py import PETSc
    if isinstance(A, PETSc.Mat):
        m, n = A.size
        return np.array(A.getValues(range(m), range(n)))
    raise TypeError(type(A))


def mat_of(dense_array):
    """PETScMatrix with the given dense content (explicit zeros dropped)"""
    import scipy.sparse as sp
    from petsc4py import PETSc
    M = sp.csr_matrix(np.asarray(dense_array, dtype=float))
    A = PETSc.Mat().createAIJ(comm=PETSc.COMM_WORLD, size=M.shape, csr=(M.indptr, M.indices, M.data))
    A.assemble()
    return df.PETScMatrix(A)


def apply(A, x):
    """y = A*x for any (lazy) operator, x numpy"""
    v = pvec(x)
    y = A*v
    return y.get_local()


def mesh_state(mesh):
    """hash of geometry and topology (for 'inputs are left alone' monitors)"""
    return hash((mesh.coordinates().tobytes(), mesh.cells().tobytes()))
