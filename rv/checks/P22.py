"""Meshes glued from pieces, lines built from branches."""
import itertools
import numpy as np
import networkx as nx
import dolfin as df
import gen
from checks.P18 import attached
from xii.meshing.union_mesh import union_mesh
from xii.meshing import line_mesh as lm, generation as gn
from xii import StraightLineMesh, EmbeddedMesh

RULE = ('case = (grid of conforming pieces in 1d-3d or a mesh cut into random submeshes sharing only boundary vertices, each '
        'piece numbered on its own, possibly moved by less than the tolerance, in random order and grouping, also islands '
        'and pieces that fill a hole; branches of a random graph, closed ones and single segments too, in random order; '
        'straight lines). key = kind, dimension, number of pieces.')
REQUIRED = {'glued': 30, 'three_or_more': 5, 'holes': 2, 'branches': 60, 'segments': 4, 'closed': 4, 'tolerance': 6, 'size': 8}
ASSUMPTIONS = ['vertices closer than 1e-9 are the same; different ones are much farther apart']


def cases(tier, seed):
    rng = np.random.default_rng([seed, 2201])
    out = []
    for _ in range(20 if tier == 'quick' else 60):
        out += [('grid', d) for d in (1, 2, 3)] + [('cut', 2), ('cut', 3), ('hole', 2), ('hole', 3), ('curve', 2), ('curve', 3)]
        out += [('branches', 2), ('branches', 3)]*2 + [('straight', d) for d in (1, 2, 3)]
    return [out[i] for i in rng.permutation(len(out))]


def run(rec, case):
    kind, dim = case
    rec.ctx = '%s %dd' % case
    {'branches': branches, 'straight': straight}.get(kind, glue)(rec, rec.rng, dim, kind)


def renumber(rng, mesh):
    X, C = mesh.coordinates().copy(), mesh.cells().copy()
    p = rng.permutation(len(X))
    return gen.build(X[np.argsort(p)], p[C][rng.permutation(len(C))], mesh.topology().dim())


def pieces_of(rec, rng, kind, dim):
    if kind == 'grid':
        # Boxes of a grid; boxes meet along faces, edges or vertices
        shape = [int(k) for k in rng.integers(1, 4 if dim < 3 else 3, dim)]
        keep = [i for i in itertools.product(*map(range, shape))]
        keep = [keep[i] for i in rng.permutation(len(keep))[:max(2, len(keep)-1)]]
        out = []
        n = int(rng.integers(1, 4))
        for i in keep:
            if dim == 1:
                m = df.IntervalMesh(n, i[0], i[0]+1)
            elif dim == 2:
                m = df.RectangleMesh(df.Point(*map(float, i)), df.Point(*[float(j+1) for j in i]), n, n)
            else:
                m = df.BoxMesh(df.Point(*map(float, i)), df.Point(*[float(j+1) for j in i]), n, n, n)
            out.append(m)
        A = gen.affine(rng, dim) if dim > 1 else np.eye(1)
        for m in out:
            m.coordinates()[:] = m.coordinates() @ A.T
        return out
    if kind == 'curve':
        # Pieces of a polygonal line: the ends of the pieces are shared
        n = int(rng.integers(6, 14))
        X = rng.uniform(-1, 1, (n, dim))
        cuts = sorted(rng.choice(np.arange(1, n-1), size=int(rng.integers(1, 4)), replace=False))
        out = []
        for a, b in zip([0]+cuts, cuts+[n-1]):
            out.append(gen.build(X[a:b+1], [(i, i+1) for i in range(b-a)], 1))
        return out
    box = gen.Box(rng, dim, n=4 if dim == 2 else 3)
    mesh = box.mesh
    if kind == 'hole':
        r = 0.3
        inside = box.cells_where(lambda x: np.all(np.abs(x-0.5) < r))
        f = gen.mesh_function(mesh, dim, {1: inside})
        rec.event('holes')
        return [EmbeddedMesh(f, t) for t in (0, 1)]
    # Slabs which share only vertices of the boundary of each
    k = int(rng.integers(2, 5))
    axis = int(rng.integers(dim))
    mid = box.ref[mesh.cells()].mean(axis=1)[:, axis]
    f = gen.mesh_function(mesh, dim, values=np.minimum((mid*k).astype(int), k-1))
    return [EmbeddedMesh(f, t) for t in range(k) if (f.array() == t).any()]


class Points:
    """Numbers points so that those closer than the tolerance share the number"""
    def __init__(self, tol=1E-9):
        self.x = None
        self.tol = tol

    def __call__(self, x):
        x = np.asarray(x, dtype=float)
        if self.x is None:
            self.x = np.empty((0, len(x)))
        if len(self.x):
            d = np.abs(self.x-x).max(axis=1)
            i = int(np.argmin(d))
            if d[i] < self.tol:
                return i
        self.x = np.vstack([self.x, x])
        return len(self.x)-1


def share_only_boundary(meshes, key):
    """Are the vertices shared by two meshes on the boundary of both, and is this kept while gluing"""
    interior, every = [], []
    for m in meshes:
        att = attached(m)
        X = m.coordinates()
        b = {key(X[v]) for f, c in att.items() if len(c) == 1 for v in f}
        every.append({key(x) for x in X})
        interior.append(every[-1] - b)
    return not any(interior[i] & every[j] for i in range(len(meshes)) for j in range(len(meshes)) if i != j)


def glue(rec, rng, dim, kind):
    ms = [renumber(rng, m) for m in pieces_of(rec, rng, kind, dim)]
    ms = [ms[i] for i in rng.permutation(len(ms))]
    if rng.integers(2):
        for m in ms:
            m.coordinates()[:] += 1E-13*rng.uniform(-1, 1, m.coordinates().shape)
    key = Points()
    if len(ms) < 2 or not share_only_boundary(ms, key):
        return
    glued(rec, rng, dim, kind, ms, key)
    # The same pieces somewhere else
    gen.move(rng, *ms)
    rec.ctx += ', moved'
    glued(rec, rng, dim, kind, ms, Points())


def glued(rec, rng, dim, kind, ms, key):
    # Vertices inside of what was glued so far must not be needed any more
    state = [gen.mesh_state(m) for m in ms]
    how = 'list'
    if len(ms) > 2 and rng.integers(2):
        how = 'nested'
        k = int(rng.integers(1, len(ms)-1)) + 1
        ok, a = rec.guard('union', union_mesh, ms[:k])
        if not ok:
            return
        before = None if not hasattr(a, 'leafs') else [(i, tuple(m)) for i, m in a.leafs]
        rest = ms[k:]
        ok, b = rec.guard('union', union_mesh, rest) if rng.integers(2) else (True, None)
        if not ok:
            return
        ok, u = rec.guard('union', union_mesh, [a, b] if b is not None else [a] + rest)
        after = None if not hasattr(a, 'leafs') else [(i, tuple(m)) for i, m in a.leafs]
        rec.check(before == after, 'pieces_keep_their_leafs', lambda: '%s before, %s after' % (len(before), len(after)))
    else:
        ok, u = rec.guard('union', union_mesh, ms)
    if not ok:
        return
    rec.ctx += ' %d pieces %s' % (len(ms), how)
    rec.check(state == [gen.mesh_state(m) for m in ms], 'pieces_left_alone')
    rec.event('glued')
    rec.event('three_or_more', len(ms) > 2)
    rec.seen('glue', kind, dim, len(ms), how)
    vertices = {key(x) for m in ms for x in m.coordinates()}
    cells = [frozenset(key(x) for x in m.coordinates()[c]) for m in ms for c in m.cells()]
    U = u.coordinates()
    rec.close(u.num_vertices(), len(vertices), 'each_vertex_once')
    rec.check({key(x) for x in U} == vertices, 'all_vertices')
    rec.check(sorted(map(sorted, cells)) == sorted(sorted(key(x) for x in U[c]) for c in u.cells()), 'all_cells')
    rec.close(df.assemble(df.Constant(1)*df.dx(domain=u)), sum(gen.cell_volumes(m).sum() for m in ms), 'measure')
    leafs = list(u.leafs)
    rec.check(sorted(i for i, _ in leafs) == sorted(m.id() for m in ms), 'every_piece_is_a_leaf')
    for m in ms:
        maps = [np.asarray(v) for i, v in leafs if i == m.id()]
        if len(maps) == 1 and rec.check(maps[0].shape == (m.num_vertices(), ), 'leaf_map_shape'):
            rec.close(U[maps[0]], m.coordinates(), 'leaf_map', atol=1E-11)


# ------------------------------------------------------------------ lines
def branches(rec, rng, dim, kind):
    """Random graph given by arcs"""
    n = int(rng.integers(2, 6))
    J = rng.uniform(-1, 1, (n, dim))
    arcs = []
    for _ in range(int(rng.integers(1, 8))):
        a, b = rng.integers(0, n, 2)
        m = int(rng.integers(0, 5))
        if a == b:
            m = max(m, 2)
        arcs.append((int(a), int(b), m))
    # A pair of junctions is joined by at most one segment without points inside
    seen, out = set(), []
    for a, b, m in arcs:
        if m == 0:
            if frozenset((a, b)) in seen:
                m = 1
            seen.add(frozenset((a, b)))
        out.append((a, b, m))
    # Of any size, with ends that agree to the tolerance given
    size = float(rng.choice([1., 1., 1E-6, 1E3]))
    tol = 1E-6*size if rng.integers(3) == 0 else None
    data, edges, key = [], set(), Points(1E-9*size if tol is None else tol)
    for p in J:
        key(size*p)
    for a, b, m in out:
        pts = size*np.vstack([J[a], rng.uniform(-1, 1, (m, dim)), J[b]])
        if tol is not None:
            pts[[0, -1]] += rng.uniform(-1E-8, 1E-8, (2, dim))*size
        data.append(pts)
        edges |= {frozenset((key(p), key(q))) for p, q in zip(pts, pts[1:])}
    rec.event('branches', len(data))
    rec.event('tolerance', tol is not None)
    rec.event('size', size != 1)
    rec.event('segments', sum(m == 0 for *_, m in out))
    rec.event('closed', sum(a == b for a, b, _ in out))
    rec.seen('branches', dim, len(out), any(m == 0 for *_, m in out), out[0][0] == out[0][1])
    copies = [p.copy() for p in data]
    for f in (lm.line_mesh, gn.line_mesh):
        ok, mesh = rec.guard('line_mesh', f, data, **({} if tol is None else dict(tol=tol)))
        if not ok:
            return
        rec.check(all(np.array_equal(p, q) for p, q in zip(data, copies)), 'branches_left_alone')
        X = mesh.coordinates()
        rec.check((mesh.topology().dim(), mesh.geometry().dim()) == (1, dim), 'dimensions')
        rec.close(mesh.num_cells(), len(edges), 'number_of_segments')
        rec.close(mesh.num_vertices(), len({p for e in edges for p in e}), 'each_point_once')
        rec.check({frozenset((key(X[a]), key(X[b]))) for a, b in mesh.cells()} == edges, 'segments')
        g = nx.Graph([tuple(sorted(e)) for e in edges])
        h = nx.Graph([tuple(int(v) for v in c) for c in mesh.cells()])
        rec.close(nx.number_connected_components(h), nx.number_connected_components(g), 'connected_parts')


def straight(rec, rng, dim, kind):
    A, B = rng.uniform(-1, 1, (2, dim))
    n = int(rng.choice([1, 2, 3, 17]))
    for f in (StraightLineMesh, gn.StraightLineMesh):
        ok, mesh = rec.guard('straight', f, A, B, n)
        if not ok:
            return
        rec.close(mesh.num_cells(), n, 'cells_of_line')
        rec.close(mesh.num_vertices(), n+1, 'vertices_of_line')
        h = gen.cell_volumes(mesh)
        rec.close(h, np.full(n, np.linalg.norm(B-A)/n), 'uniform')
        X = mesh.coordinates()
        t = np.sort((X-A) @ (B-A)/np.dot(B-A, B-A))
        rec.close(t, np.linspace(0, 1, n+1), 'points_on_line')
        att = attached(mesh)
        rec.close(sorted(map(len, att.values())), [1, 1] + [2]*(n-1), 'one_line')
        rec.event('segments', n == 1)
    rec.seen('straight', dim, n)
