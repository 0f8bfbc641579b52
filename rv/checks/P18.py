"""Normals and tangents of manifolds: length, direction and side."""
import numpy as np
import dolfin as df
import networkx as nx
import gen
from xii import EmbeddedMesh, OuterNormal, InnerNormal, TangentCurve, OrientedFacetNormal
from xii.meshing.embedded_mesh import wind_number, encloses_points, NormalCurve
from xii.meshing.dg_utils import pcws_constant, orient_facet_normal

RULE = ('case = (dimension, source of the orientation: centre of the mesh, point as list/tuple/array, vector field, mesh '
        'on one side (also one found by compute_embedding), cell markers, FacetNormal; or curve: path, tree with/without '
        'given root, loop, several of them, graph with cycles, in 1d-3d, with random numbering and vertex order in '
        'cells; or point sets for the winding number). key = kind, dimension, variant.')
REQUIRED = {'normals': 1000, 'tangents': 500, 'loops': 6, 'winding_points': 100, 'jump_normals': 200}
ASSUMPTIONS = ['side of a facet is decided by the vertices of the attached cells in numpy; for the winding number points '
               'at least 1.5 cells away from the curve and tolerance 0.05 (it is a quadrature)']

ORIENT = ('none', 'point', 'field', 'mesh', 'submesh', 'markers', 'facetnormal')
CURVES = ('path', 'tree', 'loop', 'mixed', 'cycles')


def cases(tier, seed):
    rng = np.random.default_rng([seed, 1801])
    out = []
    for _ in range(12 if tier == 'quick' else 40):
        out += [('normal', k, d) for k in ORIENT for d in (2, 3)]
        out += [('curve', k, d) for k in CURVES for d in (1, 2, 3) if not (d == 1 and k != 'path')]*2
        out += [('wind', k, 2) for k in ('polygon', 'star', 'two')]
        out += [('facets', k, d) for k in ('function', 'dg0', 'given') for d in (2, 3)]
        out += [('const', '', d) for d in (1, 2, 3)]
    return [out[i] for i in rng.permutation(len(out))]


def run(rec, case):
    kind, what, d = case
    rec.ctx = '%s %s %dd' % case
    rec.seen(*case)
    {'normal': normal, 'curve': curve, 'wind': wind, 'facets': facets, 'const': const}[kind](rec, rec.rng, what, d)


def cell_values(f):
    """values of a (vector) DG0 function cell by cell"""
    mesh = f.function_space().mesh()
    mid = mesh.coordinates()[mesh.cells()].mean(axis=1)
    return np.array([gen.evaluate(f, [x], c)[0] for c, x in enumerate(mid)])


def tangents(mesh):
    X, C = mesh.coordinates(), mesh.cells()
    return X[C[:, 1:]] - X[C[:, :1]]


def check_unit(rec, n, mesh):
    rec.close(np.linalg.norm(n, axis=1), np.ones(len(n)), 'unit_length', rtol=1E-8)
    T = tangents(mesh)
    err = np.abs(np.einsum('cij,cj->ci', T, n))/np.linalg.norm(T, axis=2)
    rec.close(err, 0*err, 'normal_direction', atol=1E-8)
    rec.event('normals', len(n))


def attached(mesh):
    """facet (sorted vertices) -> cells"""
    out = {}
    for c, vs in enumerate(mesh.cells()):
        vs = sorted(int(v) for v in vs)
        for i in range(len(vs)):
            out.setdefault(tuple(vs[:i]+vs[i+1:]), []).append(c)
    return out


def outward(mesh, facet, cell):
    """Unit normal of facet (vertices) out of the cell, without dolfin"""
    X = mesh.coordinates()
    P = X[list(facet)]
    n = np.linalg.svd(P[1:]-P[0])[2][-1]
    top, = set(int(v) for v in mesh.cells()[cell]) - set(facet)
    return -n if np.dot(X[top]-P[0], n) > 0 else n


def normal(rec, rng, what, dim):
    box = gen.Box(rng, dim, n=4 if dim == 2 else 2, keep=[(0, 0.5)])
    mesh, d = box.mesh, dim-1
    fv = gen.entity_vertices(mesh, d)
    att = attached(mesh)
    fcells = [att[tuple(sorted(int(v) for v in f))] for f in fv]
    bdry = [e for e, c in enumerate(fcells) if len(c) == 1]
    if what in ('none', 'point', 'field'):
        chosen = bdry if rng.integers(2) else rng.choice(len(fv), max(3, len(fv)//3), replace=False)
    elif what == 'mesh':
        chosen = bdry if rng.integers(2) else rng.choice(bdry, len(bdry)//2, replace=False)
    elif what == 'submesh':
        chosen = box.facets_where(lambda r: gen.near(r[0], 0.5))
    else:
        chosen = rng.choice(len(fv), max(3, len(fv)//2), replace=False)
    f = gen.mesh_function(mesh, d)
    f.array()[np.asarray(chosen, dtype=int)] = rng.choice([1, 4], len(chosen))
    present = sorted(set(int(t) for t in f.array()) - {0})
    em = EmbeddedMesh(f, present)
    e_of = em.parent_entity_map[mesh.id()][d]
    move = [mesh, em]
    K = gen.mesh_function(mesh, dim)
    for again in range(2):
        oriented(rec, rng, what, box, em, fv, fcells, e_of, move, K)
        gen.move(rng, *move)          # The next ones are for the new positions


def oriented(rec, rng, what, box, em, fv, fcells, e_of, move, K):
    mesh, dim = box.mesh, box.mesh.topology().dim()
    d = dim-1
    mid = em.coordinates()[em.cells()].mean(axis=1)
    make = OuterNormal if rng.integers(3) else InnerNormal
    sign = 1 if make is OuterNormal else -1

    if what in ('none', 'point', 'field'):
        A, b = rng.uniform(-1, 1, (dim, dim)), rng.uniform(-1, 1, dim)
        if what == 'none':
            field = lambda x: x - em.coordinates().mean(axis=0)
            arg = None
        elif what == 'point':
            p = mid.mean(axis=0) + rng.uniform(-0.3, 0.3, dim)
            form = int(rng.integers(4))
            arg = [p, p.tolist(), tuple(p.tolist()), np.round(p).astype(int).tolist()][form]
            p = np.asarray(arg, dtype=float)
            field = lambda x: x-p
        else:
            arg = df.Expression([' + '.join(['b%d' % i] + ['a%d%d*x[%d]' % (i, j, j) for j in range(dim)]) for i in range(dim)], degree=1,
                                **{'b%d' % i: b[i] for i in range(dim)}, **{'a%d%d' % (i, j): A[i, j] for i in range(dim) for j in range(dim)})
            field = lambda x: A @ x + b
        n = sign*cell_values(make(em, arg))
        check_unit(rec, n, em)
        side = np.array([np.dot(field(x), v) for x, v in zip(mid, n)])
        rec.check(np.all(side > -1E-10), 'side', lambda: 'worst %g' % side.min())
        return
    if what == 'mesh':
        n = sign*cell_values(make(em, mesh))
        expected = np.array([outward(mesh, tuple(int(v) for v in fv[e_of[c]]), fcells[e_of[c]][0]) for c in range(em.num_cells())])
        check_unit(rec, n, em)
        rec.close(n, expected, 'outer_of_mesh', atol=1E-8)
        return
    if what == 'submesh':
        # Mesh on one side of the interface, known to em only by its coordinates
        known = len(move) > 2
        if not known:
            half = bool(rng.integers(2))
            cells = box.cells_where(lambda r: (r[0] < 0.5) == half)
            move.append(EmbeddedMesh(gen.mesh_function(mesh, dim, {1: cells}), 1))
        sub = move[2]
        key = {x.tobytes(): i for i, x in enumerate(np.ascontiguousarray(sub.coordinates()))}
        satt = attached(sub)
        table = {tuple(sorted(int(v) for v in t)): i for i, t in enumerate(gen.entity_vertices(sub, d))}
        g = gen.mesh_function(sub, d)
        expected = []
        for c in em.cells():
            t = tuple(sorted(key[np.ascontiguousarray(em.coordinates()[v]).tobytes()] for v in c))
            g[table[t]] = 2
            expected.append(outward(sub, t, satt[t][0]))
        if not known:
            em.compute_embedding(g, 2)
        n = sign*cell_values(make(em, sub))
        check_unit(rec, n, em)
        rec.close(n, np.array(expected), 'outer_of_submesh', atol=1E-8)
        return
    if what == 'markers':
        K.array()[:] = rng.integers(0, 4, mesh.num_cells())
        n = sign*cell_values(make(em, K))
    else:
        K = None
        n = sign*cell_values(make(em, df.FacetNormal(mesh)))
    check_unit(rec, n, em)
    for c in range(em.num_cells()):
        e = e_of[c]
        fc = fcells[e]
        facet = tuple(int(v) for v in fv[e])
        if len(fc) == 1:
            rec.close(n[c], outward(mesh, facet, fc[0]), 'outer_on_boundary', atol=1E-8)
        elif K is not None and K[fc[0]] != K[fc[1]]:
            high = max(fc, key=lambda i: K[i])
            rec.close(n[c], outward(mesh, facet, high), 'from_high_to_low_tag', atol=1E-8)
            rec.event('jump_normals')


def facets(rec, rng, what, dim):
    box = gen.Box(rng, dim, n=4 if dim == 2 else 2)
    mesh, d = box.mesh, dim-1
    K = gen.mesh_function(mesh, dim)
    for again in range(2):          # Then everything changes in place
        jumps(rec, rng, what, mesh, K)
        gen.move(rng, mesh)


def jumps(rec, rng, what, mesh, K):
    dim = mesh.topology().dim()
    d = dim-1
    tags = rng.choice([0, 1, 2, 1000000], mesh.num_cells())
    K.array()[:] = tags
    if what == 'function':
        n = OrientedFacetNormal(K)
    elif what == 'dg0':
        n = OrientedFacetNormal(pcws_constant(K))
    else:
        n = orient_facet_normal(df.FacetNormal(mesh), K if rng.integers(2) else pcws_constant(K))
    V = n.function_space()
    vec = n.vector().get_local()
    mesh.init(dim, d)
    c2f = mesh.topology()(dim, d)
    fv, att = gen.entity_vertices(mesh, d), attached(mesh)
    for c in range(mesh.num_cells()):
        for k, e in enumerate(c2f(c)):
            val = np.array([vec[V.sub(i).dofmap().cell_dofs(c)[V.sub(i).dofmap().tabulate_entity_dofs(d, k)]][0] for i in range(dim)])
            facet = tuple(int(v) for v in fv[e])
            fc = att[tuple(sorted(facet))]
            rec.close(np.linalg.norm(val), 1., 'unit_facet_normal')
            if len(fc) == 1:
                rec.close(val, outward(mesh, facet, c), 'facet_normal_boundary', atol=1E-8)
            elif tags[fc[0]] != tags[fc[1]]:
                rec.close(val, outward(mesh, facet, max(fc, key=lambda i: tags[i])), 'facet_normal_interface', atol=1E-8)
                rec.event('jump_normals')


def const(rec, rng, what, dim):
    mesh = df.UnitIntervalMesh(7) if dim == 1 else gen.Box(rng, dim, n=2).mesh
    K = gen.mesh_function(mesh, dim, values=rng.choice([0, 1, 5, 2**30], mesh.num_cells()))
    rec.close(cell_values(pcws_constant(K))[:, 0], K.array().astype(float), 'piecewise_constant')
    K.array()[:] = rng.choice([0, 3, 5], mesh.num_cells())
    rec.close(cell_values(pcws_constant(K))[:, 0], K.array().astype(float), 'piecewise_constant')
    if dim > 1:          # On a manifold
        f = gen.mesh_function(mesh, dim-1)
        f.array()[:] = rng.integers(0, 3, len(f.array()))
        em = EmbeddedMesh(f, [1, 2])
        rec.close(cell_values(pcws_constant(em.marking_function))[:, 0], em.marking_function.array().astype(float), 'piecewise_constant')


# --------------------------------------------------------------- curves
def curve_mesh(rng, edges, X, gdim):
    """Edges between points, everything renumbered"""
    X, C = np.asarray(X, dtype=float), np.array(edges, dtype=int)
    p = rng.permutation(len(X))
    C = p[C]
    flip = rng.integers(2, size=len(C)).astype(bool)
    C[flip] = C[flip][:, ::-1]
    return gen.build(X[np.argsort(p)], C[rng.permutation(len(C))], 1), p


def graph(rng, what, gdim):
    def path(k, first):
        return [(first+i, first+i+1) for i in range(k)], k+1

    def loop(k, first):
        return [(first+i, first+(i+1) % k) for i in range(k)], k

    def tree(k, first):
        return [(first+int(rng.integers(0, i)), first+i) for i in range(1, k)], k

    def cycles(k, first):
        g = nx.gnm_random_graph(k, k+2, seed=int(rng.integers(1 << 30)))
        g = g.subgraph(max(nx.connected_components(g), key=len))
        g = nx.convert_node_labels_to_integers(g)
        # Long arcs between the junctions
        edges, n = [], g.number_of_nodes()
        for a, b in g.edges:
            m = int(rng.integers(0, 3))
            chain = [a] + list(range(n, n+m)) + [b]
            n += m
            edges += [(first+i, first+j) for i, j in zip(chain, chain[1:])]
        return edges, n
    what = {'mixed': [path, loop, tree, loop, cycles], 'path': [path], 'loop': [loop], 'tree': [tree], 'cycles': [cycles]}[what]
    if len(what) > 1:
        what = [what[i] for i in rng.permutation(len(what))[:rng.integers(2, 4)]]
    edges, n = [], 0
    for f in what:
        e, m = f(int(rng.integers(4, 12)), n)
        edges += e
        n += m
    if gdim == 1:
        X = np.sort(rng.uniform(0, 1, n))[:, None] if not rng.integers(3) else np.linspace(0, 1, n)[::-1, None]
    else:
        X = rng.uniform(-1, 1, (n, gdim))
    return edges, X


def curve(rec, rng, what, gdim):
    edges, X = graph(rng, what, gdim)
    mesh, p = curve_mesh(rng, edges, X, gdim)
    g = nx.Graph([tuple(int(v) for v in c) for c in mesh.cells()])
    ends = [v for v in g if g.degree[v] == 1]
    root = None
    if ends and rng.integers(2):
        root = int(rng.choice(ends))
    directed(rec, mesh, g, root)
    gen.move(rng, mesh)
    directed(rec, mesh, g, root)


def directed(rec, mesh, g, root):
    state = gen.mesh_state(mesh)
    t = TangentCurve(mesh, root=root)
    rec.check(state == gen.mesh_state(mesh), 'curve_left_alone')
    t = cell_values(t)
    X, C = mesh.coordinates(), mesh.cells()
    tau = X[C[:, 1]]-X[C[:, 0]]
    tau /= np.linalg.norm(tau, axis=1)[:, None]
    s = np.sum(tau*t, axis=1)
    rec.close(np.abs(s), np.ones(len(s)), 'tangent_direction')
    rec.close(np.linalg.norm(t, axis=1), np.ones(len(s)), 'unit_tangent')
    rec.event('tangents', len(s))
    out = {v: [] for v in g}
    for c, (a, b) in enumerate(C):
        out[a].append(s[c] > 0)
        out[b].append(s[c] < 0)
    bad = [v for v in g if g.degree[v] == 2 and sum(out[v]) != 1]
    rec.check(not bad, 'tangent_continues', lambda: 'flips at %d of %d vertices' % (len(bad), len(g)))
    rec.event('loops', sum(all(g.degree[v] == 2 for v in c) for c in nx.connected_components(g)))
    # All in one direction along a path/tree
    for comp in nx.connected_components(g):
        sub = g.subgraph(comp)
        if not nx.is_tree(sub):
            continue
        # exactly one root: one vertex nothing comes to; every other is entered once
        entering = {v: sub.degree[v] - sum(out[v]) for v in sub}
        src = [v for v in sub if entering[v] == 0]
        rec.check(len(src) == 1 and sub.degree[src[0]] == 1 and all(k == 1 for v, k in entering.items() if v not in src),
                  'tangent_from_root', lambda: str(entering))
        if root is not None and root in sub:
            rec.check(src == [root], 'tangent_from_given_root', lambda: '%s vs %s' % (src, root))


def star(rng, n, centre, r=1., wiggle=0.3):
    th = np.sort(np.linspace(0, 2*np.pi, n, endpoint=False) + rng.uniform(-0.2, 0.2, n)*2*np.pi/n)
    R = r*(1 + wiggle*np.sin(rng.integers(2, 5)*th + rng.uniform(0, 6)))
    return np.c_[R*np.cos(th), R*np.sin(th)] + centre


def inside(poly, x):
    """Ray casting"""
    a, b = poly, np.roll(poly, -1, axis=0)
    cross = (a[:, 1] > x[1]) != (b[:, 1] > x[1])
    xs = a[:, 0] + (x[1]-a[:, 1])*(b[:, 0]-a[:, 0])/np.where(cross, b[:, 1]-a[:, 1], 1.)
    return int(np.sum(cross & (xs > x[0]))) % 2 == 1


def distance(poly, x):
    a, b = poly, np.roll(poly, -1, axis=0)
    t = np.clip(np.sum((x-a)*(b-a), axis=1)/np.sum((b-a)**2, axis=1), 0, 1)
    return np.min(np.linalg.norm(a + t[:, None]*(b-a) - x, axis=1))


def wind(rec, rng, what, gdim):
    n = int(rng.integers(30, 60))
    polys = [star(rng, n, rng.uniform(-1, 1, 2), wiggle=0. if what == 'polygon' else 0.3)]
    if what == 'two':
        polys.append(star(rng, n, rng.uniform(-1, 1, 2) + np.array([4, 0])))
    edges, X, k = [], np.vstack(polys), 0
    for p in polys:
        edges += [(k+i, k+(i+1) % len(p)) for i in range(len(p))]
        k += len(p)
    mesh, _ = curve_mesh(rng, edges, X, 2)
    winding(rec, rng, what, mesh, polys)
    to = gen.move(rng, mesh, rigid=True)
    winding(rec, rng, what, mesh, [to(p) for p in polys])


def winding(rec, rng, what, mesh, polys):
    X = np.vstack(polys)
    h = max(np.max(np.linalg.norm(p-np.roll(p, 1, axis=0), axis=1)) for p in polys)
    pts = np.array([x for x in rng.uniform(X.min(axis=0)-0.5, X.max(axis=0)+0.5, (40, 2))
                    if min(distance(p, x) for p in polys) > 1.5*h])
    ref = np.array([any(inside(p, x) for p in polys) for x in pts])
    ok, w = rec.guard('wind_number', wind_number, mesh, pts)
    if not ok:
        return
    rec.event('winding_points', len(pts))
    rec.event('inside_points', ref.sum())
    rec.close(np.abs(w), ref.astype(float), 'winding_number', atol=0.05)
    rec.check(np.array_equal(np.asarray(encloses_points(mesh, pts)), ref), 'encloses')
    if what == 'two':
        return
    rec.event('loops')
    poly, = polys
    for given in (None, 'out', 'in'):
        x = None
        if given:
            cand = pts[~ref] if given == 'out' else pts[ref]
            if not len(cand):
                continue
            x = cand[rng.integers(len(cand))]
        nrm = NormalCurve(mesh, outside=x)
        n = cell_values(nrm)
        check_unit(rec, n, mesh)
        mid = mesh.coordinates()[mesh.cells()].mean(axis=1)
        eps = 1E-4*h
        side = np.array([inside(poly, m + eps*v) for m, v in zip(mid, n)])
        rec.check(np.all(side == (given == 'in')), 'curve_normal_side', lambda: 'given %s: %d of %d to the inside' % (given, side.sum(), len(side)))
        rec.seen('curve normal', given)
