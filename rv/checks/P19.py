"""Overlapping subdomain meshes, mortar meshes: maps between all of them and coupling through them."""
import itertools
import numpy as np
import networkx as nx
import dolfin as df
from dolfin import inner, Measure, TrialFunction, TestFunction
import gen, spaces
from xii import EmbeddedMesh, Trace, Restriction, ii_assemble, ii_convert
from xii.meshing.subdomain_mesh import SubDomainMesh, OverlapMesh
from xii.meshing.mortar_mesh import mortar_meshes
from checks.P17 import check_embedding, check_maps
from checks.P18 import attached

RULE = ('case = (random triangulation in 2d/3d of any size of coordinates, cells marked by nearest of random seeds or at '
        'random; two subdomain meshes with one common tag and their overlap with restrictions to it from both, or mortar '
        'meshes for some markers in random order with all or some interface facets, and traces from each subdomain to '
        'each interface next to it). key = kind, dimension, number of markers/interfaces.')
REQUIRED = {'overlap_cells': 200, 'interface_cells': 300, 'restrictions': 20, 'traces': 20, 'refused': 1}
ASSUMPTIONS = ['an interface is expected to be refused when its cells fall into parts without common vertices and '
               'expected to be accepted when they are connected through facets; in between nothing is demanded']


def cases(tier, seed):
    rng = np.random.default_rng([seed, 1901])
    out = [(k, d) for k in ('overlap', 'mortar', 'mortar', 'mortar', 'refuse') for d in (2, 3)]*(20 if tier == 'quick' else 60)
    return [out[i] for i in rng.permutation(len(out))]


def world(rng, dim):
    box = gen.Box(rng, dim, n=int(rng.integers(3, 7)) if dim == 2 else int(rng.integers(2, 4)))
    mesh = box.mesh
    scale = float(rng.choice([1E-3, 1, 1, 1E3]))
    mesh.coordinates()[:] *= scale
    mesh.coordinates()[:] += scale*float(rng.choice([0, 0, 10]))
    return box, mesh, scale


def colour(rng, mesh, n, tags, patchy=False):
    mid = mesh.coordinates()[mesh.cells()].mean(axis=1)
    lo, hi = mid.min(axis=0), mid.max(axis=0)
    seeds = rng.uniform(lo, hi, (n, mid.shape[1]))
    val = np.argmin(np.linalg.norm(mid[:, None]-seeds[None], axis=2), axis=1)
    if patchy:
        k = rng.random(len(val)) < 0.1
        val[k] = rng.integers(0, n, k.sum())
    return gen.mesh_function(mesh, mesh.topology().dim(), values=np.array(tags)[val])


def run(rec, case):
    kind, dim = case
    rec.ctx = '%s %dd' % case
    {'overlap': overlap, 'mortar': mortar, 'refuse': refuse}[kind](rec, rec.rng, dim)


def overlap(rec, rng, dim):
    box, mesh, scale = world(rng, dim)
    tags = [int(t) for t in rng.permutation([0, 1, 2, 5, 9])[:4]]
    f = colour(rng, mesh, 4, tags, patchy=True)
    overlapping(rec, rng, mesh, f, tags, scale)
    # The same mesh and function, with other positions and values
    gen.move(rng, mesh)
    f.array()[:] = colour(rng, mesh, 4, tags, patchy=True).array()
    rec.ctx += ', moved'
    overlapping(rec, rng, mesh, f, tags, scale)


def overlapping(rec, rng, mesh, f, tags, scale):
    dim = mesh.topology().dim()
    present = [t for t in tags if (f.array() == t).any()]
    if len(present) < 3:
        return
    common, rest = present[0], present[1:]
    k = int(rng.integers(1, len(rest)))
    side1, side2 = [common] + rest[:k], [common] + rest[k:]
    side1, side2 = [[int(t) for t in rng.permutation(s)] for s in (side1, side2)]
    mesh1, mesh2 = SubDomainMesh(f, tuple(side1)), SubDomainMesh(f, side2)
    check_embedding(rec, mesh1, f, side1)
    check_embedding(rec, mesh2, f, side2)
    ok, om = rec.guard('overlap', OverlapMesh, mesh1, mesh2)
    if not ok:
        return
    n = int((f.array() == common).sum())
    rec.close(om.num_cells(), n, 'overlap_cells')
    rec.event('overlap_cells', n)
    rec.seen('overlap', dim, len(side1), len(side2))
    for m in (mesh1, mesh2):
        if not rec.check(m.id() in om.parent_entity_map, 'parent_known'):
            return
        maps = om.parent_entity_map[m.id()]
        check_maps(rec, om, m, {k: (v if hasattr(v, 'keys') else dict(enumerate(v))) for k, v in maps.items()}, dim)
        rec.check(all(hasattr(v, 'keys') for v in maps.values()), 'maps_are_dictionaries')
        rec.check(any(p.id() == m.id() for p in om.parent_meshes), 'both_parents_registered')
        marker = m.marking_function
        rec.check(all(marker[int(c)] == common for c in (maps[dim].values() if hasattr(maps[dim], 'values') else maps[dim])), 'overlap_tag')
    rec.check(set(om.marking_function.array()) == {common}, 'overlap_marking')
    # Functions on either mesh restricted to the overlap
    dX = Measure('dx', domain=om)
    for m in (mesh1, mesh2):
        V = spaces.space(m, str(rng.choice(['CG1', 'CG2', 'DG1', 'RT1', 'vCG1', 'N1curl1'])))
        Q = spaces.like(V, 'DG', 1)(om)
        u = gen.randfun(rng, V)
        R = Restriction(TrialFunction(V), om)
        ok, A = rec.guard('restriction', lambda: gen.dense(ii_convert(ii_assemble(inner(R, TestFunction(Q))*dX))))
        if not ok:
            continue
        q = gen.randfun(rng, Q)
        ref = 0.
        table = cell_table(m)
        for c, x, w in gen.quad(om, 4):
            ref += np.sum(w*np.sum(gen.evaluate(u, x, table[cell_key(om, c)])*gen.evaluate(q, x, c), axis=1))
        rec.close(q.vector().get_local() @ A @ u.vector().get_local(), ref, 'restricted_values', atol=1E-10*scale**dim)
        rec.event('restrictions')
    # Coupling of both
    V1, V2 = spaces.space(mesh1, 'CG1'), spaces.space(mesh2, 'DG1')
    u1, u2 = gen.randfun(rng, V1), gen.randfun(rng, V2)
    ok, val = rec.guard('restriction', lambda: ii_assemble(inner(Restriction(u1, om), Restriction(u2, om))*dX))
    if ok:
        t1, t2 = cell_table(mesh1), cell_table(mesh2)
        ref = sum(np.sum(w*np.sum(gen.evaluate(u1, x, t1[cell_key(om, c)])*gen.evaluate(u2, x, t2[cell_key(om, c)]), axis=1))
                  for c, x, w in gen.quad(om, 4))
        rec.close(val, ref, 'overlap_coupling', atol=1E-10*scale**dim)


def cell_key(mesh, c):
    X = mesh.coordinates()[mesh.cells()[c]]
    return tuple(sorted(x.tobytes() for x in np.ascontiguousarray(X)))


def cell_table(mesh):
    return {cell_key(mesh, c): c for c in range(mesh.num_cells())}


def pieces(mesh, d, facets, fv):
    """Numbers of parts of the set of facets connected by vertices/by their own facets"""
    out = []
    for size in (1, d):
        g = nx.Graph()
        for e in facets:
            for s in itertools.combinations(sorted(int(v) for v in fv[e]), size):
                g.add_edge(('e', e), ('s', s))
        out.append(nx.number_connected_components(g))
    return out


def mortar(rec, rng, dim, scatter=False):
    box, mesh, scale = world(rng, dim)
    n = int(rng.integers(2, 6))
    tags = [int(t) for t in rng.permutation([0, 1, 2, 3, 8, 11])[:n]]
    f = colour(rng, mesh, n, tags, patchy=bool(rng.integers(2)))
    mortars(rec, rng, mesh, f, tags, scale, scatter)
    gen.move(rng, mesh)
    f.array()[:] = colour(rng, mesh, n, tags, patchy=bool(rng.integers(2))).array()
    rec.ctx += ', moved'
    mortars(rec, rng, mesh, f, tags, scale, scatter)


def mortars(rec, rng, mesh, f, tags, scale, scatter):
    dim, n = mesh.topology().dim(), len(tags)
    present = [t for t in tags if (f.array() == t).any()]
    markers = [int(t) for t in rng.permutation(present)[:max(2, int(rng.integers(2, n+1)))]]
    if len(markers) < 2:
        return
    if not scatter and rng.integers(3) == 0:
        markers = tuple(markers)
    d = dim-1
    fv, att = gen.entity_vertices(mesh, d), attached(mesh)
    pairs = {}
    for e, vs in enumerate(fv):
        cs = att[tuple(sorted(int(v) for v in vs))]
        t = tuple(sorted({int(f[c]) for c in cs}))
        if len(t) == 2 and set(t) <= set(markers):
            pairs.setdefault(t, []).append(e)
    if not pairs:
        return
    all_facets = [e for es in pairs.values() for e in es]
    kw = {}
    if rng.integers(3) == 0:                 # Only some facets may be the interface
        keep = set(int(e) for e in rng.permutation(all_facets)[:max(1, len(all_facets)//2)])
        g = gen.mesh_function(mesh, d, {1: sorted(keep | set(int(e) for e in rng.choice(len(fv), 5)))})
        keep = set(np.where(g.array() == 1)[0])
        pairs = {t: [e for e in es if e in keep] for t, es in pairs.items()}
        pairs = {t: es for t, es in pairs.items() if es}
        kw['ifacet_iter'] = df.SubsetIterator(g, 1)
        all_facets = [e for es in pairs.values() for e in es]
        if not pairs:
            return
    by_vertex, by_facet = pieces(mesh, d, all_facets, fv)
    strict = by_facet == 1
    rec.ctx += ' markers %s of %s' % (markers, present)
    if by_vertex > 1:
        kws = dict(kw)
        if 'ifacet_iter' in kw:
            kws['ifacet_iter'] = df.SubsetIterator(g, 1)
        rec.raises(AssertionError, 'disconnected_interface_refused', lambda: mortar_meshes(f, markers, **kws))
        rec.event('refused')
    if scatter and by_vertex > 1:
        return
    before = gen.mesh_state(mesh), f.array().copy()
    ok, out = rec.guard('mortar', mortar_meshes, f, markers, strict=strict, **kw)
    if not ok:
        return
    rec.check(before[0] == gen.mesh_state(mesh) and np.array_equal(before[1], f.array()), 'inputs_left_alone')
    meshes, iface, colors = out
    rec.close(len(meshes), len(markers), 'one_mesh_per_marker')
    for m, t in zip(meshes, markers):
        check_embedding(rec, m, f, [t])
    # The interface consists of the right facets with color telling the pair
    got = {}
    mf = iface.marking_function
    pmap = iface.parent_entity_map[mesh.id()]
    check_maps(rec, iface, mesh, pmap, d)
    for c in range(iface.num_cells()):
        got.setdefault(tuple(sorted(markers[i] for i in colors[mf[c]])), []).append(int(pmap[d][c]))
    rec.check({k: sorted(v) for k, v in got.items()} == {k: sorted(int(e) for e in v) for k, v in pairs.items()}, 'interface_facets',
              lambda: '%s vs %s' % (sorted(got), sorted(pairs)))
    rec.event('interface_cells', iface.num_cells())
    rec.seen('mortar', dim, len(markers), len(pairs), strict, bool(kw))
    # Maps to each of the submeshes
    for i, m in enumerate(meshes):
        mine = [k for k, p in enumerate(colors) if i in p]
        cells = set(int(c) for c in np.where(np.isin(mf.array(), mine))[0]) if mine else set()
        if not rec.check(m.id() in iface.parent_entity_map, 'submesh_map'):
            continue
        maps = iface.parent_entity_map[m.id()]
        entity = maps[d]
        if not hasattr(entity, 'keys'):
            rec.check(False, 'submesh_map_type', 'map of cells is %s' % type(entity))
            entity = {c: e for c, e in enumerate(entity) if e is not None}
        rec.check(set(int(c) for c in entity) == cells, 'submesh_map_cells', lambda: '%d of %d' % (len(entity), len(cells)))
        t = {cell_facet_key(m, v): e for e, v in enumerate(gen.entity_vertices(m, d))}
        rec.check(all(t.get(cell_key(iface, c)) == int(e) for c, e in entity.items()), 'submesh_map_facets')
        if rec.check(0 in maps, 'submesh_vertex_map'):
            mine_v = {int(v) for c in cells for v in iface.cells()[c]}
            rec.check({int(v) for v in maps[0]} == mine_v, 'submesh_all_vertices', lambda: '%d of %d' % (len(maps[0]), len(mine_v)))
            rec.check(all(np.array_equal(iface.coordinates()[v], m.coordinates()[w]) for v, w in maps[0].items()), 'submesh_vertices')
        for k in mine:
            trace(rec, rng, m, iface, k, scale)
        if len(mine) > 1:
            trace(rec, rng, m, iface, mine, scale)


def cell_facet_key(mesh, vertices):
    return tuple(sorted(x.tobytes() for x in np.ascontiguousarray(mesh.coordinates()[vertices])))


def trace(rec, rng, m, iface, tag, scale):
    """Trace from the subdomain mesh to the pieces of interface next to it"""
    dim = m.topology().dim()
    V = spaces.space(m, str(rng.choice(['CG1', 'CG2', 'DG1', 'RT1', 'vCG1'])))
    Q = spaces.like(V, 'DG', 1)(iface)
    dX = Measure('dx', domain=iface)
    u, q = gen.randfun(rng, V), gen.randfun(rng, Q)
    ok, A = rec.guard('trace_to_interface', lambda: gen.dense(ii_convert(ii_assemble(
        inner(Trace(TrialFunction(V), iface, tag=tag), TestFunction(Q))*dX))))
    if not ok:
        return
    att = attached(m)
    lookup = {cell_facet_key(m, list(vs)): cs for vs, cs in att.items()}
    tags = [tag] if isinstance(tag, int) else tag
    live = np.where(np.isin(iface.marking_function.array(), tags))[0]
    ref = 0.
    for c, x, w in gen.quad(iface, 4, cells=live):
        cs = lookup[cell_key(iface, c)]
        ref += np.sum(w*np.sum(gen.evaluate(u, x, cs[0])*gen.evaluate(q, x, c), axis=1))
    rec.close(q.vector().get_local() @ A @ u.vector().get_local(), ref, 'interface_trace', atol=1E-9*scale**(dim-1))
    rec.event('traces')


def refuse(rec, rng, dim):
    """Three slabs: two interfaces far apart"""
    n = 5 if dim == 2 else 4
    box = gen.Box(rng, dim, n=n)
    mesh = box.mesh
    a, b, c = [int(t) for t in rng.permutation([0, 1, 2, 7])[:3]]
    f = gen.mesh_function(mesh, dim, {a: box.cells_where(lambda r: r[0] < 1./n), b: box.cells_where(lambda r: 1./n < r[0] < 1-1./n),
                                      c: box.cells_where(lambda r: r[0] > 1-1./n)})
    rec.raises(AssertionError, 'disconnected_interface_refused', lambda: mortar_meshes(f, [a, b, c]))
    rec.event('refused')
    ok, out = rec.guard('mortar', mortar_meshes, f, [a, b, c], strict=False)
    ok and rec.close(len(out[2]), 2, 'two_interfaces')
    ok, out = rec.guard('mortar', mortar_meshes, f, [a, b])
    if ok:
        meshes, iface, colors = out
        k = n if dim == 2 else 2*n*n
        rec.close(iface.num_cells(), k, 'flat_interface')
        for m in meshes:
            trace(rec, rng, m, iface, 0, 1.)
