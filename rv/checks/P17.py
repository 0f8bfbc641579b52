"""Embedded meshes, their maps to parents and the markers they inherit."""
import numpy as np
import dolfin as df
import gen
from xii import EmbeddedMesh
from xii.meshing.embedded_mesh import build_embedding_map, Skeleton
from xii.meshing.transfer_markers import transfer_markers

RULE = ('case = (dimensions of parent, of the embedded mesh and the scenario: markers given as int/list/tuple/set with '
        'absent ones among them, nested embeddings, second parent found by compute_embedding on a renumbered mesh that '
        'shares the entities, markers of lower dimensional entities moved to the child with translate_markers (subset '
        'of tags, given output, several calls) and transfer_markers, map rebuilt by build_embedding_map for all or '
        'some cells, mesh with/without boundary skeleton). Parents are random triangulations with renumbered vertices. '
        'key = scenario, dimensions, form of the markers.')
REQUIRED = {'cells': 2000, 'moved_markers': 100, 'second_parent': 4, 'nested': 4, 'rebuilt': 4, 'one_cell': 2}
ASSUMPTIONS = ['entities are identified through the bit-exact coordinates of their vertices (numpy)']

DIMS = ((2, 2), (2, 1), (3, 3), (3, 2), (3, 1))
KINDS = ('plain', 'nested', 'second', 'translate', 'transfer', 'rebuild', 'skeleton', 'one')


def cases(tier, seed):
    rng = np.random.default_rng([seed, 1701])
    out = [(k, d) for k in KINDS for d in DIMS]*(12 if tier == 'quick' else 40)
    return [out[i] for i in rng.permutation(len(out))]


def ids(X):
    return {x.tobytes(): i for i, x in enumerate(np.ascontiguousarray(X))}


def match(child, parent):
    """vertex of child -> vertex of parent (None if not there), by coordinates"""
    table = ids(parent.coordinates())
    return [table.get(x.tobytes()) for x in np.ascontiguousarray(child.coordinates())]


def tuples(mesh, d):
    return [tuple(sorted(v)) for v in gen.entity_vertices(mesh, d)]


def random_tags(rng, mesh, d, density=None):
    """Random values for the entities of dimension d"""
    n = len(gen.entity_vertices(mesh, d))
    values = rng.choice([1, 2, 3, 7, 40], size=n)
    keep = rng.random(n) < (rng.uniform(0.1, 0.6) if density is None else density)
    if not keep.any():
        keep[rng.integers(n)] = True
    f = gen.mesh_function(mesh, d, values=np.where(keep, values, 0))
    return f


def choose(rng, f):
    """Markers in one of the accepted forms"""
    present = sorted(int(v) for v in set(f.array().tolist()))
    nz = [v for v in present if v] or present
    form = str(rng.choice(['int', 'list', 'tuple', 'set', 'absent', 'one']))
    sub = [int(v) for v in rng.permutation(nz)[:rng.integers(1, len(nz)+1)]]
    if form == 'int':
        return sub[0], sub[:1], form
    if form == 'one':
        return [sub[0]], sub[:1], form
    if form == 'absent':
        return sub + [11], sub + [11], form
    return {'list': list, 'tuple': tuple, 'set': set}[form](sub), sub, form


def check_embedding(rec, em, f, tags, key=None):
    """Cells of em are the entities of f.mesh() marked by tags"""
    parent, d = f.mesh(), f.dim()
    fv = gen.entity_vertices(parent, d)
    arr = f.array()
    rec.check(em.topology().dim() == d and em.geometry().dim() == parent.geometry().dim(), 'dimensions')
    wanted = np.where(np.isin(arr, tags))[0]
    rec.close(em.num_cells(), len(wanted), 'number_of_cells')
    rec.close(em.num_vertices(), len(np.unique(fv[wanted])), 'number_of_vertices')
    rec.check(em.tagged_cells == set(tags), 'tagged_cells', lambda: '%s vs %s' % (em.tagged_cells, tags))
    rec.check(any(m.id() == parent.id() for m in em.parent_meshes), 'parent_registered')
    if not rec.check(parent.id() in em.parent_entity_map, 'map_registered'):
        return
    maps = em.parent_entity_map[parent.id()]
    check_maps(rec, em, parent, maps, d)
    rec.check(sorted(maps[d].values()) == sorted(wanted), 'cells_are_marked_entities')
    mf = em.marking_function
    rec.check(mf.dim() == d and mf.mesh().id() == em.id(), 'marking_function')
    rec.check(all(mf[c] == arr[e] for c, e in maps[d].items()), 'inherited_markers',
              lambda: str([(c, int(mf[c]), int(arr[e])) for c, e in maps[d].items() if mf[c] != arr[e]][:5]))
    rec.event('cells', len(wanted))
    # Usable with dolfin
    one = df.assemble(df.Constant(1)*df.dx(domain=em))
    X = parent.coordinates()
    rec.close(one, sum(gen.simplex_volume(X[fv[e]]) for e in wanted), 'measure')
    for t in tags:
        one = df.assemble(df.Constant(1)*df.Measure('dx', domain=em, subdomain_data=mf)(int(t)))
        rec.close(one, sum(gen.simplex_volume(X[fv[e]]) for e in np.where(arr == t)[0]), 'measure_of_tag')


def check_maps(rec, em, parent, maps, d, all_cells=True):
    """Entries of entity and vertex maps are consistent with the coordinates and with each other"""
    fv = gen.entity_vertices(parent, d)
    c2v, X, Y = em.cells(), em.coordinates(), parent.coordinates()
    rec.check(set(maps) >= {0, d}, 'map_dimensions')
    if all_cells:
        rec.check(set(maps[d]) == set(range(em.num_cells())), 'every_cell_mapped')
        rec.check(set(maps[0]) == set(range(em.num_vertices())), 'every_vertex_mapped',
                  lambda: '%d of %d' % (len(maps[0]), em.num_vertices()))
    else:
        rec.check(set(maps[0]) == {v for c in maps[d] for v in c2v[c]}, 'vertices_of_mapped_cells')
    rec.check(all(np.array_equal(X[v], Y[w]) for v, w in maps[0].items()), 'vertex_map')
    rec.check(all({maps[0].get(v) for v in c2v[c]} == set(fv[e]) for c, e in maps[d].items()), 'entity_map')
    rec.check(len(set(maps[d].values())) == len(maps[d]), 'entity_map_injective')


def world(rng, dims):
    gdim, d = dims
    box = gen.Box(rng, gdim, n=int(rng.integers(3, 5)) if gdim == 2 else 2)
    return box, box.mesh


def embed(rec, rng, mesh, d, density=None):
    f = random_tags(rng, mesh, d, density)
    markers, tags, form = choose(rng, f)
    before = gen.mesh_state(mesh), f.array().copy()
    em = EmbeddedMesh(f, markers)
    rec.check(before[0] == gen.mesh_state(mesh) and np.array_equal(before[1], f.array()), 'parent_left_alone')
    rec.seen('embed', mesh.geometry().dim(), mesh.topology().dim(), d, form)
    return em, f, tags


def reachable(em, parent, k, d, maps):
    """Those with a mapped cell next to them"""
    truth = children_of(em, parent, k)
    em.init(k, d)
    e2c = em.topology()(k, d)
    return {c: p for c, p in truth.items() if any(int(x) in maps[d] for x in e2c(c))}


def children_of(em, parent, d):
    """child entity (sorted child vertices) -> entity of parent which is it; only entities of parent
    with a cell of em around are reachable"""
    vm = match(em, parent)
    table = {t: i for i, t in enumerate(tuples(parent, d))}
    out = {}
    for i, t in enumerate(tuples(em, d)):
        pv = [vm[v] for v in t]
        if None not in pv:
            e = table.get(tuple(sorted(pv)))
            if e is not None:
                out[i] = e
    return out


def run(rec, case):
    kind, dims = case
    gdim, d = dims
    rng = rec.rng
    rec.ctx = '%s %dd in %dd' % (kind, d, gdim)
    globals()['do_' + kind](rec, rng, gdim, d)
    rec.seen(kind, gdim, d)


def do_plain(rec, rng, gdim, d):
    box, mesh = world(rng, (gdim, d))
    for _ in range(3):
        em, f, tags = embed(rec, rng, mesh, d)
        check_embedding(rec, em, f, tags)
    # Marking everything by zero
    f = gen.mesh_function(mesh, d)
    em = EmbeddedMesh(f, 0)
    check_embedding(rec, em, f, [0])
    # The mesh moves, other entities are marked in the same function
    for _ in range(2):
        gen.move(rng, mesh)
        f.array()[:] = random_tags(rng, mesh, d).array()
        markers, tags, form = choose(rng, f)
        em = EmbeddedMesh(f, markers)
        rec.ctx = 'plain, changed in place'
        check_embedding(rec, em, f, tags)


def do_one(rec, rng, gdim, d):
    box, mesh = world(rng, (gdim, d))
    f = gen.mesh_function(mesh, d)
    e = int(rng.integers(len(gen.entity_vertices(mesh, d))))
    f[e] = 4
    em = EmbeddedMesh(f, 4)
    check_embedding(rec, em, f, [4])
    rec.event('one_cell')
    if d < gdim:
        ok, maps = rec.guard('rebuild_one_cell', build_embedding_map, em, mesh)
        ok and check_maps(rec, em, mesh, maps, d)


def do_nested(rec, rng, gdim, d):
    box, mesh = world(rng, (gdim, d))
    base, level = mesh, gdim
    chain = []
    while True:
        low = int(rng.integers(max(1, d if level > d else level), level+1)) if level > d else d
        em, f, tags = embed(rec, rng, base, low, density=0.8)
        check_embedding(rec, em, f, tags)
        chain.append((em, f, tags))
        base, level = em, low
        if level == d and len(chain) > 1:
            break
    for em, f, tags in chain:          # Going on does not change the older ones
        check_embedding(rec, em, f, tags)
    rec.event('nested')


def sibling(rng, mesh):
    """The same mesh numbered otherwise, possibly with a part of the cells only"""
    X, C = mesh.coordinates().copy(), mesh.cells().copy()
    p = rng.permutation(len(X))
    return gen.build(X[np.argsort(p)], p[C][rng.permutation(len(C))])


def do_second(rec, rng, gdim, d):
    if d == gdim and rng.integers(2):
        d = gdim-1
    box, mesh = world(rng, (gdim, d))
    em, f, tags = embed(rec, rng, mesh, d)
    other = sibling(rng, mesh)
    # Entities of the other mesh which are cells of em
    vm = match(em, other)
    table = {t: i for i, t in enumerate(tuples(other, d))}
    ents = [table[tuple(sorted(vm[v] for v in c))] for c in em.cells()]
    part = bool(rng.integers(2))
    if part:
        cells = np.sort(rng.choice(len(ents), int(rng.integers(1, len(ents)+1)), replace=False))
    else:
        cells = np.arange(len(ents))
    g = gen.mesh_function(other, d)
    tagged = rng.choice([3, 5], size=len(cells))
    for c, t in zip(cells, tagged):
        g[int(ents[c])] = int(t)
    use = sorted(set(int(t) for t in tagged))
    if len(use) == 1 and rng.integers(2):
        use = use[0]
    ok, maps = rec.guard('compute_embedding', em.compute_embedding, g, use)
    if not ok:
        return
    rec.event('second_parent')
    rec.check(em.parent_entity_map[other.id()] is maps or em.parent_entity_map[other.id()] == maps, 'registered')
    rec.check(any(m.id() == other.id() for m in em.parent_meshes), 'second_parent_registered')
    check_embedding(rec, em, f, tags)
    rec.check({c: int(e) for c, e in maps[d].items()} == {int(c): ents[c] for c in cells}, 'second_entity_map')
    check_maps(rec, em, other, maps, d, all_cells=not part)
    rec.raises(ValueError, 'embedding_known', lambda: em.compute_embedding(g, use))
    move_translate(rec, rng, em, other, d, maps)
    move_transfer(rec, rng, em, other, d, maps)


def move_translate(rec, rng, em, parent, d, maps):
    k = int(rng.integers(0, d))
    values = random_tags(rng, parent, k)
    arr = values.array()
    present = sorted(set(int(v) for v in arr))
    how = str(rng.choice(['all', 'int', 'some', 'given', 'twice']))
    truth = reachable(em, parent, k, d, maps)
    tags = {'int': present[-1]}.get(how, [int(t) for t in rng.permutation(present)[:max(1, len(present)//2)]])
    used = present if how == 'all' else ([tags] if how == 'int' else tags)
    expected = np.zeros(em.num_entities(k), dtype=int)
    given = None
    if how in ('given', 'twice'):
        given = gen.mesh_function(em, k, values=rng.choice([0, 9], size=len(expected)))
        expected = given.array().astype(int)
    for c, p in truth.items():
        if arr[p] in used:
            expected[c] = arr[p]
    kw = {} if how == 'all' else {'tags': tags}
    if given is not None:
        kw['marker_f'] = given
    rec.ctx += ' translate %s dim %d' % (how, k)
    ok, out = rec.guard('translate_markers', em.translate_markers, values, **kw)
    if not ok:
        return
    if how == 'twice':
        out = em.translate_markers(values, **kw)
    rec.check(given is None or out is given, 'translates_into_given')
    rec.check(out.mesh().id() == em.id() and out.dim() == k, 'translated_function')
    rec.check(np.array_equal(out.array().astype(int), expected), 'translated_markers',
              lambda: 'first differences %s' % [(i, int(a), int(b)) for i, (a, b) in enumerate(zip(out.array(), expected)) if a != b][:5])
    rec.event('moved_markers', sum(arr[p] in used and arr[p] != 0 for p in truth.values()))
    rec.seen('translate', how, k, d)


def move_transfer(rec, rng, em, parent, d, maps):
    k = int(rng.integers(0, d))
    values = random_tags(rng, parent, k)
    arr = values.array()
    present = sorted(set(int(v) for v in arr) - {0})
    some = bool(rng.integers(2)) and present
    used = [int(t) for t in rng.permutation(present)[:max(1, len(present)//2)]] if some else present
    truth = reachable(em, parent, k, d, maps)
    expected = np.zeros(em.num_entities(k), dtype=int)
    for c, p in truth.items():
        if arr[p] in used:
            expected[c] = arr[p]
    rec.ctx += ' transfer dim %d' % k
    again = not some and bool(rng.integers(2))
    if again:               # Once with different values
        arr[:] = rng.permutation(arr)
        rec.guard('transfer_markers', transfer_markers, em, values)
        arr[:] = rng.choice([0, 1, 6], len(arr))
        expected[:] = 0
        for c, p in truth.items():
            expected[c] = arr[p]
        used = [1, 6]
    before = arr.copy()
    ok, out = rec.guard('transfer_markers', lambda: transfer_markers(em, values, markers=used) if some else transfer_markers(em, values))
    if not ok:
        return
    rec.check(out.mesh().id() == em.id() and out.dim() == k, 'transferred_function')
    rec.check(np.array_equal(out.array().astype(int), expected), 'transferred_markers',
              lambda: 'first differences %s' % [(i, int(a), int(b)) for i, (a, b) in enumerate(zip(out.array(), expected)) if a != b][:5])
    rec.check(np.array_equal(before, arr), 'source_left_alone')
    rec.event('moved_markers', sum(arr[p] in used for p in truth.values()))
    rec.seen('transfer', some, k, d)


def do_translate(rec, rng, gdim, d):
    box, mesh = world(rng, (gdim, d))
    em, f, tags = embed(rec, rng, mesh, d)
    for _ in range(3):
        move_translate(rec, rng, em, mesh, d, em.parent_entity_map[mesh.id()])
        rec.ctx = 'translate %dd in %dd' % (d, gdim)


def do_transfer(rec, rng, gdim, d):
    box, mesh = world(rng, (gdim, d))
    em, f, tags = embed(rec, rng, mesh, d)
    for _ in range(3):
        move_transfer(rec, rng, em, mesh, d, em.parent_entity_map[mesh.id()])
        rec.ctx = 'transfer %dd in %dd' % (d, gdim)


def do_rebuild(rec, rng, gdim, d):
    if d == gdim:
        d = gdim-1
    box, mesh = world(rng, (gdim, d))
    kind = str(rng.choice(['embedded', 'copy', 'boundary', 'flagged', 'tags']))
    if kind in ('boundary', 'flagged'):
        d = gdim-1
        em = df.BoundaryMesh(mesh, 'exterior')
        if kind == 'flagged':
            em.parent_id = mesh.id()
    else:
        em, f, tags = embed(rec, rng, mesh, d)
        if kind == 'copy':
            em = sibling(rng, em)
    rec.ctx = 'rebuild %s %dd in %dd' % (kind, d, gdim)
    if kind == 'tags':
        sub = random_tags(rng, em, d)
        present = sorted(set(int(v) for v in sub.array()))
        use = [int(t) for t in rng.permutation(present)[:max(1, len(present)//2)]]
        ok, maps = rec.guard('build_embedding_map', build_embedding_map, em, mesh, esubdomains=sub, tags=use)
        if not ok:
            return
        rec.check(set(maps[d]) == set(np.where(np.isin(sub.array(), use))[0]), 'tagged_cells_mapped')
        check_maps(rec, em, mesh, maps, d, all_cells=False)
    else:
        ok, maps = rec.guard('build_embedding_map', build_embedding_map, em, mesh)
        if not ok:
            return
        check_maps(rec, em, mesh, maps, d)
        gen.move(rng, em, mesh)
        ok, maps = rec.guard('build_embedding_map', build_embedding_map, em, mesh)
        ok and check_maps(rec, em, mesh, maps, d)
    rec.event('rebuilt')
    rec.seen('rebuild', kind, gdim, d)


def do_skeleton(rec, rng, gdim, d):
    box, mesh = world(rng, (gdim, d))
    d = gdim-1
    for boundary in (False, True):
        sk = Skeleton(mesh, include_boundary=boundary)
        mesh.init(d, gdim)
        f2c = mesh.topology()(d, gdim)
        fs = [e for e in range(mesh.num_entities(d)) if boundary or len(f2c(e)) == 2]
        f = gen.mesh_function(mesh, d, {1: fs})
        check_embedding(rec, sk, f, [1])
