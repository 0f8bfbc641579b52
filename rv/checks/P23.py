"""Branches of curves: colouring, walking, contours."""
import numpy as np
import networkx as nx
import dolfin as df
import gen
from checks.P18 import curve_mesh, star, inside, distance
from xii.meshing.branching import color_branches, walk_vertices, walk_cells, is_loop, refine_contour, is_inside_contour, wind_number

RULE = ('case = (random multigraph whose edges are chains of segments: trees, loops at a junction, parallel chains, isolated '
        'loops and lines, chains of one segment; random numbering and vertex order; or closed contours with points). '
        'key = kind, number of branches and loops.')
REQUIRED = {'branches': 200, 'loops': 20, 'isolated_loops': 20, 'walked': 200, 'points': 200, 'whole_mesh': 10}
ASSUMPTIONS = ['networkx decides which cells form one branch; ray casting decides inside for points at least 1.5 segments off the contour']


def cases(tier, seed):
    rng = np.random.default_rng([seed, 2301])
    out = []
    for _ in range(50 if tier == 'quick' else 200):
        out += [('graph', 2), ('graph', 3), ('single', 2), ('single', 3), ('loops', 2), ('parts', 3), ('contour', 2), ('contour', 2)]
    return [out[i] for i in rng.permutation(len(out))]


def run(rec, case):
    kind, dim = case
    rec.ctx = '%s %dd' % case
    {'contour': contour}.get(kind, graph)(rec, rec.rng, kind, dim)


def chains(rng, kind):
    """List of chains of vertex numbers"""
    count = [0]

    def new(k=1):
        count[0] += k
        return list(range(count[0]-k, count[0]))

    def chain(a, b, m):
        return [a] + new(m) + [b]
    if kind == 'single':
        if rng.integers(2):
            a, b = new(2)
            return [chain(a, b, int(rng.integers(1, 8)))], count[0]
        a, = new()
        return [chain(a, a, int(rng.integers(2, 8)))], count[0]
    out = []
    if kind in ('loops', 'parts'):
        for _ in range(int(rng.integers(1, 4))):
            a, = new()
            out.append(chain(a, a, int(rng.integers(2, 6))))
    if kind == 'loops':
        return out, count[0]
    for _ in range(1 if kind == 'graph' else int(rng.integers(1, 3))):
        J = new(int(rng.integers(2, 6)))
        pairs = set()
        edges = [(J[int(rng.integers(0, i))], J[i]) for i in range(1, len(J))]
        edges += [tuple(int(v) for v in rng.choice(J, 2)) for _ in range(int(rng.integers(0, 4)))]
        for a, b in edges:
            m = int(rng.integers(0, 5))
            if a == b:
                m = max(m, 2)
            if m == 0 and frozenset((a, b)) in pairs:
                m = 1
            if m == 0:
                pairs.add(frozenset((a, b)))
            out.append(chain(a, b, m))
    return out, count[0]


def truth(mesh):
    """Sets of cells of branches/loops through a union over vertices of degree two"""
    C = mesh.cells()
    deg = np.bincount(C.flatten(), minlength=mesh.num_vertices())
    g = nx.Graph()
    g.add_nodes_from(range(len(C)))
    at = {}
    for c, vs in enumerate(C):
        for v in vs:
            if deg[v] == 2:
                at.setdefault(int(v), []).append(c)
    g.add_edges_from(at.values())
    branches, loops, isolated = [], [], 0
    for comp in nx.connected_components(g):
        ends = [int(v) for c in comp for v in C[c] if deg[v] != 2]
        if not ends:
            isolated += 1
        (loops if not ends or (len(ends) == 2 and ends[0] == ends[1]) else branches).append(frozenset(comp))
    return branches, loops, isolated, deg


def graph(rec, rng, kind, dim):
    lines, n = chains(rng, kind)
    edges = [(a, b) for l in lines for a, b in zip(l, l[1:])]
    X = rng.uniform(-1, 1, (n, dim))
    mesh, _ = curve_mesh(rng, edges, X, dim)
    branches, loops, isolated, deg = truth(mesh)
    rec.check(is_loop(mesh) == bool(np.all(deg == 2)), 'is_loop')
    state = gen.mesh_state(mesh)
    ok, out = rec.guard('color', color_branches, mesh)
    if not ok:
        return
    f, bc, lc = out
    rec.check(state == gen.mesh_state(mesh), 'mesh_left_alone')
    rec.event('branches', len(branches))
    rec.event('loops', len(loops))
    rec.event('isolated_loops', isolated)
    rec.seen(kind, dim, len(branches), len(loops))
    arr = f.array()
    rec.check(len(set(bc) | set(lc)) == len(bc)+len(lc) and set(int(v) for v in arr) == set(bc) | set(lc), 'every_cell_has_colour',
              lambda: 'colours %s, branches %s, loops %s' % (sorted(set(arr.tolist())), bc, lc))
    got = lambda colors: sorted(sorted(np.where(arr == c)[0].tolist()) for c in colors)
    rec.check(got(bc) == sorted(map(sorted, branches)), 'branches', lambda: '%d vs %d' % (len(bc), len(branches)))
    rec.check(got(lc) == sorted(map(sorted, loops)), 'loops', lambda: '%d vs %d' % (len(lc), len(loops)))
    for color in bc + lc:
        if len(arr) > 1:
            walk(rec, mesh, f, color, color in lc)
    # The same function with the colours exchanged
    if len(arr) > 1 and len(bc + lc) > 1:
        colors = bc + lc
        to = dict(zip(colors, colors[1:] + colors[:1]))
        arr[:] = [to[int(c)] for c in arr]
        for color in colors:
            walk(rec, mesh, f, to[color], color in lc)
    # The entire mesh
    if len(branches) + len(loops) == 1 and mesh.num_cells() > 1:
        loop = bool(loops)
        ok, vs = rec.guard('walk_mesh', lambda: list(walk_vertices(mesh, is_loop=loop)))
        if ok:
            rec.event('whole_mesh')
            judge(rec, mesh, range(mesh.num_cells()), [int(v) for v in vs], loop)


def walk(rec, mesh, f, color, loop):
    cells = np.where(f.array() == color)[0]
    ok, vs = rec.guard('walk', lambda: [int(v) for v in walk_vertices(f, tag=color, is_loop=loop)])
    if ok:
        judge(rec, mesh, cells, vs, loop)
    mesh.init(0, 1)
    c2v, v2c = mesh.topology()(1, 0), mesh.topology()(0, 1)
    ok, cs = rec.guard('walk', lambda: list(walk_cells(f.array(), color, c2v, v2c, loop)))
    if not ok:
        return
    rec.check(sorted(int(c) for c, _ in cs) == sorted(cells.tolist()), 'walk_visits_cells_once')
    ends = [tuple(int(v) for v in (mesh.cells()[c] if o else mesh.cells()[c][::-1])) for c, o in cs]
    rec.check(all(a[1] == b[0] for a, b in zip(ends, ends[1:])), 'walk_is_linked')
    rec.event('walked')


def judge(rec, mesh, cells, vs, loop):
    steps = [frozenset(s) for s in zip(vs, vs[1:])]
    rec.check(sorted(map(sorted, steps)) == sorted(sorted(int(v) for v in mesh.cells()[c]) for c in cells), 'walk_along_cells',
              lambda: '%d steps, %d cells' % (len(steps), len(cells)))
    rec.check((vs[0] == vs[-1]) == loop, 'walk_closes')


def contour(rec, rng, kind, dim):
    n = int(rng.integers(12, 40))
    poly = star(rng, n, rng.uniform(-1, 1, 2), wiggle=float(rng.choice([0, 0.3])))
    ccw = bool(rng.integers(2))
    if not ccw:
        poly = poly[::-1]
    closed = np.vstack([poly, poly[:1]])
    enclosed(rec, rng, closed, ccw)
    # The same array elsewhere, mirrored or not
    flip = np.array([rng.choice([-1, 1]), 1])
    closed[:] = closed*flip*rng.uniform(0.5, 2) + rng.uniform(-2, 2, 2)
    enclosed(rec, rng, closed, ccw == (flip[0] > 0))


def enclosed(rec, rng, closed, ccw):
    n, poly = len(closed)-1, closed[:-1]
    copy = closed.copy()
    for k in range(4):
        r = refine_contour(closed, k)
        rec.close(len(r), n*2**k + 1, 'refined_length')
        rec.close(r[::2**k], closed, 'refined_keeps_points')
        d = [distance(poly, x) for x in r]
        rec.close(d, np.zeros(len(d)), 'refined_on_contour')
        rec.close(np.linalg.norm(np.diff(r, axis=0), axis=1), np.repeat(np.linalg.norm(np.diff(closed, axis=0), axis=1)/2**k, 2**k), 'refined_lengths')
    h = np.linalg.norm(np.diff(closed, axis=0), axis=1).max()
    pts = np.array([x for x in rng.uniform(poly.min(axis=0)-0.5, poly.max(axis=0)+0.5, (30, 2)) if distance(poly, x) > 1.5*h])
    if not len(pts):
        return
    ref = np.array([inside(poly, x) for x in pts])
    w = wind_number(closed, pts, nrefs=3)
    rec.close(w, ref*(1. if ccw else -1.), 'wind', atol=1E-2)
    rec.check(np.array_equal(np.asarray(is_inside_contour(closed, pts, nrefs=3)), ref), 'inside')
    coarse = wind_number(closed, pts)
    rec.close(coarse, ref*(1. if ccw else -1.), 'wind', atol=0.1)
    rec.check(np.array_equal(closed, copy), 'contour_left_alone')
    rec.event('points', len(pts))
    rec.seen('contour', ccw, n > 25)
