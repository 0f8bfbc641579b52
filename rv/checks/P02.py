"""One- and two-sided traces of discontinuous functions."""
import numpy as np
import dolfin as df
from dolfin import inner, TrialFunction, TestFunction, Measure
import gen, spaces
from checks.P01 import parents_of, large
from xii import EmbeddedMesh, Trace, ii_assemble, ii_convert

RULE = ('case = (box triangulation with random affine map and renumbering, random interior facets (+ boundary facets) as '
        'manifold with random tags, element, restriction). The normal is the exact facet normal with a random sign and '
        'length per facet. Non-trivial when plus and minus values differ on at least 3 facets (always for discontinuous '
        'elements); key = dim/element/restriction/tag.')
REQUIRED = {'two_sided_facets': 400, 'boundary_facets': 40, 'jump_sign_resolved': 200, 'tagged_out_cells': 10, 'thin': 3, 'large': 20001}

E2 = ('DG0', 'DG1', 'vDG1', 'RT1', 'BDM1', 'N1curl1', 'CG2', 'CR1', 'tDG0', 'wDG1', 'hDG0', 'MX', 'MD', 'TH', 'vRT1')
E3 = ('DG0', 'DG1', 'vDG0', 'RT1', 'CG1', 'wDG0', 'MX', 'MD')


def cases(tier, seed):
    rng = np.random.default_rng([seed, 102])
    reps = 1 if tier == 'quick' else 10
    out = []
    for r in range(reps):
        for dim, elms in ((2, E2), (3, E3)):
            out += [(dim, e, bool(rng.integers(2))) for e in elms for _ in range(3 if dim == 2 else 2)]
        out += [('large', str(rng.choice(['DG0', 'DG1'])), r) for r in (str(rng.choice(['+', '-'])), str(rng.choice(['avg', 'jump'])))]
    return [out[i] for i in rng.permutation(len(out))]


def run(rec, case):
    if case[0] == 'large':
        return large(rec, *case[1:])
    dim, elm, localise = case
    rng = rec.rng
    rec.ctx = '%dd %s' % (dim, elm)
    box = gen.Box(rng, dim, n=4 if dim == 2 else 2)
    mesh, fdim = box.mesh, dim-1
    if rng.integers(3) == 0:
        gen.stretch(rng, mesh)
        rec.event('thin')
        rec.ctx += ' thin'
    mesh.init(fdim, dim)
    f2c = mesh.topology()(fdim, dim)
    nf = mesh.num_entities(fdim)
    interior = np.array([e for e in range(nf) if len(f2c(e)) == 2])
    bdry = np.array([e for e in range(nf) if len(f2c(e)) == 1])
    chosen = np.r_[rng.choice(interior, size=int(rng.integers(5, max(6, len(interior)//2))), replace=False),
                   rng.choice(bdry, size=int(rng.integers(0, 5)), replace=False)].astype(int)
    f = gen.mesh_function(mesh, fdim)
    tags = rng.choice([1, 3], size=len(chosen))
    tags[:2] = [1, 3]
    f.array()[chosen] = tags
    em = EmbeddedMesh(f, [1, 3])
    cells = parents_of(mesh, em)
    tag, live = None, np.ones(em.num_cells(), dtype=bool)
    if localise:
        tag = int(rng.choice([1, 3]))
        live = em.marking_function.array() == tag

    # Exact normals
    X, C = em.coordinates(), em.cells()
    fm = X[C].mean(axis=1)
    N = np.zeros((em.num_cells(), dim))
    cm = mesh.coordinates()[mesh.cells()].mean(axis=1)
    for c in range(em.num_cells()):
        P = X[C[c]]
        n = np.linalg.svd(P[1:]-P[0])[2][-1]
        # On the boundary choose the sign for which the requested side exists (see below)
        N[c] = n*rng.choice([-1, 1])*rng.uniform(0.3, 2)
    W = df.VectorFunctionSpace(em, 'DG', 0, dim)
    V = spaces.space(mesh, elm)
    Q = spaces.like(V, 'DG', 1)(em)
    dX = Measure('dx', domain=em)
    u, v, q = TrialFunction(V), TestFunction(V), TestFunction(Q)
    h = gen.randfun(rng, V)
    hv = h.vector().get_local()
    r = gen.randfun(rng, Q)
    rv = r.vector().get_local()
    got = {}
    for restriction in ('+', '-', 'avg', 'jump'):
        Nr = N.copy()
        for c in range(em.num_cells()):
            if len(cells[c]) == 1:
                inward = np.dot(cm[cells[c][0]] - fm[c], Nr[c]) > 0      # the cell is '+'
                if (restriction == '+' and not inward) or (restriction == '-' and inward):
                    Nr[c] *= -1
        nrm = df.Function(W)
        vals = np.zeros(W.dim())
        for c in range(em.num_cells()):
            for i in range(dim):
                vals[W.sub(i).dofmap().cell_dofs(c)] = Nr[c, i]
        nrm.vector().set_local(vals)
        A = gen.dense(ii_convert(ii_assemble(inner(Trace(u, em, restriction, nrm, tag=tag), q)*dX)))
        b = ii_assemble(inner(Trace(h, em, restriction=restriction, normal=nrm, tag=tag), q)*dX).get_local()
        rec.close(b, A @ hv, 'trial_vs_coefficient')
        bt = gen.dense(ii_convert(ii_assemble(inner(TrialFunction(Q), Trace(v, em, restriction, nrm, tag=tag))*dX)))
        rec.close(bt, A.T, 'test_is_transpose_of_trial')
        got[restriction] = b
        differ = 0
        for c, x, w in gen.quad(em, V.ufl_element().degree()+2):
            dofs = Q.dofmap().cell_dofs(c)
            m = rv[dofs] @ b[dofs]
            if not live[c]:
                rec.check(abs(m) < 1E-12, 'zero_outside_tag', lambda: '%s: moment %g on untagged cell' % (restriction, m))
                rec.event('tagged_out_cells')
                continue
            rx = gen.evaluate(r, x, c)
            val = {}
            for pc in cells[c]:
                side = '+' if np.dot(cm[pc]-fm[c], Nr[c]) > 0 else '-'
                val[side] = gen.evaluate(h, x, pc)
            if len(cells[c]) == 2:
                p_, m_ = val['+'], val['-']
                ref = {'+': p_, '-': m_, 'avg': 0.5*(p_+m_), 'jump': p_-m_}[restriction]
                rec.event('two_sided_facets')
                jm = np.sum(w*np.sum((p_-m_)*rx, axis=1))
                differ += abs(jm) > 1E-8
                if restriction == 'jump' and abs(jm) > 1E-8:
                    rec.event('jump_sign_resolved')
            else:
                ref = list(val.values())[0]
                rec.event('boundary_facets')
            e = np.sum(w*np.sum(ref*rx, axis=1))
            rec.check(abs(e-m) < 1E-10*(1+np.abs(ref).max()), 'side:' + restriction,
                      lambda: '%s on facet with %d cells: moment %g expected %g; plus/minus %s' % (
                          restriction, len(cells[c]), m, e,
                          {k: float(np.sum(w*np.sum(t*rx, axis=1))) for k, t in val.items()}))
        if differ >= 3:
            rec.seen(dim, elm, restriction, tag, int(live.sum()))
    if not len(np.setdiff1d(chosen, interior)):
        rec.close(got['avg'], 0.5*(got['+']+got['-']), 'avg_is_mean')
        rec.close(got['jump'], got['+']-got['-'], 'jump_is_difference')
    rec.sample('%s, %d facets, tag=%s' % (rec.ctx, len(chosen), tag))
