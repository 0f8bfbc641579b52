"""The C++ code of the library under AddressSanitizer and UndefinedBehaviorSanitizer."""
import importlib, json, os, re, subprocess, sys
import numpy as np
import dolfin as df
import core, gen
from checks.P20 import circumcentre
from checks.P18 import cell_values

RULE = ('case = (a batch of cases of this or another check, byte that fresh and freed memory is filled with) run in an interpreter '
        'with the heap of AddressSanitizer, the C++ sources of the library (mesh builder, circumcenters) compiled with address '
        'and undefined behaviour sanitizers, bounds and debug assertions. A report, or a result that is wrong there and right on '
        'the plain heap, is a violation. key = check, byte.')
REQUIRED = {'sanitized_modules': 10, 'cases': 100, 'own_cases': 40}
ASSUMPTIONS = ['code of dolfin, PETSc and numpy is not instrumented: its heap is watched through calls of the C library only']
CASE_TIMEOUT = 600
BUDGET = {'quick': 700}

OTHERS = {'P01': 4, 'P02': 4, 'P03': 3, 'P04': 3, 'P10': 6, 'P12': 6, 'P13': 4, 'P14': 6, 'P16': 4, 'P17': 12, 'P18': 12, 'P19': 8, 'P20': 12,
          'P21': 12, 'P22': 16, 'P23': 10, 'P24': 6, 'P25': 16}


def cases(tier, seed):
    rng = np.random.default_rng([seed, 2701])
    k = 1 if tier == 'quick' else 15
    out = []
    for p, n in OTHERS.items():
        for j in range(k):
            out.append([(p, 1, int(rng.integers(10**6))) for _ in range(n)])
    m = len(inner_cases())
    for j in range(4*k):
        out.append([('P27', int(rng.integers(10**6)), (int(i)+m*int(rng.integers(10**4))) % m) for i in rng.permutation(m)])
    out = [(c, int(rng.choice([0xff, 0x7f, 0x01, 0xaa]))) for c in out]
    return sorted(out, key=lambda c: c[0][0][0] != 'P27')


def libraries():
    return ' '.join(subprocess.check_output(['gcc', '-print-file-name=lib%s.so' % n]).decode().strip() for n in ('asan', 'ubsan'))


def run(rec, case):
    batch, byte = case
    rec.ctx = '%s x%d fill %02x' % (batch[0][0], len(batch), byte)
    env = dict(os.environ)
    big = 2**31-1
    env.update(LD_PRELOAD=libraries(), PYTHONMALLOC='malloc',
               ASAN_OPTIONS='detect_leaks=0:exitcode=77:handle_segv=1:handle_abort=0:allocator_may_return_null=1:max_malloc_fill_size=%d:malloc_fill_byte=%d:'
                            'max_free_fill_size=%d:free_fill_byte=%d:quarantine_size_mb=256' % (big, byte, big, byte),
               UBSAN_OPTIONS='print_stacktrace=1:exitcode=77')
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    r = subprocess.run([sys.executable, '-B', '-W', 'ignore', os.path.join(here, 'asan_child.py'), json.dumps(batch)], env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=CASE_TIMEOUT-30)
    text = r.stderr.decode(errors='replace')
    reports = parse(r)
    last = ([l for l in text.splitlines() if l.startswith('@RV-CASE')] or ['before the first case'])[-1]
    rec.seen(batch[0][0], byte)
    if reports:
        rec.event('sanitized_modules', reports[-1]['compiled'])
    for out in reports:
        rec.event('own_cases' if out['prop'] == 'P27' else 'cases')
        for k, n in out['events'].items():
            rec.event(k, n)
        rec.evals += out['evals']
        for k, n in out['oracles'].items():
            rec.oracles[k] = rec.oracles.get(k, 0) + n
        if out['violations']:
            disagree(rec, out, byte, env)
    report = re.search(r'(ERROR: AddressSanitizer.*|.*runtime error:.*|.*Assertion .* failed.*)', text)
    if rec.check(report is None, 'sanitizer', lambda: '%s [%s] %s' % (report.group(0), last, text[report.start():][:800])):
        if r.returncode < 0:
            rec.check(False, 'crash', '%d [%s] %s' % (r.returncode, last, text[-800:]))
        elif r.returncode != 0 or len(reports) != len(batch):
            rec.errors.append('%s ended with %d [%s] %s' % (rec.ctx, r.returncode, last, text[-800:]))


def parse(r):
    return [json.loads(l[4:]) for l in r.stdout.decode(errors='replace').splitlines() if l.startswith('@RV ')]


def disagree(rec, out, byte, env):
    """What a case says on that heap, it must say on the plain one: what is wrong on both is the matter of that check,
    unless other contents of the memory make it wrong in another way"""
    mod = importlib.import_module('checks.' + out['prop'])
    plain = core.Recorder(out['prop'], out['seed'], out['case'])
    if out['prop'] == 'P27':
        plain.run(mod.inner, mod.inner_cases()[out['case']])
    else:
        plain.run(mod.run, mod.cases('quick', out['seed'])[out['case']])
    known = {v['key'] for v in plain.violations}
    if any(v['key'] in known for v in out['violations']):
        env = dict(env, ASAN_OPTIONS=env['ASAN_OPTIONS'].replace('fill_byte=%d' % byte, 'fill_byte=%d' % (byte ^ 0x13)))
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        case = [(out['prop'], out['seed'], out['case'])]
        r = subprocess.run([sys.executable, '-B', '-W', 'ignore', os.path.join(here, 'asan_child.py'), json.dumps(case)], env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=CASE_TIMEOUT/4)
        for other in parse(r):
            said = [sorted((v['key'], v['msg']) for v in o['violations']) for o in (out, other)]
            rec.check(said[0] == said[1], 'depends_on_memory', lambda: '%s case %d: %s with %02x, %s with other bytes' % (
                out['prop'], out['case'], said[0][:1], byte, said[1][:1]))
    for v in out['violations']:
        rec.check(v['key'] in known, 'depends_on_memory', lambda: '%s case %d: %s %s' % (out['prop'], out['case'], v['key'], v['msg']))


# ---------------------------------------------------------------- own cases, run in the child
def inner_cases():
    return [(k, d) for k in ('build', 'circumcenter', 'derived') for d in ((1, 2), (1, 3), (2, 2), (2, 3), (3, 3))] + [('build', (1, 1))]


def inner(rec, case):
    from xii.meshing.make_mesh_cpp import make_mesh
    from xii.meshing import cell_centers as cc
    from checks.P20 import make
    rng = rec.rng
    kind, (tdim, gdim) = case
    rec.ctx = '%s %dd in %dd' % (kind, tdim, gdim)
    if kind == 'build':
        for _ in range(4):
            n, m = int(rng.integers(tdim+1, 40)), int(rng.integers(1, 60))
            X = rng.normal(size=(n, gdim))
            C = np.array([rng.choice(n, tdim+1, replace=False) for _ in range(m)])
            C[0, 0] = n-1 if n-1 not in C[0] else C[0, 0]
            mesh = df.Mesh() if rng.integers(2) else None
            out = make_mesh(X.copy(), C.astype(str(rng.choice(['int32', 'int64', 'uintp']))), tdim, gdim, mesh)
            rec.check(mesh is None or out is mesh or out is None, 'mesh_filled')
            out = mesh if mesh is not None else out
            rec.check(np.array_equal(out.coordinates(), X), 'coordinates')
            rec.check(np.array_equal(np.sort(out.cells(), axis=1), np.sort(C, axis=1)), 'cells')
        return
    mesh, scale = make(rng, (tdim, gdim), False)
    if kind == 'circumcenter':
        P = mesh.coordinates()[mesh.cells()]
        f = cc.CellCircumcenter(mesh)
        rec.close(cell_values(f), np.array([circumcentre(p) for p in P]), 'circumcenters', atol=1E-8*scale, rtol=1E-8)
    else:
        from xii.meshing.refinement import centroid_refine
        from xii import EmbeddedMesh
        fine = centroid_refine(mesh)
        fine = fine[0] if isinstance(fine, tuple) else fine
        rec.check(np.isfinite(fine.coordinates()).all(), 'refined')
        k = int(rng.integers(1, tdim+1))
        f = gen.mesh_function(mesh, k, values=rng.integers(0, 2, len(gen.entity_vertices(mesh, k))))
        if (f.array() == 1).any():
            em = EmbeddedMesh(f, 1)
            rec.check(em.num_cells() == (f.array() == 1).sum(), 'embedded')
