"""Development tool (no check uses it): small changes to the library, one at a time, in scratch copies; which checks see them.
usage: mutate.py FILES... --out LOG [--max N] [--seed S] [--par 4] [--props P01,P02]"""
import argparse, ast, json, warnings, os, random, shutil, subprocess, sys, threading, queue, hashlib

warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l))
    pos = lambda ln, col: offs[ln-1] + len(lines[ln-1].encode()[:col].decode())
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    text = lambda n: src[slice(*span(n))]
    out = []

    def put(n, new, what):
        a, b = span(n)
        if src[a:b] != new:
            out.append((a, b, new, '%d: %s: %s -> %s' % (n.lineno, what, src[a:b].replace('\n', ' ')[:60], new.replace('\n', ' ')[:60])))

    skip = set()
    for n in tree.body:
        if isinstance(n, ast.If) and 'main' in text(n.test):
            skip.update(id(k) for k in ast.walk(n))
    for n in ast.walk(tree):
        if isinstance(n, (ast.Assert, ast.JoinedStr, ast.Raise)) or isinstance(n, ast.Call) and getattr(n.func, 'id', getattr(n.func, 'attr', '')) in (
                'info', 'print', 'debug', 'warning', 'tqdm', 'Timer'):
            skip.update(id(k) for k in ast.walk(n))
        for field in ('body', ):
            b = getattr(n, field, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant):
                skip.update(id(k) for k in ast.walk(b[0]))
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            m = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.In: 'not in', ast.NotIn: 'in',
                 ast.Is: 'is not', ast.IsNot: 'is'}[type(n.ops[0])]
            put(n, '%s %s %s' % (text(n.left), m, text(n.comparators[0])), 'compare')
        elif isinstance(n, ast.BinOp):
            m = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '%', ast.Mod: '//', ast.BitAnd: '|', ast.BitOr: '&'}.get(type(n.op))
            if m and not isinstance(n.left, ast.Constant) or m and not isinstance(getattr(n.left, 'value', 0), str):
                put(n, '(%s) %s (%s)' % (text(n.left), m, text(n.right)), 'binop')
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                put(n, str(not v), 'bool')
            elif isinstance(v, int):
                put(n, str(v+1), 'const')
                if v > 0:
                    put(n, str(v-1), 'const')
            elif isinstance(v, float):
                put(n, repr(v*1.5), 'const')
            elif v in ('+', '-'):
                put(n, repr({'+': '-', '-': '+'}[v]), 'sign')
        elif isinstance(n, ast.BoolOp):
            put(n, (' or ' if isinstance(n.op, ast.And) else ' and ').join('(%s)' % text(v) for v in n.values), 'boolop')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            put(n, '(%s)' % text(n.operand), 'unary')
        elif isinstance(n, ast.Call):
            f = getattr(n.func, 'id', getattr(n.func, 'attr', ''))
            if f in ('sorted', 'set', 'abs', 'unique', 'array', 'copy', 'tuple', 'reversed'):
                if f == 'copy' and isinstance(n.func, ast.Attribute) and not n.args:
                    put(n, text(n.func.value), 'drop call')
                elif len(n.args) == 1:
                    put(n, ('list(%s)' if f in ('sorted', 'set') else '(%s)') % text(n.args[0]), 'drop call')
            elif f in ('min', 'max', 'any', 'all', 'argmin', 'argmax', 'zeros', 'ones', 'hstack', 'minimum', 'maximum'):
                new = {'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any', 'argmin': 'argmax', 'argmax': 'argmin', 'zeros': 'empty', 'ones': 'zeros',
                       'minimum': 'maximum', 'maximum': 'minimum', 'hstack': 'vstack'}[f]
                put(n.func, text(n.func)[:-len(f)] + new, 'function')
            elif len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args) and f not in ('isinstance', 'hasattr', 'getattr'):
                put(n, '%s(%s)' % (text(n.func), ', '.join([text(n.args[1]), text(n.args[0])] + ['%s=%s' % (k.arg, text(k.value)) for k in n.keywords if k.arg])), 'swap')
        elif isinstance(n, ast.If):
            put(n.test, 'True', 'if')
            put(n.test, 'False', 'if')
        elif isinstance(n, ast.IfExp):
            put(n, '(%s)' % text(n.body), 'ifexp')
            put(n, '(%s)' % text(n.orelse), 'ifexp')
        elif isinstance(n, (ast.Continue, ast.Break)):
            put(n, 'pass', 'flow')
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) or isinstance(n, ast.AugAssign):
            put(n, 'pass', 'delete')
        elif isinstance(n, ast.comprehension) and n.ifs:
            put(n.ifs[0], 'True', 'filter')
        elif isinstance(n, ast.Slice):
            pass
    seen, res = set(), []
    for a, b, new, what in out:
        s = src[:a] + new + src[b:]
        if s in seen:
            continue
        seen.add(s)
        try:
            compile(s, path, 'exec')
        except SyntaxError:
            continue
        res.append((what, s))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('files', nargs='+')
    ap.add_argument('--out', required=True)
    ap.add_argument('--max', type=int, default=30)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--par', type=int, default=4)
    ap.add_argument('--props')
    a = ap.parse_args()
    anchors = {}
    for line in open(os.path.join(HERE, 'properties.jsonl')):
        p = json.loads(line)
        for f in p['anchors']['files']:
            anchors.setdefault(f, []).append(p['id'])
    jobs = queue.Queue()
    for f in a.files:
        props = a.props.split(',') if a.props else [p for p in anchors.get(f, []) if p != 'P27'] or ['P07']
        ms = mutants(os.path.join(REPO, f))
        random.Random('%s%d' % (f, a.seed)).shuffle(ms)
        for m in ms[:a.max]:
            jobs.put((f, m, props))
        print(f, len(ms), props, flush=True)
    lock = threading.Lock()

    def work(i):
        wt = '/tmp/mw%d' % i
        if not os.path.exists(wt):
            shutil.copytree(REPO, wt, symlinks=True)
        subprocess.run('git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', shell=True, cwd=wt)
        while True:
            try:
                f, (what, s), props = jobs.get_nowait()
            except queue.Empty:
                return
            path = os.path.join(wt, f)
            orig = open(path).read()
            open(path, 'w').write(s)
            status, key = 'SURVIVED', ''
            for p in props:
                env = dict(os.environ, RV_REPO=wt, RV_JIT='/tmp/x/jit', VERIF_SEED='1', RV_NOWRITE='1', VERIF_TIER='quick')
                try:
                    r = subprocess.run([os.path.join(HERE, 'check.sh'), p, '--jobs', '2', '--failfast'], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=900)
                    o = r.stdout.decode(errors='replace')
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    o, rc = '', 'timeout'
                if rc == 1:
                    status, key = 'killed', p + ' ' + ' '.join(l.strip() for l in o.splitlines() if l.startswith('   ['))[:120]
                    break
                if rc != 0:
                    status, key = 'rc=%s' % rc, p + o[-100:].replace('\n', ' ')
            open(path, 'w').write(orig)
            with lock:
                with open(a.out, 'a') as o:
                    o.write('%s %s:%s   %s\n' % (status, f, what, key))
    ts = [threading.Thread(target=work, args=(i, )) for i in range(a.par)]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
