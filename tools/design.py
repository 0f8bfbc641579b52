"""Writes DESIGN.md: tools/design_head.md, a section per property (from tools/props.py, the checks and known_findings.txt), tools/design_tail.md"""
import ast, json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from props import PROPS

NOTES = {}
cur = None
for line in open(os.path.join(HERE, 'tools', 'design_notes.md')):
    m = re.match(r'^## (P\d+)', line)
    if m:
        cur = m.group(1)
        NOTES[cur] = ''
    elif cur:
        NOTES[cur] += line

fixed = {}
for line in open(os.path.join(HERE, 'known_findings.txt')):
    m = re.match(r'(fixed|finding): property=(\S+) (.*)', line)
    if m:
        fixed.setdefault(m.group(2), []).append((m.group(1), m.group(3)))


def value(tree, name):
    for n in tree.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == name:
            return ast.literal_eval(n.value)


nfixed = sum(k == 'fixed' for v in fixed.values() for k, _ in v)
out = [open(os.path.join(HERE, 'tools', 'design_head.md')).read().replace('@NFIXED@', str(nfixed))]
for p, technique, note in PROPS:
    i = p['id']
    out.append('\n### %s %s\n' % (i, p['title']))
    path = os.path.join(HERE, 'rv', 'checks', i + '.py')
    if not os.path.exists(path):
        out.append('not claimed\n')
        continue
    tree = ast.parse(open(path).read())
    out.append('*Decided by* %s.\n' % technique)
    out.append('*Workload.* %s\n' % value(tree, 'RULE').replace('case = ', 'One case = ', 1).replace('one case = ', 'One case = ', 1))
    req = value(tree, 'REQUIRED')
    if req:
        out.append('*The check is inconclusive (exit 2), not quiet, unless its monitors saw at least:* %s.\n' % ', '.join('%s %s' % (v, k.replace('_', ' ')) for k, v in req.items()))
    ass = value(tree, 'ASSUMPTIONS')
    if ass:
        out.append('*Trusted.* %s.\n' % '; '.join(ass))
    out.append(NOTES.get(i, '').strip() + '\n')
    for kind, text in fixed.get(i, []):
        if kind == 'fixed':
            out.append('- defect found and repaired: %s' % re.sub(r'^(\S+) (.*)', r'\2 (`\1`)', text))
        else:
            out.append('- known finding: %s' % text)
rows = ['| id | property | what it breaks | what it needs | caught by (quick) |', '|---|---|---|---|---|']
caught = json.load(open(os.path.join(HERE, 'tools', 'seeded_results.json')))
for b in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    m = json.load(open(os.path.join(HERE, 'seeded', b, 'meta.json')))
    rows.append('| %s | %s | %s | %s | %s |' % (b, m['property'], m['what_it_breaks'], m['needs'], caught.get(b, 'not caught')))
tail = open(os.path.join(HERE, 'tools', 'design_tail.md')).read().replace('@SEEDED@', '\n'.join(rows))
out.append('\n' + tail)
open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out))
