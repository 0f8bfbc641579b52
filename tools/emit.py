"""Write properties.jsonl and MANIFEST.json from tools/props.py"""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS
import props
checks, lines = [], []
for p, tech, note in PROPS:
    assert len(p['title']) <= 80, p['id']
    if not os.path.exists(os.path.join(root, 'rv', 'checks', p['id'] + '.py')):
        print('no check yet:', p['id'])
        continue
    lines.append(json.dumps(p))
    cmd = './check.sh ' + p['id']
    checks.append({'property': p['id'], 'quick_cmd': 'VERIF_TIER=quick ' + cmd, 'thorough_cmd': 'VERIF_TIER=thorough ' + cmd,
                   'technique': tech, 'level': 'exploration', 'level_note': note})
open(os.path.join(root, 'properties.jsonl'), 'w').write('\n'.join(lines) + '\n')
man = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': getattr(props, 'NOT_APPLICABLE', [])}
json.dump(man, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
