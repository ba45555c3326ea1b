"""Regenerates properties.jsonl and MANIFEST.json from the property texts in tools/props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS  # noqa: E402

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps({k: p[k] for k in (
            'id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
checks, na = [], []
for p in PROPS:
    pid = p['id']
    if os.path.exists(os.path.join(ROOT, 'checks', pid.lower() + '.py')) and not p.get('na'):
        checks.append(dict(
            property=pid, quick_cmd=f'bash run.sh {pid} quick',
            thorough_cmd=f'bash run.sh {pid} thorough', technique=p['technique'],
            level=p['level'], level_note=p['level_note']))
    else:
        na.append(dict(property=pid, reason=p.get('na', 'no check for it has been built yet')))
m = dict(version=1,
         setup_cmd='/opt/venv/bin/python -c "import numpy, openmdao, dymos"',
         checks=checks, not_applicable=na)
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks;', len(na), 'not applicable')
