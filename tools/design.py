"""Assembles DESIGN.md from tools/design_head.md, the properties, the bounds stated in the checks, and seeded/ (python3 tools/design.py)"""
import ast
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
import props  # noqa
from design_notes import HOW, SEED_RESULTS  # noqa


def consts(mod):
    out = {}
    for node in ast.parse(open(mod).read()).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], 'id', '') in ('BOUNDS', 'ASSUMPTIONS'):
            out[node.targets[0].id] = ast.literal_eval(node.value)
    return out


def main():
    with open(os.path.join(ROOT, 'tools', 'design_head.md')) as f:
        text = [f.read().rstrip(), '', '## 3. Per property', '']
    for p in props.P:
        text.append('### {} {}'.format(p['id'], p['title']))
        text.append('')
        if not p['claim']:
            text += ['Not claimed: ' + p['reason'], '']
            continue
        c = consts(os.path.join(ROOT, 'checks', p['id'].lower() + '.py'))
        text.append('*Statement.* ' + p['statement'])
        text.append('')
        text.append('*How it is decided.* ' + HOW.get(p['id'], '(see checks/{}.py)'.format(p['id'].lower())))
        text.append('')
        text.append('*Bounds (quick; thorough widens them).* ' + c.get('BOUNDS', '') + '.')
        text.append('')
        if c.get('ASSUMPTIONS'):
            text.append('*Assumptions.* ' + '; '.join(c['ASSUMPTIONS']) + '.')
            text.append('')
        text.append('*Why the tests cannot settle it.* ' + p['tests'])
        text.append('')
    text += ['## 4. Planted changes', '', 'Each is under seeded/<id>; "caught" means that the quick check of its property '
             'exits 1 with a VIOLATION line on a copy with the change (tools/runseeds.sh).', '',
             '| change | property | what it breaks | needs | result |', '|---|---|---|---|---|']
    sd = os.path.join(ROOT, 'seeded')
    for d in sorted(os.listdir(sd)):
        with open(os.path.join(sd, d, 'meta.json')) as f:
            m = json.load(f)
        text.append('| {} | {} | {} | {} | {} |'.format(d, m['property'], m['what_it_breaks'], m['needs'],
                                                        SEED_RESULTS.get(d, 'caught')))
    with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(text) + '\n')


if __name__ == '__main__':
    main()
