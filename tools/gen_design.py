"""DESIGN.md = tools/design_head.md + one section per property (from props.py and the docstring of its check)
+ findings + tools/design_tail.md + detection matrix (tools/detection.json, written by tools/plant.py)"""
import ast, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from props import PROPS, NOT_APPLICABLE  # noqa
out = [open(os.path.join(HERE, 'tools', 'design_head.md')).read()]
out.append('## Properties\n')
for p in PROPS:
    f = os.path.join(HERE, 'checks', p['id'] + '.py')
    out.append(f"### {p['id']} {p['title']}\n")
    out.append(p['statement'] + '\n')
    if not os.path.exists(f):
        out.append('*Not claimed*: ' + NOT_APPLICABLE.get(p['id'], 'check not built yet') + '\n')
        continue
    out.append('*Enumerated*: ' + ' '.join(ast.get_docstring(ast.parse(open(f).read())).split()) + '\n')
    cost = ''
    e = os.path.join(HERE, 'tools', 'costs.json')
    if os.path.exists(e):
        c = json.load(open(e)).get(p['id'])
        cost = f" *Cost*: {c}." if c else ''
    out.append(f"*Reach*: {p['why']} *Bounds*: {p['note']}{cost}\n")
k = json.load(open(os.path.join(HERE, 'known_findings.json')))
out.append('## Genuine defects found\n\nRepaired (`fix:` commits in /repo):\n')
out += ['* ' + x for x in k['fixed']]
out.append('\nRecorded, not repaired (known_findings.json):\n')
out += [f"* {x['property']} `{x['case']}`: {x['what']}" for x in k['findings']]
out.append('\n' + open(os.path.join(HERE, 'tools', 'design_tail.md')).read())
d = os.path.join(HERE, 'tools', 'detection.json')
if os.path.exists(d):
    out.append('\n## Detection of planted bugs (seeded/)\n\n| bug | property | needs | result of the checks |\n|---|---|---|---|')
    det = json.load(open(d))
    for s in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
        m = json.load(open(os.path.join(HERE, 'seeded', s, 'meta.json')))
        out.append(f"| {s} | {m['property']} | {m['needs']} | {det.get(s, '')} |")
open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
