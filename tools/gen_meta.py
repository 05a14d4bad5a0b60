"""Single source for properties.jsonl and MANIFEST.json:  python tools/gen_meta.py"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from props import PROPS, NOT_APPLICABLE  # noqa

PY = '/opt/venv/bin/python'
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
    for p in PROPS:
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p['over'], 'text': p['qtext']},
             'why_tests_cant': p['why'],
             'anchors': {'files': p['files'],
                         'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}
        assert len(d['title']) <= 80, p['id']
        fh.write(json.dumps(d) + '\n')
checks = []
na = []
for p in PROPS:
    if not os.path.exists(os.path.join(HERE, 'checks', p['id'] + '.py')):
        na.append({'property': p['id'], 'reason': NOT_APPLICABLE.get(p['id'], 'check not built yet')})
        continue
    checks.append({'property': p['id'],
                   'quick_cmd': f'{PY} run.py {p["id"]} --tier quick',
                   'thorough_cmd': f'{PY} run.py {p["id"]} --tier thorough',
                   'evidence_file': f'evidence/{p["id"]}.json',
                   'technique': p.get('technique', 'bounded exhaustive enumeration of the real code against an '
                                      'independent reference model'),
                   'level': p.get('level', 'model_checking'),
                   'level_note': p['note']})
man = {'version': 1,
       'setup_cmd': f'{PY} tools/selftest.py',
       'hooks': {'guard': 'none', 'enable': 'no hooks are needed: randomness is owned by replacing numpy.random '
                 'entry points from the harness process (mc/rng.py)', 'source_commits': []},
       'checks': checks, 'not_applicable': na,
       'notes': 'All checks: python run.py ID --tier quick|thorough; replay with --replay FILE. '
                'See DESIGN.md.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
    json.dump(man, fh, indent=1)
    fh.write('\n')
print(len(PROPS), 'properties', len(checks), 'checks')
