"""python tools/addfix.py PROP COMMIT 'what failed'  -> known_findings.json"""
import json, os, sys
F = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
d = json.load(open(F)) if os.path.exists(F) else {'findings': [], 'fixed': []}
if len(sys.argv) == 4:
    d['fixed'].append(f'fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}')
json.dump(d, open(F, 'w'), indent=1)
open(F, 'a').write('\n')
