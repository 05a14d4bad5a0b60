"""Development helper: run the checks against every planted bug in seeded/: python tools/redetect.py [regex]"""
import json, os, re, subprocess, sys
sys.path.insert(0, '/verif/tools')
rx = sys.argv.pop(1) if len(sys.argv) > 1 else '.'
import plant as P
for s in sorted(os.listdir('/verif/seeded')):
    if not re.search(rx, s):
        continue
    d = '/verif/seeded/' + s
    m = json.load(open(d + '/meta.json'))
    a = P.sh(f'git -C /repo apply {d}/patch.diff')
    assert a.returncode == 0, (s, a.stderr)
    try:
        c = P.sh(f"{P.PY} run.py {m['property']} --tier quick", cwd='/verif', env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
        v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
        ok = c.returncode == 1 and bool(v)
        P.record(s, m['property'], ok)
        print(s, m['property'], 'CAUGHT' if ok else 'MISSED', c.returncode, flush=True)
    finally:
        P.sh('git -C /repo checkout -- .')
