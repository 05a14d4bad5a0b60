"""Development helper: create and confirm a planted bug in /verif/seeded (no check uses this).

plant(id, prop, edits, needs, breaks, demo): edits = [(file, old, new), ...]
 - scratch copy of /repo, apply edits, build check, stable tests, demo on both trees
 - then runs the check of the property against the scratch copy (MARXS_REPO)
"""
import json, os, shutil, subprocess, sys, re
PY = '/opt/venv/bin/python'
V = '/verif'
BASE = os.environ.get('BASE', '/repo')
DEMO_SH = '''#!/bin/bash
# run with cwd = the repository
exec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def record(id, p, caught):
    f = V + '/tools/detection.json'
    d = json.load(open(f)) if os.path.exists(f) else {}
    old = dict(x.split(' ') for x in d.get(id, '').split(', ') if x)
    old[p] = 'caught' if caught else 'missed'
    d[id] = ', '.join(f'{k} {v}' for k, v in old.items())
    json.dump(d, open(f, 'w'), indent=1, sort_keys=True)
    open(f, 'a').write('\n')


def plant(id, prop, edits, needs, breaks, demo, also=()):
    if len(sys.argv) > 1 and not re.search(sys.argv[1], id):
        return
    scratch = '/tmp/pl/' + id
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs('/tmp/pl', exist_ok=True)
    sh(f'cp -a {BASE} {scratch}')
    for f, old, new in edits:
        p = os.path.join(scratch, f)
        s = open(p).read()
        if s.count(old) != 1:
            print(id, 'EDIT NOT UNIQUE', f, s.count(old)); return
        open(p, 'w').write(s.replace(old, new))
    d = f'{V}/seeded/{id}'
    os.makedirs(d, exist_ok=True)
    patch = sh(f'git -C {scratch} diff').stdout
    open(d + '/patch.diff', 'w').write(patch)
    open(d + '/demo.py', 'w').write(demo.lstrip('\n'))
    open(d + '/demo.sh', 'w').write(DEMO_SH)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    r0 = sh(f'bash {d}/demo.sh', cwd=BASE)
    r1 = sh(f'bash {d}/demo.sh', cwd=scratch)
    t = open('/opt/vp/test.sh').read().replace('/repo', scratch).replace('export OMP_NUM', f'export PYTHONPATH={scratch}\nexport OMP_NUM')
    open(scratch + '.sh', 'w').write(t)
    tt = sh(f'bash {scratch}.sh {scratch}.json')
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    res = json.load(open(scratch + '.json'))
    broke = base - set(res['passed'])
    ok = r0.returncode == 0 and r1.returncode != 0 and not broke
    print(id, 'demo base', r0.returncode, 'patched', r1.returncode, 'broken tests', sorted(broke)[:4], 'OK' if ok else 'NOT OK')
    if r0.returncode:
        print(r0.stderr[-600:])
    if not ok:
        print('  patched:', (r1.stdout + r1.stderr)[-300:])
    os.remove(scratch + '.sh'); os.remove(scratch + '.json')
    for f in sh(f'git -C {scratch} diff --name-only').stdout.split():
        orig = sh(f'git -C /repo show $(git -C /repo rev-list --max-parents=0 HEAD):{f}').stdout.splitlines()
        for l in sh(f'git -C {scratch} diff -U0 {f}').stdout.splitlines():
            if l.startswith('-') and not l.startswith('---') and l[1:] not in orig:
                print('    NOT AN ORIGINAL LINE', f, l)
    if not ok:
        shutil.rmtree(d); shutil.rmtree(scratch); return
    print('   ', r1.stderr.strip().splitlines()[-1:] )
    for p in [prop] + list(also):
        c = sh(f'{PY} run.py {p} --tier quick', cwd=V, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick', MARXS_REPO=scratch))
        v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
        record(id, p, c.returncode == 1 and bool(v))
        print('    ', p, 'exit', c.returncode, 'CAUGHT' if c.returncode == 1 and v else 'MISSED', v[:1], c.stderr[-200:] if c.returncode not in (0, 1) else '')
    shutil.rmtree(scratch)
