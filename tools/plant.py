#!/usr/bin/env python3
"""Confirms a planted bug and shows which checks see it (development aid, no check uses it).

usage: plant.py ID [--check P..,P..] [--skip-tests]

Reads /verif/seeded/ID/edit.json once ({"edits": [[file, old, new], ...], "property": .., "needs": .., "what_it_breaks": ..}) if
patch.diff is missing, and then: demo on the unchanged tree, patch, build, stable tests, demo, checks, undo.
"""
import json, os, subprocess, sys
ID = sys.argv[1]
D = '/verif/seeded/' + ID
REPO = '/repo'
sh = lambda c, **k: subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
assert not sh('git -C /repo status --porcelain').stdout.strip(), 'dirty /repo'
if os.path.exists(D + '/edit.json'):
    e = json.load(open(D + '/edit.json'))
    for f, old, new in e['edits']:
        p = os.path.join(REPO, 'src/infi/asi', f)
        s = open(p, newline='').read()
        assert s.count(old) == 1, (f, old, s.count(old))
        open(p, 'w', newline='').write(s.replace(old, new))
    d = subprocess.run('git -C /repo diff', shell=True, stdout=subprocess.PIPE).stdout
    open(D + '/patch.diff', 'wb').write(d)
    sh('git -C /repo checkout -- .')
    json.dump({k: e[k] for k in ('property', 'needs', 'what_it_breaks')}, open(D + '/meta.json', 'w'), indent=1)
    os.remove(D + '/edit.json')
if not os.path.exists(D + '/demo.sh'):
    open(D + '/demo.sh', 'w').write('#!/bin/bash\nhere="$(cd "$(dirname "$0")" && pwd)"\nexec timeout 250 /opt/venv/bin/python -B "$here/demo.py"\n')
    os.chmod(D + '/demo.sh', 0o755)
m = json.load(open(D + '/meta.json'))
ok = True
r = sh('bash %s/demo.sh' % D, cwd=REPO)
print('demo clean:', r.returncode, '' if not r.returncode else r.stdout[-800:]); ok &= r.returncode == 0
r = sh('git -C /repo apply %s/patch.diff' % D)
assert r.returncode == 0, r.stdout
try:
    r = sh('bash /opt/vp/build.sh')
    print('build:', r.returncode); ok &= r.returncode == 0
    if '--skip-tests' not in sys.argv:
        sh('bash /opt/vp/test.sh /tmp/plant_o.json')
        o = json.load(open('/tmp/plant_o.json')); b = json.load(open('/opt/vp/BASELINE.json'))['stable']
        miss = sorted(set(b) - set(o['passed']))
        print('tests:', 'ok' if not miss else 'FAIL %s' % miss[:5]); ok &= not miss
    r = sh('bash %s/demo.sh' % D, cwd=REPO)
    print('demo patched:', r.returncode, r.stdout.strip()[-200:]); ok &= r.returncode != 0
    checks = sys.argv[sys.argv.index('--check') + 1].split(',') if '--check' in sys.argv else [m['property']]
    if ok:
        for c in checks:
            if not c: continue
            r = sh('python3-vt /verif/run_check.py %s quick' % c, cwd='/verif')
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            print(ID, c, 'rc', r.returncode, 'CAUGHT' if r.returncode == 1 and any('property=%s ' % c in l for l in v) else 'MISSED', v[:1])
            if not v: print(r.stdout[-1500:])
finally:
    print(sh('git -C /repo checkout -- .').stdout, end='')
print(ID, 'OK' if ok else 'BAD')
