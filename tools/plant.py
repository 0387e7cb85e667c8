#!/usr/bin/env python3
"""Plants, confirms and stores one bug: plant.py SPEC [--nocheck].
SPEC is a python file defining ID, PROP, EDITS=[(file, old, new[, count])], DEMO (C++), NEEDS, BREAKS.
Edits are made in /repo, confirmed (builds, stable tests pass, demo fails with them and
passes without), stored under seeded/ID, tried on the property's check, and undone."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
ns = {}
exec(open(sys.argv[1]).read(), ns)
ID = ns['ID']
D = os.path.join(V, 'seeded', ID)


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def undo():
    sh('git -C /repo checkout -- .')


assert sh('git -C /repo status --porcelain -uno').stdout.strip() == ''
os.makedirs(D, exist_ok=True)
SH = '''#!/bin/bash
# cwd: /repo after its build
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
g++ -std=c++14 -O1 -Iinclude -I. -o "$out/demo" "$here/demo.cc" %s \\
  -Wl,--start-group lib/*.a -Wl,--end-group
timeout 120 "$out/demo"
''' % ns.get('EXTRA', '')
open(D + '/demo.sh', 'w').write(SH)
os.chmod(D + '/demo.sh', 0o755)
open(D + '/demo.cc', 'w').write(ns['DEMO'].lstrip())
ok = False
try:
    for e in ns['EDITS']:
        f, old, new = e[:3]
        n = e[3] if len(e) > 3 else 1
        p = os.path.join(R, f)
        t = open(p).read()
        assert t.count(old) == n, (f, t.count(old), old)
        open(p, 'w').write(t.replace(old, new))
    open(D + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
    r = sh('bash /opt/vp/test.sh /tmp/plant_o.json')
    last = r.stdout.strip().splitlines()[-1]
    print('tests:', last)
    assert '164 passed, 0 failed' in last, r.stdout[-3000:]
    r = sh(D + '/demo.sh', cwd=R)
    print('patched demo:', r.returncode, r.stdout[-600:])
    assert r.returncode != 0 and r.returncode < 124
    if '--nocheck' not in sys.argv:
        r = sh('python3 %s/run.py check %s' % (V, ns['PROP']), cwd=V)
        print('check:', r.returncode, r.stdout[-700:])
finally:
    undo()
sh('bash /opt/vp/build.sh')
r = sh(D + '/demo.sh', cwd=R)
print('clean demo:', r.returncode, r.stdout[-600:])
assert r.returncode == 0
json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']},
          open(D + '/meta.json', 'w'), indent=1)
assert sh('git -C /repo apply --check %s/patch.diff' % D).returncode == 0
print('PLANTED', ID)
