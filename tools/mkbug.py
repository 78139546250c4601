#!/usr/bin/env python3
# mkbug.py SPEC.py [-nocheck]: confirm a planted bug in a scratch copy, store it under seeded/<id>, run the check on the copy.
# SPEC sets ID, PROP, NEEDS, BREAKS, DIR (package dir, default '.'), EDITS [(file, old, new)], TEST (go test source).
import sys, os, json, subprocess, shutil, re
spec = {}
exec(open(sys.argv[1]).read(), spec)
wt = '/tmp/bugwt'
env = dict(os.environ, HOME='/root', PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod')
def sh(c, **k): return subprocess.run(c, shell=True, env=env, capture_output=True, text=True, **k)
if not os.path.isdir(wt): sh(f'cp -a /repo {wt}')
head = sh('git -C /repo rev-parse HEAD').stdout.strip()
if sh(f'git -C {wt} cat-file -e {head}').returncode: sh(f'git -C {wt} fetch -q /repo')
sh(f'git -C {wt} checkout -q -f {head}; git -C {wt} clean -fdq')
for f, old, new in spec['EDITS']:
    p = os.path.join(wt, f); raw = open(p, newline='').read(); crlf = '\r\n' in raw; s = raw.replace('\r\n', '\n')
    assert s.count(old) == 1, (f, s.count(old), old)
    s = s.replace(old, new)
    open(p, 'w', newline='').write(s.replace('\n', '\r\n') if crlf else s)
diff = subprocess.run(['git', '-C', wt, 'diff', '--binary'], capture_output=True).stdout
for ch in re.findall(r'^-(?!--)(.*)$', diff.decode(), re.M): pass
# at least one removed/changed original line: blame against base
base = '4ab812b'
r = sh('go build ./...', cwd=wt); assert r.returncode == 0, r.stderr
r = sh('go test -json -vet=off -count=1 -timeout 10m ./...', cwd=wt)
ok = set()
for l in r.stdout.splitlines():
    try: j = json.loads(l)
    except Exception: continue
    if j.get('Action') == 'pass' and j.get('Test'): ok.add((j['Package'], j['Test']))
b = json.load(open('/opt/vp/BASELINE.json'))['stable']
names = {f'{p}::{t}' for p, t in ok} | {f'{p}.{t}' for p, t in ok} | {f'{p}/{t}' for p, t in ok} | {t for p, t in ok}
miss = [x for x in b if x not in names and not any(x.endswith(t) for p, t in ok)]
assert not miss, ('stable tests broken', miss[:5])
d = f"/verif/seeded/{spec['ID']}"
os.makedirs(d, exist_ok=True)
pk = spec.get('DIR', '.')
open(d + '/patch.diff', 'wb').write(diff)
open(d + '/demo_test.go', 'w').write(spec['TEST'])
open(d + '/demo.sh', 'w').write(f'''#!/bin/bash
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
here=$(cd "$(dirname "$0")" && pwd)
go test -overlay <(echo "{{\\"Replace\\":{{\\"$PWD/{pk}/zz_demo_test.go\\":\\"$here/demo_test.go\\"}}}}") -vet=off -count=1 -timeout 120s -run TestZZDemo ./{pk}
''')
json.dump({'property': spec['PROP'], 'needs': spec['NEEDS'], 'what_it_breaks': spec['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
r1 = sh(f'bash {d}/demo.sh', cwd=wt)
assert r1.returncode != 0, 'demo passes with the change'
if 'build failed' in r1.stdout: print(r1.stdout, r1.stderr); sys.exit(1)
r0 = sh(f'bash {d}/demo.sh', cwd='/repo')
assert r0.returncode == 0, ('demo fails on the unchanged tree', r0.stdout, r0.stderr)
print('bug', spec['ID'], 'confirmed')
if '-nocheck' in sys.argv: sys.exit()
r = sh(f"bash /verif/run.sh check {spec['PROP']} quick -repo {wt}", cwd='/verif')
print('CAUGHT' if r.returncode == 1 and 'VIOLATION property=' + spec['PROP'] in r.stdout else 'MISSED', r.returncode)
print(r.stdout[-600:])
