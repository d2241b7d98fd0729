#!/usr/bin/env python3
"""plant.py SPEC.py: turns a description of a bug into /verif/seeded/<id>/.

SPEC.py defines id, prop, needs, breaks, edits [(file, old, new)], pkg (directory the demo test is
laid into) and test (its source). The bug is kept only if it builds, passes the stable tests, and
the demo passes without it and fails with it.
"""
import json, os, subprocess, sys, shutil, tempfile

ns = {}
exec(open(sys.argv[1]).read(), ns)
seed = '/verif/seeded/' + ns['id']
work = '/tmp/plant.' + ns['id']
shutil.rmtree(work, ignore_errors=True)
subprocess.check_call(['cp', '-a', '/repo', work])
for f, old, new in ns['edits']:
    p = os.path.join(work, f)
    s = open(p).read()
    if s.count(old) != 1:
        sys.exit(f"{f}: {s.count(old)} matches of {old!r}")
    open(p, 'w').write(s.replace(old, new))
os.makedirs(seed, exist_ok=True)
diff = subprocess.check_output(['git', '-C', work, 'diff'])
open(seed + '/patch.diff', 'wb').write(diff)
open(seed + '/demo_test.go.txt', 'w').write(ns['test'].lstrip())
open(seed + '/demo.sh', 'w').write(f'''#!/bin/bash
# Runs the test beside it in package {ns['pkg']} of the current directory.
dir="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
printf '{{"Replace": {{"%s": "%s"}}}}' "$PWD/{ns['pkg']}/zz_demo_test.go" "$dir/demo_test.go.txt" > "$tmp/overlay.json"
go test -vet=off -count=1 -timeout 120s -overlay "$tmp/overlay.json" -run '^TestDemo$' ./{ns['pkg']}
''')
os.chmod(seed + '/demo.sh', 0o755)
json.dump({'property': ns['prop'], 'needs': ns['needs'], 'what_it_breaks': ns['breaks']},
          open(seed + '/meta.json', 'w'), indent=1)
env = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOTOOLCHAIN='local',
           GOPROXY='off', GOFLAGS='-mod=mod -buildvcs=false')
ok = True
if subprocess.run(['go', 'build', './...'], cwd=work, env=env).returncode: ok = False; print('BUILD FAILS')
r = subprocess.run('go test -vet=off -count=1 $(go list ./... | grep -vE "cli/receiver(/server)?$")', shell=True, cwd=work, env=env, capture_output=True, text=True)
if r.returncode: ok = False; print('TESTS FAIL', r.stdout[-800:])
r = subprocess.run([seed + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
if r.returncode: ok = False; print('DEMO FAILS ON CLEAN', r.stdout[-1500:], r.stderr[-500:])
r = subprocess.run([seed + '/demo.sh'], cwd=work, capture_output=True, text=True)
if r.returncode == 0: ok = False; print('DEMO PASSES WITH BUG')
else: print('demo with bug:', '\n'.join(r.stdout.splitlines()[:6]), r.stderr[-300:])
if ok:
    print('PLANTED', ns['id'])
else:
    shutil.rmtree(seed)
if '-k' not in sys.argv: shutil.rmtree(work)
