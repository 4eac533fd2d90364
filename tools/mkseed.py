#!/usr/bin/env python3
"""Make and confirm planted bugs. usage: mkseed.py SEEDFILE.py [ID...]

SEEDFILE defines SEEDS = [dict(id, prop, file, edits=[(old,new)..], pkg, test, needs, breaks)].
Every seed is confirmed in a scratch copy of /repo before it is written to
/verif/seeded/<id>: it builds, the existing tests pass, the demo passes
without the change and fails with it. Then the property's check runs on it."""
import subprocess, sys, shutil, os, json, tempfile, runpy
seeds = runpy.run_path(sys.argv[1])['SEEDS']
want = sys.argv[2:]
DEMO = '''#!/bin/bash
# Runs demo_test.go as a test of the package %(pkg)s, in an overlay.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$here" > "$t/overlay.json"
timeout 200 go test -vet=off -overlay "$t/overlay.json" -run '^TestZZDemo$' -count=1 -timeout 60s ./%(pkg)s
'''
def sh(cmd, cwd, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, env=env)
for s in seeds:
    if want and s['id'] not in want: continue
    d = '/tmp/seedrepo'
    shutil.rmtree(d, ignore_errors=True); shutil.copytree('/repo', d, symlinks=True)
    out = '/verif/seeded/' + s['id']
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    open(out+'/demo_test.go','w').write(s['test'])
    open(out+'/demo.sh','w').write(DEMO % dict(pkg=s['pkg'])); os.chmod(out+'/demo.sh', 0o755)
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(out+'/meta.json','w'), indent=1)
    r0 = sh(out+'/demo.sh', d)
    for (f, old, new) in s['edits']:
        p = os.path.join(d, f); t = open(p).read()
        assert t.count(old) == 1, (s['id'], f, t.count(old), old)
        open(p,'w').write(t.replace(old, new))
    diff = sh('git diff', d).stdout
    open(out+'/patch.diff','w').write(diff)
    cur = None
    for line in diff.splitlines():
        if line.startswith('--- a/'): cur = sh('git show 998faec:'+line[6:], '/repo').stdout.splitlines()
        elif line.startswith('-') and line[1:].strip() and line[1:] not in cur: print('   NOT ORIGINAL:', line)
    b = sh('go build ./... && go test -count=1 ./...', d)
    r1 = sh(out+'/demo.sh', d)
    ok = r0.returncode == 0 and b.returncode == 0 and r1.returncode != 0
    print(s['id'], 'OK' if ok else 'BAD', 'demo0=%d tests=%d demo1=%d' % (r0.returncode, b.returncode, r1.returncode))
    if not ok:
        print(r0.stdout[-600:], r0.stderr[-300:], b.stdout[-800:], b.stderr[-500:], r1.stdout[-300:])
        shutil.rmtree(out); continue
    c = sh('/verif/check.sh %s quick' % s['prop'], '/verif', dict(os.environ, VERIF_REPO=d))
    print('   check exit', c.returncode, [l for l in c.stdout.splitlines() if 'VIOLATION' in l][:2])
