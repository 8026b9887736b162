#!/usr/bin/env python3
"""mkseed.py SPEC.py - SPEC defines id, prop, needs, breaks, edits=[(file, old, new)], pkg, demo (Go test source) [, race]
Builds a planted change in a scratch copy of /repo, confirms it, and stores it under /verif/seeded/<id>/."""
import os, sys, json, subprocess, shutil, tempfile
ns = {}
exec(open(sys.argv[1]).read(), ns)
seeds = ns['seeds']
env = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', PATH='/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin')
DEMO = '''#!/bin/bash
# exit 0: the property holds; nonzero: it is broken.  Runs with cwd /repo.
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
mkdir "$work/tmp"
printf '{"Replace": {"%%s/%s/zz_demo_test.go": "%%s/demo_test.go.txt"}}' "$repo" "$here" > "$work/overlay.json"
TMPDIR="$work/tmp" PCP_TMP_DIR="$work/tmp" timeout 250 go test %s -overlay "$work/overlay.json" -vet=off -count=1 -timeout 200s -run '^TestDemo' ./%s
'''
base = json.load(open('/opt/vp/BASELINE.json'))
def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
only = sys.argv[2:] 
for s in seeds:
    if only and s['id'] not in only: continue
    wt = tempfile.mkdtemp(prefix='seed')
    try:
        repo = wt + '/repo'
        subprocess.check_call(['cp', '-a', '/repo', repo])
        out = '/verif/seeded/' + s['id']
        tmp = wt + '/out'
        os.makedirs(tmp)
        open(tmp + '/demo.sh', 'w').write(DEMO % (s.get('pkg', '.'), '-race' if s.get('race') else '', s.get('pkg', '.')))
        os.chmod(tmp + '/demo.sh', 0o755)
        open(tmp + '/demo_test.go.txt', 'w').write(s['demo'])
        r0 = run(['bash', tmp + '/demo.sh'], repo)
        if r0.returncode != 0:
            print(s['id'], 'DEMO FAILS ON CLEAN TREE\n', r0.stdout[-3000:]); continue
        ok = True
        for f, old, new in s['edits']:
            p = repo + '/' + f
            t = open(p).read()
            if t.count(old) != 1:
                print(s['id'], f, 'old text occurs', t.count(old), 'times:', old[:60]); ok = False; break
            open(p, 'w').write(t.replace(old, new))
        if not ok: continue
        b = run(['go', 'build', './...'], repo)
        if b.returncode != 0:
            print(s['id'], 'BUILD', b.stdout); continue
        os.makedirs(wt + '/tt', exist_ok=True)
        env['TMPDIR'] = wt + '/tt'
        t = run(['go', 'test', '-json', '-vet=off', '-count=1', '-timeout', '5m', './...'], repo)
        env.pop('TMPDIR')
        fails = [json.loads(l) for l in t.stdout.splitlines() if l.startswith('{')]
        fails = [x.get('Test') for x in fails if x.get('Action') == 'fail']
        if fails or t.returncode:
            print(s['id'], 'TESTS FAIL', fails, t.stdout[-500:] if not fails else ''); continue
        r1 = run(['bash', tmp + '/demo.sh'], repo)
        if r1.returncode == 0:
            print(s['id'], 'DEMO PASSES WITH THE CHANGE\n', r1.stdout[-1500:]); continue
        d = run(['git', 'diff'], repo).stdout
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(d)
        for f in ('demo.sh', 'demo_test.go.txt'):
            shutil.copy(tmp + '/' + f, out + '/' + f)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        print(s['id'], 'ok')
    finally:
        shutil.rmtree(wt)
