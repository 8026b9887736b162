#!/usr/bin/env python3
"""mut.py MUTS.py [prop] - MUTS defines muts=[(prop, file, old, new)]; runs gover (no replay) on a scratch copy with each
change applied and prints how many obligations fail (0: not detected)."""
import sys, subprocess, tempfile, shutil, os
from concurrent.futures import ThreadPoolExecutor
ns = {}; exec(open(sys.argv[1]).read(), ns)
env = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', PATH='/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin')
def one(m):
    prop, f, old, new = m[:4]
    d = tempfile.mkdtemp(prefix='mut')
    try:
        subprocess.check_call(['cp', '-a', os.environ.get('SRC','/repo'), d + '/repo'])
        p = d + '/repo/' + f
        t = open(p).read()
        if t.count(old) < 1: return m, 'OLD TEXT OCCURS %d TIMES' % t.count(old)
        open(p, 'w').write(t.replace(old, new, 1))
        b = subprocess.run(['go', 'build', './...'], cwd=d + '/repo', env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if b.returncode: return m, 'BUILD ' + b.stdout
        r = subprocess.run(['/tmp/gover', '-repo', d + '/repo', '-verif', '/verif', '-prop', prop, '-v'], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        ls = r.stdout.strip().splitlines()
        bad = [l for l in ls if l.startswith('property')] or ls[-1:]
        det = [l for l in ls if 'failed' in l or 'unknown' in l or 'unsupported' in l.lower() or 'BAD' in l][:3]
        return m, bad[-1] + '\n      ' + '\n      '.join(x[:220] for x in det)
    finally:
        shutil.rmtree(d)
ms = [m for m in ns['muts'] if len(sys.argv) < 3 or m[0] in sys.argv[2:]]
with ThreadPoolExecutor(3) as ex:
    for m, r in ex.map(one, ms):
        print(m[0], repr(m[3])[:100], '->', r, flush=True)
