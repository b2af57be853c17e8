#!/usr/bin/env python3
"""refact.py NAME [-b] [Pxx …]: applies tools/refact/NAME.py to a scratch copy of /repo and runs all checks on it; all must stay quiet. -b: cargo check first"""
import os, re, subprocess, sys, shutil, json
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
name = sys.argv[1]
ids = [a for a in sys.argv[2:] if a.startswith('P')] or [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
ROOT = '/tmp/vprefact-' + name
shutil.rmtree(ROOT, ignore_errors=True)
os.makedirs(ROOT)
subprocess.run('cd /repo && tar c --exclude=target --exclude=.git . | tar x -C ' + ROOT, shell=True, check=True)
bad = 0
def R(f, a, b, n=1):
    p = ROOT + '/' + f
    s = open(p).read()
    if s.count(a) != n:
        print('!! %s: %d occurrences of %r' % (f, s.count(a), a[:90]))
        return
    open(p, 'w').write(s.replace(a, b))
def APPEND(f, t):
    open(ROOT + '/' + f, 'a').write(t)
exec(open(V + '/tools/refact/%s.py' % name).read(), {'R': R, 'APPEND': APPEND})
if '-b' in sys.argv:
    p = subprocess.run(['cargo', 'check', '--offline', '-p', 'flapigen'], cwd=ROOT, env=dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_TARGET_DIR='/tmp/vprefact-target'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        print('\n'.join(l for l in p.stdout.split('\n') if not l.startswith('warning'))[-3000:])
        sys.exit(1)
def one(i):
    env = dict(os.environ, VP_REPO=ROOT, VP_EVIDENCE='/tmp/vprefact-ev', VP_CACHE='/tmp/vprefact-cache-' + name)
    p = subprocess.run(['python3', 'run.py', i], cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return i, p.returncode, p.stdout
for i, rc, out in ThreadPoolExecutor(6).map(one, ids):
    if rc:
        print('=== %s exit %d' % (i, rc))
        l = [x for x in out.split('\n') if not x.startswith('KNOWN')]
        print('\n'.join(x[:400] for x in (l[-14:] if rc != 1 else l[-24:])))
print('done', name)
