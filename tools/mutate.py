#!/usr/bin/env python3
"""development tool: applies the edits of tools/mutants/*.py one at a time to a scratch copy of /repo and runs checks.
M(id, props, file, old, new): a change that breaks props (every check named has to raise an alarm)
N(id, props, file, old, new): a change that keeps the behaviour (the checks have to stay quiet)
usage: mutate.py [-c] [filter ...]     (-c: also cargo check)"""
import sys, os, subprocess, shutil, glob, re, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get('MUT_DIR', '/tmp/vpmut')
muts = []


def M(id, props, file, *edits):
    muts.append((id, 'M', props.split(), file, edits))


def N(id, props, file, *edits):
    muts.append((id, 'N', props.split(), file, edits))


def main():
    args = sys.argv[1:]
    cc = '-c' in args
    args = [a for a in args if a != '-c']
    for p in sorted(glob.glob(V + '/tools/mutants/*.py')):
        exec(compile(open(p).read(), p, 'exec'), dict(M=M, N=N))
    os.makedirs(W, exist_ok=True)
    subprocess.run(['rsync', '-a', '--delete', '--exclude', 'target', '--exclude', '.git', '/repo/', W + '/repo/'], check=True) if shutil.which('rsync') else \
        subprocess.run('rm -rf %s/repo && mkdir -p %s/repo && cd /repo && tar --exclude=./target --exclude=./.git -cf - . | tar -C %s/repo -xf -' % (W, W, W), shell=True, check=True)
    env = dict(os.environ, VP_REPO=W + '/repo', VP_CACHE=W + '/cache', VP_EVIDENCE=W + '/evidence')
    os.makedirs(W + '/cache', exist_ok=True)
    bad = 0
    for id, kind, props, file, edits in muts:
        if args and not any(a in id or a in props for a in args):
            continue
        sel = [p for p in props if not args or any(a in id for a in args) or p in args]
        path = os.path.join(W, 'repo', file)
        src = open(path).read()
        new = src
        ok = True
        for i in range(0, len(edits), 2):
            if new.count(edits[i]) < 1:
                print('%-28s EDIT DOES NOT APPLY: %r' % (id, edits[i][:60]))
                ok = False
                break
            new = new.replace(edits[i], edits[i + 1], 1)
        if not ok:
            bad += 1
            continue
        open(path, 'w').write(new)
        try:
            if cc:
                r = subprocess.run(['cargo', 'check', '--offline', '-q'], cwd=W + '/repo/macroslib', env=dict(env, CARGO_TARGET_DIR=W + '/cc'), capture_output=True, text=True)
                if r.returncode:
                    print('%-28s DOES NOT COMPILE\n%s' % (id, r.stderr[-1500:]))
                    bad += 1
            for p in sel:
                r = subprocess.run([sys.executable, V + '/run.py', p], env=env, capture_output=True, text=True, cwd=V)
                viol = 'VIOLATION property=' + p in r.stdout
                good = (viol and r.returncode == 1) if kind == 'M' else (r.returncode == 0 and not viol)
                if not good:
                    bad += 1
                msg = [l for l in r.stdout.splitlines() if l.startswith('      ')]
                print('%-28s %s %s %s' % (id, p, 'ok  ' if good else ('MISSED' if kind == 'M' and r.returncode == 0 else 'FALSE ALARM' if kind == 'N' and r.returncode == 1 else 'ERROR'),
                                          (msg[0].strip()[:150] if msg else '') if r.returncode in (0, 1) else r.stderr[-600:]))
                sys.stdout.flush()
        finally:
            open(path, 'w').write(src)
    print('not as expected:', bad)


main()
