#!/usr/bin/env python3
"""mkseed.py <id>: from tools/seeds/<id>.py (PROPERTY, NEEDS, BREAKS, FILE or EDITS, MAIN) writes seeded/<id>/ (patch.diff against /repo HEAD)"""
import sys, os, subprocess, json, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for id in sys.argv[1:]:
    ns = {}
    exec(open('%s/tools/seeds/%s.py' % (V, id)).read(), ns)
    d = '%s/seeded/%s' % (V, id)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='mkseed')
    subprocess.run('git -C /repo archive HEAD macroslib | tar -C %s -xf -; cd %s && git init -q . && git add -A && git -c user.email=a -c user.name=a commit -qm x' % (w, w), shell=True, check=True)
    for f, old, new in ns['EDITS']:
        p = os.path.join(w, f)
        s = open(p).read()
        assert s.count(old) >= 1, (id, f, old[:80])
        assert s.count(old) == 1, (id, 'ambiguous', f, old[:80], s.count(old))
        open(p, 'w').write(s.replace(old, new, 1))
    diff = subprocess.run(['git', 'diff'], cwd=w, capture_output=True, text=True).stdout
    open(d + '/patch.diff', 'w').write(diff)
    shutil.rmtree(w)
    if 'MAIN' in ns:
        open(d + '/main.rs', 'w').write(open(V + '/tools/seedlib/prelude.rs').read() + ns['MAIN'])
        shutil.copy(V + '/tools/seedlib/demo.sh', d + '/demo.sh')
    for fn, txt in ns.get('FILES', {}).items():
        open(d + '/' + fn, 'w').write(txt)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=ns['PROPERTY'], needs=ns['NEEDS'], what_it_breaks=ns['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
    print(id, 'written', diff.count('\n+'), 'added lines')
