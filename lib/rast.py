"""Syntax trees of Rust sources (through rsdump, a small program around syn)."""
import threading
import json, os, subprocess, hashlib, tempfile
from core import REPO, CACHE, VERIF

_bin = None


def tool():
    global _bin
    if _bin:
        return _bin
    env = dict(os.environ)
    env.pop('RUSTFLAGS', None)
    env['RUSTUP_TOOLCHAIN'] = 'stable'
    env['CARGO_TARGET_DIR'] = os.path.join(CACHE, 'rsdump')
    p = subprocess.run(['cargo', 'build', '--offline', '-q'], cwd=os.path.join(VERIF, 'rsdump'), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise SystemExit('rsdump does not build:\n' + p.stdout)
    _bin = os.path.join(CACHE, 'rsdump', 'debug', 'rsdump')
    return _bin


def dump(paths, mode=None):
    p = subprocess.run([tool()] + (['--' + mode] if mode else []) + list(paths), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode:
        raise SystemExit('rsdump: ' + p.stderr)
    return json.loads(p.stdout)


def dump_text(text, mode=None):
    d = os.path.join(CACHE, 'tmp')
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, 'x%d_%d.rs' % (os.getpid(), threading.get_ident()))
    with open(f, 'w') as o:
        o.write(text)
    r = dump([f], mode)[0]
    os.remove(f)
    return r


class Source:
    """all Rust files of macroslib/src: file -> items; functions by name"""

    def __init__(self, root='macroslib/src'):
        self.root = os.path.join(REPO, root)
        files = []
        for d, _, fs in os.walk(self.root):
            for f in sorted(fs):
                if f.endswith('.rs'):
                    files.append(os.path.join(d, f))
        self.files = {}
        self.errors = []
        for doc in dump(sorted(files)):
            rel = os.path.relpath(doc['file'], self.root)
            if 'error' in doc:
                self.errors.append((rel, doc['error']))
                continue
            self.files[rel] = doc['items']
        self.fns = {}      # name -> [Fn record]
        self.consts = {}
        self.structs = {}
        self.enums = {}
        self.macros = {}
        for rel, items in self.files.items():
            self._collect(rel, items, '', None)

    def _test(self, it):
        return any('cfg (test)' in a.replace('cfg(test)', 'cfg (test)') or a.replace(' ', '') == '#[test]' for a in it.get('attrs') or [])

    def _collect(self, rel, items, mod, impl):
        for it in items:
            if self._test(it):
                continue
            k = it['k']
            if k == 'Fn':
                it['file'] = rel
                it['mod'] = mod
                it['impl'] = impl and impl['ty']
                it['tr'] = impl and impl.get('tr')
                self.fns.setdefault(it['name'], []).append(it)
                self._inner(rel, it.get('b') or [], mod)
            elif k == 'Impl':
                self._collect(rel, it['items'], mod, it)
            elif k == 'Trait':
                self._collect(rel, [x for x in it['items'] if x['k'] == 'Fn'], mod, dict(ty=it['name'], tr=it['name']))
            elif k == 'Mod' and it['items']:
                self._collect(rel, it['items'], mod + '::' + it['name'], impl)
            elif k in ('Const', 'Static'):
                it['file'] = rel
                self.consts.setdefault(it['name'], []).append(it)
            elif k == 'Struct':
                it['file'] = rel
                self.structs.setdefault(it['name'], []).append(it)
            elif k == 'Enum':
                it['file'] = rel
                self.enums.setdefault(it['name'], []).append(it)
            elif k == 'MacroItem' and it.get('ident'):
                it['file'] = rel
                self.macros.setdefault(it['ident'], []).append(it)

    def _inner(self, rel, stmts, mod):
        for st in stmts:
            if st['k'] == 'ItemStmt':
                self._collect(rel, [st['item']], mod, None)

    def fn(self, name, file=None, impl=None):
        r = [f for f in self.fns.get(name, []) if (file is None or f['file'] == file) and (impl is None or (f['impl'] or '').split('<')[0].strip() == impl)]
        return r[0] if len(r) == 1 else None


def walk(n):
    """all nodes below n, n included"""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if 'k' in x:
                yield x
            st.extend(reversed([v for k, v in x.items() if k not in ('toks', 'src')]))
        elif isinstance(x, list):
            st.extend(reversed(x))


def toks_text(ts):
    """token list -> text"""
    out = []
    for t in ts:
        if t[0] == 'g':
            o, c = {'(': '()', '{': '{}', '[': '[]', '': ('', '')}[t[1]]
            out.append(o + ' ' + toks_text(t[3]) + ' ' + c)
        elif t[0] == 's':
            out.append(json.dumps(t[1]))
        elif t[0] == 'p' and len(t) > 3 and t[3]:
            out.append(t[1] + '\0')
        else:
            out.append(t[1])
    return ' '.join(out).replace('\0 ', '')
