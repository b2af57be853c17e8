"""Rust functions that java_jni/fclass.rs writes for sample class declarations: names, parameters and results."""
import re
import rustcls, clsmodel, javacls
from tmpl import *
from model import Model
from tyeval import TEval
from rustcls import T

_ev = {}
FN = re.compile(r'pub\s+extern\s+"C"\s+fn\s+([^\s(]+)\s*\(')


def evaluated(src):
    if id(src) not in _ev:
        off = {'.copy_derived': lambda ev, a: False, '.clone_derived': lambda ev, a: False, '.smart_ptr_copy_derived': lambda ev, a: False, '.camel_case_aliases_derived': lambda ev, a: False}
        over = {**off, 'new_with_unique_prefix': lambda ev, a: a[0], 'if_result_return_ok_err_types': rustcls.o_result, '.ty_to_rust_type_checked': lambda ev, a: var('Some', a[1]),
                'normalize_type': lambda ev, a: a[0] if not isinstance(a[0], Sym) else Sym('normalize_type(%s)' % a[0].key)}
        ev = TEval(src, inline_files=lambda f: f.startswith('java_jni/') or f == 'typemap/utils.rs', overrides=over, pre=rustcls.pre('Foo', 'Foo'))
        ev.run(src.fn('generate_rust_code', 'java_jni/fclass.rs'), f_methods_sign=Sym('methods_sign'))
        _ev[id(src)] = ev.store[('s', 'ctx.rust_code')]
    return _ev[id(src)]


def predefined(src):
    """{Java type: signature} the generator starts with"""
    ev = TEval(src, inline_files=lambda f: f.startswith('java_jni/'))
    r = ev.run(src.fn('predefined_java_type_to_jni_sig', 'java_jni/rust_code.rs'))
    out = {}
    for x in r.p:
        if x[0] != 'i' or x[1].name != 'tuple':
            raise Undecided('signatures of the Java types: ' + str(x)[:200])
        k, v = to_text(x[1].f['0']).lit(), to_text(x[1].f['1']).lit()
        if k is None or v is None:
            raise Undecided('signatures of the Java types: ' + keyof(x[1])[:200])
        out[k] = v
    return out


class Fns(javacls.Cls):
    """.fns: [(name, [(parameter, type)], result)] of the class `name`; arguments as for javacls.Cls with the type that crosses as 4th component of args and 3rd of ret"""

    def __init__(self, src, name, methods, pkg, table):
        self.src, self.ms, self.table = src, {'m%d' % i: m for i, m in enumerate(methods)}, table
        V = {'class.name': name, 'class.methods': list(self.ms), 'methods_sign': list(self.ms), 'class.doc_comments': [], 'ctx.cfg.package_name': pkg, 'class.derive_list': [],
             'class.self_desc': ('variant', 'Some')}
        R = [(r'ctx\.java_type_to_jni_sig_map\.get\((.*)\)(\??)', self.sig), (r'class\.methods\[(m\d+)\](.*)', self.method), (r'methods_sign\[(m\d+)\](.*)', self.sign), (r'zip\(.*\)\[(m\d+)\]\.1(.*)', self.sign),
             (r'if_result_return_ok_err_types\(.*?\[(m\d+)\].*\)', lambda m: 'result' if self.ms[m.group(1)].get('throws') else ('variant', 'None')),
             (r'new_unique_name\(.*, "(\w+)"\)', lambda m: m.group(1))]
        self.m = m = Model(V, R)
        r = Render(m.decide, m.hole, m.items)
        self.text, self.fns = [], []
        for cond, ts in clsmodel.texts(evaluated(src), r):
            t = '\n'.join(ts)
            self.text.append(t)
            self.fns.append(list(functions(t)))

    def sig(self, m):
        v = self.m.val(m.group(1))
        if not isinstance(v, str):
            return None
        s = self.table.get(v)
        return ('variant', 'None') if s is None else s

    def sign(self, mm):
        x, s = self.ms[mm.group(1)], mm.group(2)
        q = re.match(r'\.input' + javacls.OPS + r'\[i(\d+)\]' + javacls.OPS + r'(?:\.base)?\.corresponding_rust_type\b', s)
        if q:
            return x['args'][int(q.group(1))][3]
        if re.match(r'\.output' + javacls.OPS + r'(?:\.base)?\.corresponding_rust_type\b', s):
            return x['ret'][2]
        return javacls.Cls.sign(self, mm)


def functions(t):
    for m in FN.finditer(t):
        d, j = 1, m.end()
        while d and j < len(t):
            d += (t[j] == '(') - (t[j] == ')')
            j += 1
        ps = []
        for p in t[m.end():j - 1].split(','):
            if p.strip():
                n, _, ty = p.partition(':')
                ps.append((n.strip(), ty.strip()))
        r = re.match(r'\s*->\s*([^{]+)\{', t[j:])
        yield m.group(1), ps, r.group(1).strip() if r else '()'
