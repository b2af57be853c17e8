"""Callback interfaces of the Java back end (java_jni/finterface.rs): the Java interface and the Rust implementation of the trait,
rendered for sample declarations."""
import re
import javacls
from tyeval import *
from model import Model
from tmpl import Undecided

_ev = {}
OPS = javacls.OPS


def evaluated(src):
    """(Java files, conversion code merged into the type map, code added to the Rust glue)"""
    if id(src) not in _ev:
        merged = []

        def merge(ev, a):
            merged.append(to_text(a[2]))
            return var('Ok', UNIT)
        ev = TEval(src, inline_files=lambda f: f.startswith('java_jni/') or f == 'typemap/utils.rs', overrides={
            'find_suitable_ftypes_for_interace_methods': lambda e, a: var('Ok', Sym('methods_sign')), '.merge': merge, 'get_null_annotation_imports': lambda e, a: Sym('vf imports')})
        ev.run(src.fn('generate_interface', 'java_jni/finterface.rs'))
        _ev[id(src)] = ev.store.get(('s', '$files')), merged, ev.store.get(('s', 'ctx.rust_code'))
    return _ev[id(src)]


class Iface:
    """texts of the interface `name` (trait `trait`) with methods [dict(name, rust, slf, args=[(name, Java type, Rust type, JNI type)], ret=None | (Java type, Rust type, JNI type))]"""

    def __init__(self, src, name, trait, methods, pkg, table, null=None):
        self.ms, self.table = {'m%d' % i: m for i, m in enumerate(methods)}, table
        V = {'interface.name': name, 'interface.items': list(self.ms), 'methods_sign': list(self.ms), 'interface.doc_comments': [], 'interface.self_type': trait, 'interface.self_type.bounds[0]': trait,
             'ctx.cfg.package_name': pkg, 'ctx.cfg.null_annotation_package': null if null else ('variant', 'None'), 'null_annotation_package': null if null else ('variant', 'None'), 'vf imports': 'import %s.*;' % null if null else ''}
        R = [(r'ctx\.java_type_to_jni_sig_map\.get\((.*)\)(\??)', self.sig), (r'interface\.items\[(m\d+)\](.*)', self.item), (r'methods_sign\[(m\d+)\](.*)', self.sign), (r'zip\(.*\)\[(m\d+)\]\.1(.*)', self.sign), (r'range\(0,.*\)\[i(\d+)\]', lambda m: int(m.group(1))),
             (r'\(?([A-Z_ |]+?)\)?\.contains\(([A-Z_]+)\)', lambda m: m.group(2) in m.group(1).split(' | '))]
        self.m = m = Model(V, R)
        r = Render(m.decide, m.hole, m.items)
        files, merged, rust = evaluated(src)
        self.files = [(r.text(x.f['0']), t) for cc, x in clsflat(files) for a, t in r.all(x.f['1'], 1)]
        self.conv = [t for x in merged for a, t in r.all(x, 1)]
        self.rust = [t for x in rust.p if x[0] == 'i' for a, t in r.all(to_text(x[1]), 1)]
        if m.unknown_holes:
            raise Undecided(str(list(m.unknown_holes))[:300])

    def sig(self, m):
        v = self.m.val(m.group(1))
        if not isinstance(v, str):
            return None
        s = self.table.get(v)
        return ('variant', 'None') if s is None else s

    def item(self, mm):
        x, s = self.ms[mm.group(1)], re.sub(r'^' + OPS, '', mm.group(2))
        ins = ['self'] + ['i%d' % i for i in range(len(x['args']))]
        if re.fullmatch(r'\.name' + OPS, s):
            return x['name']
        if s == '.doc_comments':
            return []
        if re.fullmatch(r'\.rust_name\.segments(?:\.last\(\)\??|\[[^\]]*\])(\.ident)?' + OPS, s) or re.fullmatch(r'\.rust_name\.segments\[.*', s):
            return x['rust']
        if s == '.fn_decl.inputs':
            return ins
        if re.match(r'\.fn_decl\.inputs(?:\[(?:0|self)\]|\.first\(\)\?)', s):
            return x.get('slf', '&self') if 'as_self_arg' in s else None
        q = re.match(r'\.fn_decl\.inputs(?:\.skip\(1\))?\[i(\d+)\]', s)
        if q:
            s = s[q.end():]
            a = x['args'][int(q.group(1))]
            s = re.sub(r'^\.as_named_arg\(\)\??', '', s)
            return a[2] if s == '.ty' else a[0] if s.startswith('.name') else None
        q = re.fullmatch(r'\.arg_names_without_self\(\)(?:\[i(\d+)\])?' + OPS, s)
        if q:
            return x['args'][int(q.group(1))][0] if q.group(1) else ins[1:]
        if s == '.fn_decl.output':
            return ('variant', 'Type' if x.get('ret') else 'Default')
        if s == '.fn_decl.output~Type.1':
            return x['ret'][1] if x.get('ret') else None
        return None

    def sign(self, mm):
        x, s = self.ms[mm.group(1)], mm.group(2)
        if re.fullmatch(r'\.input(?:\(\))?' + OPS, s):
            return ['i%d' % i for i in range(len(x['args']))]
        q = re.match(r'\.input(?:\(\))?' + OPS + r'\[i(\d+)\]' + OPS, s)
        if q:
            a = x['args'][int(q.group(1))]
            j, jni = a[1], a[3]
        else:
            q = re.match(r'\.output(?:\(\))?' + OPS, s)
            if not q:
                return None
            j, jni = (x['ret'][0], x['ret'][2]) if x.get('ret') else ('void', '()')
        s = s[q.end():]
        if re.fullmatch(r'\.name' + OPS, s):
            return j
        if re.fullmatch(r'\.(annotation|java_converter)' + OPS, s):
            return ('variant', 'None')
        if re.fullmatch(r'\.corresponding_rust_type(?:\(\))?(\.ty|\.normalized_name|\.typename\(\))?' + OPS, s):
            return jni
        return None


def clsflat(v):
    import clsmodel
    return clsmodel.flat(v)
