"""Java class wrappers as java_jni/fclass.rs writes them for sample class declarations."""
from tyeval import *
from model import Model
import clsmodel
from tmpl import Undecided

_ev = {}
OPS = r'(?:\.(?:as_ref|base|clone|iter|display|as_str|to_string)(?:\(\))?)*'


def evaluated(src):
    if id(src) not in _ev:
        ev = TEval(src, inline_files=lambda f: f.startswith('java_jni/'), overrides={'extend_foreign_class': lambda e, a: var('Ok', UNIT), 'get_null_annotation_imports': lambda e, a: Sym('vf imports')})
        ev.run(src.fn('generate_java_code', 'java_jni/fclass.rs'), methods_sign=Sym('methods_sign'))
        _ev[id(src)] = ev.store.get(('s', '$files'))
    return _ev[id(src)]


class Cls:
    """text of the Java class `name` with methods [dict(kind, name, args=[(name, type, conv)], ret=(type, conv), throws, dummy, access)],
    conv = None or (code with the markers of the generator, transition type)"""

    def __init__(self, src, name, methods, pkg='vf.pkg', fence=('GenerateFence', 5), null=None, code=''):
        self.src, self.ms = src, {'m%d' % i: m for i, m in enumerate(methods)}
        V = {'class.name': name, 'class.methods': list(self.ms), 'methods_sign': list(self.ms), 'class.doc_comments': [], 'ctx.cfg.package_name': pkg, 'class.foreign_code': code,
             'ctx.cfg.reachability_fence': ('variant', fence[0]), 'null_annotation_package': null if null else ('variant', 'None'), 'null_annotation_package?': null, 'vf imports': 'import %s.*;' % null if null else ''}
        if len(fence) > 1:
            V['ctx.cfg.reachability_fence~GenerateFence.0'] = fence[1]
        R = [(r'class\.methods\[(m\d+)\](.*)', self.method), (r'methods_sign\[(m\d+)\](.*)', self.sign), (r'zip\(.*\)\[(m\d+)\]\.1(.*)', self.sign),
             (r'if_result_return_ok_err_types\(.*?\[(m\d+)\].*\)', lambda m: 'result' if self.ms[m.group(1)].get('throws') else ('variant', 'None')),
             (r'\(?([A-Z_ |]+?)\)?\.contains\(([A-Z_]+)\)', lambda m: m.group(2) in m.group(1).split(' | ')), (r'carried\d+@.*', False), (r'eq\(expr:Lit.*|.*\)\[0\].*', False),
             (r'new_unique_name\(.*, "(\w+)"\)', lambda m: m.group(1)), (r'new_unique_name\(.*, text\((.*)\)\)', lambda m: self.m.val('text(%s)' % m.group(1)))]
        self.m = m = Model(V, R)
        r = Render(m.decide, m.hole, m.items)
        self.files = []
        for cc, x in clsmodel.flat(evaluated(src)):
            for a, t in r.all(x.f['1'], 1):
                self.files.append((r.text(x.f['0']), re.sub(r'\(\s*,', '(', t)))

    def method(self, mm):
        x, s = self.ms[mm.group(1)], re.sub(r'^' + OPS, '', mm.group(2))
        if s == '.variant':
            return ('variant', x['kind'])
        if s == '.variant~Method.0':
            return ('variant', x.get('self', 'Rptr'))
        if s == '.access':
            return ('variant', x.get('access', 'Public'))
        if s == '.doc_comments':
            return []
        if s.startswith('.short_name()'):
            return x['name'] if re.fullmatch(OPS, s[13:]) else None
        if s == '.is_dummy_constructor()':
            return bool(x.get('dummy'))
        if s == '.fn_decl.output':
            return ('variant', 'Type')
        q = re.fullmatch(r'\.arg_names_without_self\(\)(?:\[i(\d+)\])?' + OPS, s)
        if q:
            return x['args'][int(q.group(1))][0] if q.group(1) else ['i%d' % i for i in range(len(x['args']))]
        return None

    def sign(self, mm):
        x, s = self.ms[mm.group(1)], mm.group(2)
        if re.fullmatch(r'\.input' + OPS, s):
            return ['i%d' % i for i in range(len(x['args']))]
        q = re.match(r'\.input' + OPS + r'\[i(\d+)\]' + OPS, s)
        if q:
            i = int(q.group(1))
            if i >= len(x['args']):
                return None
            ty, conv = x['args'][i][1:3]
        else:
            q = re.match(r'\.output' + OPS, s)
            if not q:
                return None
            ty, conv = x['ret'][:2]
        s = s[q.end():]
        if re.fullmatch(r'\.name' + OPS, s):
            return ty
        if re.fullmatch(r'\.annotation' + OPS, s):
            return ('variant', 'None')
        q = re.match(r'\.java_converter' + OPS, s)
        if q:
            s = s[q.end():]
            if not s:
                return 'conv' if conv else ('variant', 'None')
            if conv is None:
                return None
            if re.fullmatch(r'\?\.converter' + OPS, s):
                return conv[0]
            if re.fullmatch(r'\?\.java_transition_type' + OPS, s):
                return conv[1]
            if re.fullmatch(r'\?\.annotation' + OPS, s):
                return ('variant', 'None')
        return None


def class_types(src):
    """foreign types that a class registers: [(name record, {'in': (border type, Java code), 'out': ...})] as templates over the derives of the class"""
    k = ('types', id(src))
    if k not in _ev:
        ft = []

        def aft(e, a):
            ft.append(a[1])
            return var('Ok', UNIT)
        name = lambda e, a: a[0] if isinstance(a[0], Rec) and a[0].name == 'fname' else var('fname', to_text(a[0]), to_text(a[1]) if len(a) > 2 else Text())
        ev = TEval(src, inline_files=lambda f: f.startswith('java_jni/'), overrides={'.alloc_foreign_type': aft, '.add_conversion_rule': lambda e, a: UNIT, 'new': name, 'new_with_unique_prefix': name,
                   'new2': lambda e, a: a[0], 'invalid_src_id_span': lambda e, a: UNIT, 'convert_to_heap_pointer': lambda e, a: var('tuple', a[1], Text()), 'unpack_from_heap_pointer': lambda e, a: Text()})
        ev.run(src.fn('register_main_foreign_types', 'java_jni/map_class_self_type.rs'))
        _ev[k] = ft
    return _ev[k]


class ClassTypes:
    """.types: [(Java name, direction, border type, code)] of the class `name` with the given derives"""

    def __init__(self, src, name, derive=(), null=None):
        V = {'class.name': name, 'class.copy_derived()': 'Copy' in derive, 'class.smart_ptr_copy_derived()': 'SmartPtrCopy' in derive, 'class.clone_derived()': 'Clone' in derive,
             'ctx.cfg.null_annotation_package': null if null else ('variant', 'None')}
        self.m = m = Model(V, [])
        r = Render(m.decide, m.hole, m.items)
        self.types = []
        for f in class_types(src):
            n = f.f['name']
            nm, pre = (n.f['0'], n.f['1']) if isinstance(n, Rec) and n.name == 'fname' else (to_text(n), Text())
            full, pre = r.text(to_text(nm)), r.text(to_text(pre))
            shown = full[len(pre):] if pre and full.startswith(pre) else full
            for d in ('into_from_rust', 'from_into_rust'):
                x = f.f.get(d)
                if not (isinstance(x, Rec) and x.name == 'Some'):
                    continue
                i = x.f['0'].f['intermediate']
                if isinstance(i, Rec) and i.name == 'Some':
                    i = i.f['0'].f
                    cc = i['conv_code']
                    self.types.append((full, shown, d, r.text(to_text(i['intermediate_ty'])), cc, r))

    def code(self, t):
        v = t[4]
        while isinstance(v, Rec) and v.name == 'fname':
            v = v.f['0']
        return t[5].text(to_text(v))


def rule_code(code, var, names, n=0):
    """Java code of a typemap rule with the markers of the generator"""
    t = re.sub(r'\$%s\b' % var, '{from_var}', code)
    t = re.sub(r'swig_f_type!\(\s*(\w+)\s*(,[^)]*)?\)', lambda m: names.get(m.group(1), m.group(1)), t)
    t = t.replace('$out', '{to_var_type}', 1).replace('$out', '{to_var}')
    return t
