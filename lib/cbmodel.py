"""Text generated for a callback (foreign_callback!) of the C++ back end: templates of cpp/finterface.rs rendered for a sample
declaration.  A method is (tag, name, trait function, self, [(arg name, C type, C++ type, Rust ftype, Rust type)], ret or None)
with ret = (C type, C++ type, Rust ftype, Rust type); a C++ type that differs from the C type goes through the stand-in
function cv_in<C, Cpp> / cv_out<Cpp, C>, a Rust type that differs through vf_conv."""
import re
from tyeval import *
from model import Model
import clsmodel

_ev = {}


def evaluated(src):
    if id(src) not in _ev:
        over = {'find_suitable_ftypes_for_interace_methods': lambda ev, a: var('Ok', Sym('methods_sign')), 'map_type': lambda ev, a: Sym('map_type')}
        ev = TEval(src, inline_files=lambda f: f.startswith('cpp/') or f == 'typemap/utils.rs', overrides=over)
        ev.run(src.fn('generate_interface', 'cpp/finterface.rs'))
        rules, ft = [], []

        def add(e, a):
            rules.append((keyof(a[1]), keyof(a[2]), to_text(a[3])))
            return UNIT

        def aft(e, a):
            ft.append(a[1])
            return var('Ok', UNIT)
        ev2 = TEval(src, inline_files=lambda f: f.startswith('cpp/') or f == 'typemap/utils.rs',
                    overrides={**over, '.add_conversion_rule': add, '.alloc_foreign_type': aft, 'new': lambda e, a: a[0] if a else Text(), 'new2': lambda e, a: a[0],
                               'with_params': lambda e, a: a[0], 'invalid_src_id_span': lambda e, a: UNIT, 'new_with_unique_prefix': lambda e, a: a[0],
                               'parse_ty_with_given_span': lambda e, a: var('Ok', a[0])})
        ev2.run(src.fn('generate_interface', 'cpp/finterface.rs'))
        _ev[id(src)] = ev, rules, ft
    return _ev[id(src)]


class Callback:
    def __init__(self, src, methods, name='Cb', trait='VfTrait', ns='vfns'):
        self.src, self.methods, self.name, self.trait = src, methods, name, trait
        self.ev, self.rules, self.ft = evaluated(src)
        M = {m[0]: m for m in methods}
        V = {'interface.name': name, 'interface.doc_comments': [], 'req_includes': [], 'ctx.cfg.namespace_name': ns, 'interface.items': list(M), 'methods_sign': list(M),
             'interface.self_type.bounds[0]': trait, 'interface.self_type': trait}
        rng = r'range\(0,\s*\(len\(interface\.items\[(\w+)\]\.fn_decl\.inputs\) - 1\)\)'
        arg = lambda t, a: [x for i, x in enumerate(M[t][4]) if 'a%d' % i == a][0]
        tags = lambda t: ['a%d' % i for i in range(len(M[t][4]))]
        ret = lambda t: M[t][5]
        q, w = (x + r'\[(?:index\([\w.]+\)\[)?(\w+)\]?\]\.' for x in ('methods_sign', r'interface\.items'))
        rules = [(r'empty\(.*cpp_converter.*', False), (w + r'doc_comments', []), (w + r'name(?:\.as_str\(\))?', lambda m: M[m.group(1)][1]), (w + r'rust_name\.segments\.last\(\)(?:\?|\.unwrap\(\))?\.ident', lambda m: M[m.group(1)][2]),
                 (r'.*' + w + r'fn_decl\.inputs\[0\]\.as_self_arg\(.*\)\??\.is_read_only\(\)', lambda m: 'mut' not in M[m.group(1)][3]),
                 (w + r'fn_decl\.inputs\[0\]\.as_self_arg\(.*\)\??', lambda m: M[m.group(1)][3]),
                 (w + r'fn_decl\.inputs\.skip\(1\)', lambda m: tags(m.group(1))), (w + r'fn_decl\.inputs', lambda m: ['self'] + tags(m.group(1))),
                 (w + r'arg_names_without_self\(\)', lambda m: tags(m.group(1))),
                 (w + r'arg_names_without_self\(\)\[(\w+)\](?:\.\w+\(\))?', lambda m: arg(m.group(1), m.group(2))[0]),
                 (w + r'fn_decl\.inputs(?:\.skip\(1\))?\[(\w+)\]\.as_named_arg\(\)(?:\?|\.unwrap\(\))?\.ty.*', lambda m: arg(m.group(1), m.group(2))[4]),
                 (w + r'fn_decl\.inputs(?:\.skip\(1\))?\[(\w+)\]\.as_named_arg\(\)(?:\?|\.unwrap\(\))?\.name.*', lambda m: arg(m.group(1), m.group(2))[0]),
                 (w + r'fn_decl\.output', lambda m: ('variant', 'Type' if ret(m.group(1)) else 'Default')),
                 (w + r'fn_decl\.output~Type\.1.*', lambda m: ret(m.group(1))[3] if ret(m.group(1)) else '()'),
                 (rng, lambda m: tags(m.group(1))), (rng + r'\[a(\d+)\]', lambda m: m.group(2)),
                 (r'index\(.*\)\[a(\d+)\]', lambda m: int(m.group(1))),
                 (q + r'input(?:\(\))?', lambda m: tags(m.group(1))),
                 (q + r'input(?:\(\))?\[(\w+)\](?:\.base)?\.name.*', lambda m: arg(m.group(1), m.group(2))[1]),
                 (q + r'input(?:\(\))?\[(\w+)\](?:\.base)?\.corresponding_rust_type.*', lambda m: arg(m.group(1), m.group(2))[3]),
                 (q + r'output(?:\(\))?(?:\.base)?\.corresponding_rust_type.*', lambda m: ret(m.group(1))[2] if ret(m.group(1)) else '()'),
                 (q + r'output(?:\(\))?(?:\.base)?\.name.*', lambda m: ret(m.group(1))[0] if ret(m.group(1)) else 'void'),
                 (q + r'input(?:\(\))?\[(\w+)\]\.cpp_converter', lambda m: ('variant', 'None' if arg(m.group(1), m.group(2))[1] == arg(m.group(1), m.group(2))[2] else 'Some')),
                 (q + r'input(?:\(\))?\[(\w+)\]\.cpp_converter\?\.typename.*', lambda m: arg(m.group(1), m.group(2))[2]),
                 (q + r'input(?:\(\))?\[(\w+)\]\.cpp_converter\?\.converter\.generate_code_with_subst_func\(.*', lambda m: 'cv_in(%s)' % arg(m.group(1), m.group(2))[0]),
                 (q + r'output(?:\(\))?\.cpp_converter', lambda m: ('variant', 'None' if not ret(m.group(1)) or ret(m.group(1))[0] == ret(m.group(1))[1] else 'Some')),
                 (q + r'output(?:\(\))?\.cpp_converter\?\.typename.*', lambda m: ret(m.group(1))[1]),
                 (r'.*' + q + r'output(?:\(\))?\.cpp_converter\?\.converter.*?"?(?:, (\w+))?"?\)?', lambda m: 'cv_out(ret)'),
                 (r'.*\.converter\.has_param\(.*\)', False),
                 (r'.*\.input_to_output', False),
                 (r'new_unique_name\(.*, "(\w+)"\)', lambda m: m.group(1)),
                 (r'empty\(replace\(.*cpp_converter.*', False), (r'is\(carried.*', True), (r'eq\(carried.*', False)]
        self.model = m = Model(V, rules)
        self.R = Render(m.decide, m.hole, m.items)
        self.files = []
        for cc, x in clsmodel.flat(self.ev.store[('s', '$files')]):
            for a, t in self.R.all(x.f['1'], 4):
                self.files.append((self.R.text(x.f['0']), t, a))
        self.rust = clsmodel.texts(self.ev.store[('s', 'ctx.rust_code')], self.R)
        self.conv = [(f, t, self.R.text(c)) for f, t, c in self.rules]
