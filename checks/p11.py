"""P11: both sides of the border agree on the representation of every shared type."""
import re
from core import Check
import rast, tmacro, cpptm, cppglue, clsmodel
from rast import toks_text
from tmpl import *
from model import Model
from llvmir import compile_ir
from clsmodel import texts, expand

PRIM = 'a primitive type and its foreign counterpart have the same width and signedness'
STRUCT = 'a struct declared for C and for Rust has the same members in the same order'
TMPL = 'the C declaration generated from a Rust item repeats its members in order'
EXPORT = 'a function declared to C is exported by Rust with the C calling convention'
FUNC = 'C prototype, Rust function and C++ call of a method agree in name, order and type'

RUST = {'i8': (1, True), 'u8': (1, False), 'i16': (2, True), 'u16': (2, False), 'i32': (4, True), 'u32': (4, False), 'i64': (8, True),
        'u64': (8, False), 'usize': (8, False), 'isize': (8, True), 'f32': (4, 'f'), 'f64': (8, 'f'), 'bool': (1, 'b'),
        'jboolean': (1, 'b'), 'jbyte': (1, True), 'jchar': (2, False), 'jshort': (2, True), 'jint': (4, True), 'jlong': (8, True),
        'jfloat': (4, 'f'), 'jdouble': (8, 'f'), 'jsize': (4, True), 'c_schar': (1, True), 'c_uchar': (1, False),
        'c_short': (2, True), 'c_ushort': (2, False), 'c_int': (4, True), 'c_uint': (4, False), 'c_float': (4, 'f'), 'c_double': (8, 'f'),
        'c_longlong': (8, True), 'c_ulonglong': (8, False)}
# types that C and Rust define by the same words of the platform
SAME = {'c_char': 'char', 'c_long': 'long', 'c_ulong': 'unsigned long', '()': 'void', '*c_void': 'void*', 'c_void': 'void'}
JAVA = {'boolean': (1, 'b'), 'byte': (1, True), 'char': (2, False), 'short': (2, True), 'int': (4, True), 'long': (8, True), 'float': (4, 'f'), 'double': (8, 'f')}


def bare(t):
    t = re.sub(r'\s+', '', t)
    return ('*' if t.startswith('*') else '') + t.split('::')[-1]


class P11:
    def __init__(self, c):
        self.c = c
        self.src = rast.Source()
        self.prim_cpp()
        self.prim_java()
        self.structs()
        self.template()
        self.functions()
        c.floor(PRIM, 18)
        c.floor(STRUCT, 5)
        c.floor(TMPL, 6)
        c.floor(EXPORT, 4)
        c.floor(FUNC, 20)

    # ------------------------------------------------ primitives
    def prims(self, file):
        for b in tmacro.blocks(self.src.files[file]):
            if len(b.rules) == 2 and b.rules[0].kind == 'r_type' and b.rules[1].kind == 'f_type' and not b.rules[0].generics \
                    and b.rules[0].dir is None and b.rules[0].var is None and not b.rules[1].code:
                yield b, bare(toks_text(b.rules[0].left)), b.rules[1].ftype

    def prim_cpp(self):
        l = [(b, r, re.sub(r'/\*.*?\*/', '', f).strip()) for b, r, f in self.prims(cpptm.CPP_INC)]
        l = [(b, r, f) for b, r, f in l if r in RUST or r in SAME]
        names = sorted({f for _, _, f in l if f != 'void'})
        text = '#include <stdint.h>\n#include <stddef.h>\n#include <type_traits>\n'
        for i, f in enumerate(names):
            text += 'extern "C" { extern const int vf_p%d = sizeof(%s) * 16 + (std::is_same<%s, bool>::value ? 4 : std::is_floating_point<%s>::value ? 2 : std::is_signed<%s>::value ? 1 : 0); }\n' % (i, f, f, f, f)
        val = {}
        ir = compile_ir('p11', {'main.cc': text})
        for m in re.finditer(r'@vf_p(\d+) = .*?constant i32 (\d+)', ir):
            n = int(m.group(2))
            val[names[int(m.group(1))]] = (n // 16, {4: 'b', 2: 'f', 1: True, 0: False}[n % 16])
        for b, r, f in l:
            inst = 'C++: %s <-> %s' % (r, f)
            if r in SAME:
                self.c.require(re.sub(r'\bconst\b|\s', '', f) == SAME[r].replace(' ', ''), PRIM, inst, inst, '%s:%d: Rust type %s is declared as "%s" in C, which is "%s"' % ('cpp-include.rs', b.line, r, f, SAME[r]))
            else:
                self.c.require(val.get(f) == RUST[r], PRIM, inst, inst, 'cpp-include.rs:%d: Rust type %s (bytes, signed: %s) is declared as "%s" in C (%s)' % (b.line, r, RUST[r], f, val.get(f)))

    def prim_java(self):
        for b, r, f in self.prims('java_jni/jni-include.rs'):
            if r not in RUST and r != '()':
                continue
            inst = 'Java: %s <-> %s' % (r, f)
            want = ('void' == f) if r == '()' else JAVA.get(f) == RUST[r]
            self.c.require(want, PRIM, inst, inst, 'jni-include.rs:%d: Rust type %s is declared as "%s" in Java, which has another width or sign' % (b.line, r, f))

    # ------------------------------------------------ structs declared twice
    def structs(self):
        g = cppglue.CppGlue(self.src)
        text = open(self.src.root + '/' + cpptm.CPP_INC).read()
        plain = {it['name']: it for it in rast.dump_text(cppglue.plain_items(text))['items'] if it['k'] in ('Struct', 'Union')}

        def shape(it):
            return it['k'], [(f['name'], cpptm.norm_ty(f['ty'])) for f in it['fields']]
        for b, mod, items, inst in g.ctypes:
            for it in items:
                if it['k'] not in ('Struct', 'Union') or it['name'] not in plain:
                    continue
                p = plain[it['name']]
                key = '%s of %s' % (it['name'], mod)
                self.c.require(shape(p) == shape(it), STRUCT, key, it['name'],
                               'cpp-include.rs: %s is declared to C as %s (define_c_type, line %d) and in Rust as %s' % (it['name'], shape(it), b.line, shape(p)))
                self.c.require(any(re.search(r'repr\s*\(\s*C\s*\)', a) for a in p['attrs']) and not any('packed' in a or 'align' in a for a in p['attrs']),
                               STRUCT, key + ' repr(C)', it['name'] + ' repr', 'cpp-include.rs: the Rust struct %s has no C layout although C code reads it' % it['name'])

        for b, mod, items, inst in g.ctypes:
            for it in items:
                if it['k'] == 'Fn':
                    nm = any('no_mangle' in a or 'export_name' in a for a in it['attrs'])
                    self.c.require(nm and re.sub(r'\s', '', it['sig']['abi'] or '') in ('extern"C"', 'extern'), EXPORT, '%s of %s' % (it['name'], mod), it['name'],
                                   'cpp-include.rs: function %s (define_c_type, line %d) is declared to C but the Rust side is %s' % (it['name'], b.line, 'not exported under this name' if not nm else 'not extern "C"'))
                elif it['k'] == 'Static':
                    self.c.require(any('no_mangle' in a for a in it['attrs']), EXPORT, '%s of %s' % (it['name'], mod), it['name'], 'cpp-include.rs: static %s is not exported' % it['name'])

    # ------------------------------------------------ template of C items
    def cell(self, ev, pred):
        for k, v in ev.store.items():
            if isinstance(v, Text) and pred(v):
                yield v

    def render(self, fn, model, pick):
        ev = Eval(self.src, inline_files=lambda f: f.startswith('cpp/cpp_code'))
        ev.run(self.src.fn(fn, 'cpp/cpp_code.rs'))
        R = Render(model.decide, model.hole, model.items)
        out = []
        for k, v in ev.store.items():
            if k == ('s', 'ctx.rust_code'):
                continue
            for t in flat_texts(v):
                try:
                    for a, s in R.all(t, 16):
                        if pick(s):
                            out.append(s)
                except Undecided:
                    pass
        rust = []
        if ('s', 'ctx.rust_code') in ev.store:
            rust = texts(ev.store[('s', 'ctx.rust_code')], R)
        return out, rust, ev

    def template(self):
        c = self.c
        flds = ['fa', 'fb', 'fc']
        for kind in ('struct', 'union'):
            V = {'ctype.fields()?.named': flds, 'ctype.c_type_prefix()': kind, 'ctype.name()': 'VfName'}
            rules = [(r'.*is_item_defined\(.*', False),
                     (r'ctype\.fields\(\)\?\.named\[(\w+)\]\.ident\?', lambda m: 'n_' + m.group(1)),
                     (r'ctype\.fields\(\)\?\.named\[(\w+)\]\.ty', lambda m: 'R_' + m.group(1)),
                     (r'map_repr_c_type\(ctx, .*?ctype\.fields\(\)\?\.named\[(\w+)\]\.ty.*\)\?\.(?:base\.)?name(?:\.display\(\))?', lambda m: 'C_' + m.group(1)),
                     (r'.*\.provided_by_module', [])]
            out, rust, ev = self.render('do_generate_c_type', Model(V, rules), lambda s: re.search(r'\b%s\s+VfName\s*\{[^}]*\}' % kind, s) and 'MyVf' not in s)
            want = [('C_' + f, 'n_' + f) for f in flds]
            found = 0
            for s in out:
                m = re.search(r'\b%s\s+VfName\s*\{([^}]*)\}' % kind, s)
                got = [tuple(x.split()) for x in m.group(1).split(';') if x.strip()]
                found += 1
                c.require(got == want, TMPL, '%s: C text' % kind, 'do_generate_c_type %s' % kind,
                          'cpp/cpp_code.rs:do_generate_c_type: a %s with members %s is declared in C as { %s }' % (kind, want, m.group(1).strip()))
            c.require(found, TMPL, '%s: C text present' % kind, 'do_generate_c_type %s text' % kind, 'do_generate_c_type writes no C declaration of a %s' % kind)
            # layout test: same members as the user's type
            wantr = [('n_' + f, 'R_' + f) for f in flds]
            nlay = 0
            for a, ts in rust:
                for s in ts:
                    m = re.search(r'\b%s\s+MyVfName\s*\{([^}]*)\}' % kind, s)
                    if m:
                        nlay += 1
                        got = [tuple(y.strip() for y in x.split(':')) for x in m.group(1).split(',') if x.strip()]
                        c.require(got == wantr and re.search(r'repr\s*\(C\)\]\s*$', s[:m.start()].rstrip() + '') is not None, TMPL, '%s: layout test' % kind, 'layout test %s' % kind,
                                  'cpp/cpp_code.rs:do_generate_c_type: the layout test of a %s with members %s declares { %s }' % (kind, wantr, m.group(1).strip()))
            c.require(nlay, TMPL, '%s: layout test present' % kind, 'layout test %s text' % kind, 'do_generate_c_type emits no layout test for a %s that the user declares' % kind)
        # keyword of each kind of item
        for it in self.src.files['cpp/cpp_code.rs']:
            if it['k'] != 'Impl' or not re.search(r'\bItem(Struct|Union)\b', it['ty']):
                continue
            kind = 'struct' if 'ItemStruct' in it['ty'] else 'union'
            for f in it['items']:
                if f.get('name') == 'c_type_prefix':
                    r = Eval(self.src).run(f)
                    c.require(isinstance(r, Text) and ''.join(map(str, r.p)) == kind, TMPL, 'keyword of a ' + kind, 'keyword ' + kind,
                              'cpp/cpp_code.rs:%d: the C declaration of a Rust %s starts with %r' % (f['l'], kind, r))
        # functions
        args = ['ga', 'gb', 'gc']
        for ret in (False, True):
            V = {'parse_fn_args(f.sig.inputs)?.0': args, 'parse_fn_args(f.sig.inputs)?': args, 'f.sig.ident': 'vf_fun',
                 'f.sig.output': ('variant', 'Type' if ret else 'Default')}
            rules = [(r'map_repr_c_type\(ctx, .*parse_fn_args\(f\.sig\.inputs\)\?(?:\.0)?\[(\w+)\].*\)\?\.(?:base\.)?name(?:\.display\(\))?', lambda m: 'C_' + m.group(1)),
                     (r'map_repr_c_type\(ctx, .*f\.sig\.output.*\)\?\.(?:base\.)?name(?:\.display\(\))?', 'C_ret'),
                     (r'.*parse_fn_args\(f\.sig\.inputs\)\?(?:\.0)?\[(\w+)\].*(?:name|ident).*', lambda m: 'n_' + m.group(1)),
                     (r'.*\.provided_by_module', [])]
            out, _, ev = self.render('add_func_forward_decl', Model(V, rules), lambda s: re.search(r'vf_fun\s*\(', s))
            found = 0
            for s in out:
                m = re.search(r'([\w ]*?)\bvf_fun\s*\(([^)]*)\)', s)
                found += 1
                tys = re.findall(r'C_(\w+?)\b', m.group(2))
                r = m.group(1).split()[-1:] if m.group(1).split() else ['']
                c.require(tys == args and r == (['C_ret'] if ret else ['void']), TMPL, 'function returning %s' % ('a value' if ret else 'nothing'),
                          'add_func_forward_decl', 'cpp/cpp_code.rs:add_func_forward_decl: fn vf_fun(%s)%s is declared in C as "%s"' % (', '.join(args), ' -> ret' if ret else '', m.group(0)))
            c.require(found, TMPL, 'function present', 'add_func_forward_decl text', 'add_func_forward_decl writes no prototype')
        V = {'static_.ident': 'vf_stat'}
        rules = [(r'map_repr_c_type\(ctx, .*static_\.ty.*\)\?\.(?:base\.)?name(?:\.display\(\))?', 'C_ty')]
        out, _, ev = self.render('add_const_forward_decl', Model(V, rules), lambda s: 'vf_stat' in s)
        c.require(any(re.search(r'extern\s+const\s+C_ty\s+vf_stat\s*;', s) for s in out), TMPL, 'static', 'add_const_forward_decl',
                  'cpp/cpp_code.rs:add_const_forward_decl: a static of C type C_ty is declared as %s' % out)

    # ------------------------------------------------ functions of a class
    def functions(self):
        ev = clsmodel.evaluated(self.src)
        n = 0
        for derive in ([], ['Clone', 'Copy'], ['SmartPtrCopy', 'Clone']):
            for nargs in (0, 1, 3):
                for kind in ('Constructor', 'Method', 'StaticMethod'):
                    for ro in ((True, False) if kind == 'Method' else (True,)):
                        for ret in ((False, True) if kind != 'Constructor' else (False,)):
                            for conv in (False, True):
                                self.method(ev, derive, nargs, kind, ro, ret, conv)
                                n += 1
        self.c.analysed('rendered class declarations', n)

    def method(self, ev, derive, nargs, kind, ro, ret, conv):
        args = ['a%d' % i for i in range(nargs)]
        ms = [('m0', 'Constructor', 'new', {})]
        t, mname = 'm0', 'new'
        if kind != 'Constructor':
            t, mname = 'm1', 'meth'
            ms.append(('m1', kind, 'meth', dict(ro=ro, self='Rptr' if ro else 'RptrMut', out_c='C_out' if ret else 'void')))
        rules = [r for r in clsmodel.RULES if 'input' not in r[0]]
        V = clsmodel.values(derive, ms)
        ctor = 'ctx.conv_map.ty_to_rust_type(class.self_desc?.constructor_ret_type)'
        V['class.self_desc'] = ('variant', 'Some')
        V[ctor] = 'VfCtor'
        rules += [(r'check_if_smart_pointer_return_inner_type\(.*', ('variant', 'None')),
                  (r'methods_sign\[(\w+)\]\.input(?:\(\))?', lambda m: args if m.group(1) == t else []),
                  (r'class\.methods\[(\w+)\]\.arg_names_without_self\(\)', lambda m: args if m.group(1) == t else []),
                  (r'class\.methods\[(\w+)\]\.fn_decl\.inputs', lambda m: (['self'] if m.group(1) == 'm1' and kind == 'Method' else []) + (args if m.group(1) == t else [])),
                  (r'class\.methods\[(\w+)\]\.arg_names_without_self\(\)\[(\w+)\]', lambda m: ' N_%s ' % m.group(2)),
                  (r'class\.methods\[(\w+)\]\.fn_decl\.output', lambda m: ('variant', 'Type' if ret and m.group(1) == t else 'Default')),
                  (r'methods_sign\[(\w+)\]\.input(?:\(\))?\[(\w+)\](?:\.base)?\.name(?:\.display\(\))?', lambda m: 'C_%s' % m.group(2)),
                  (r'methods_sign\[(\w+)\]\.input(?:\(\))?\[(\w+)\](?:\.base)?\.corresponding_rust_type(?:\(\))?\.normalized_name(?:.*)', lambda m: 'R_%s' % m.group(2)),
                  (r'methods_sign\[(\w+)\]\.output(?:\.base)?\.name(?:\.display\(\))?', lambda m: 'C_out' if ret else 'void'),
                  (r'methods_sign\[(\w+)\]\.output(?:\.base)?\.corresponding_rust_type(?:\(\))?\.normalized_name', 'R_out' if ret else '()'),
                  (r'.*\.input_to_output', False),
                  (r'methods_sign\[\w+\]\.input\[(\w+)\]\.cpp_converter\?\.typename(?:.*)', lambda m: 'X_%s' % m.group(1)),
                  (r'methods_sign\[\w+\]\.input\[(\w+)\]\.cpp_converter\?\.converter\.has_param\(.*\)', False),
                  (r'methods_sign\[\w+\]\.input\[(\w+)\]\.cpp_converter\?\.converter\.generate_code_with_subst_func\(.*\)\?', lambda m: 'conv( N_%s )' % m.group(1)),
                  (r'methods_sign\[\w+\]\.input\[\w+\]\.cpp_converter', ('variant', 'Some' if conv else 'None'))]
        m = Model(V, rules)
        R = Render(m.decide, m.hole, m.items)
        inst = '%s with %d arguments%s%s%s, class %s' % (kind, nargs, ' read only' if kind == 'Method' and ro else '', ' returning a value' if ret else '', ', converted' if conv else '', '+'.join(derive) or 'plain')
        rust = {}
        for a, ts in texts(ev.store[('s', 'ctx.rust_code')], R):
            for s in ts:
                for x in re.finditer(r'extern\s+"C"\s+fn\s+(\w+)\s*(?:<[^>]*>)?\s*\(([^)]*)\)\s*(?:->\s*([^{]*?))?\s*\{', s):
                    ps = [p.split(':', 1) for p in x.group(2).split(',') if p.strip()]
                    rust.setdefault(x.group(1), []).append(([(p[0].replace('mut ', '').strip(), p[1].strip() if len(p) > 1 else '') for p in ps], (x.group(3) or '').strip(), s))
        chead, cpp = {}, []
        for cc, x in flat(ev.store[('s', '$files')]):
            if any(q[0] != 'for' and m.decide(q[0]) not in (None, q[1]) for q in cc):
                continue
            p = R.text(x.f['0'])
            try:
                alts = R.all(x.f['1'], 8)
            except Undecided as u:
                self.c.violation(FUNC, 'undecided', 'text of %s depends on %s' % (p, u))
                continue
            for a, s in alts:
                if p.endswith('.h'):
                    s1 = re.sub(r'//[^\n]*', '', s)
                    for y in re.finditer(r'^\s*([\w ]+?[\s*]+)(\w+)\s*\(([^)]*)\)\s*;', s1, re.M):
                        if y.group(2) in ('static_assert',):
                            continue
                        chead.setdefault(y.group(2), []).append((y.group(1).strip(), y.group(3)))
                else:
                    cpp.append((p, s))
        c = self.c
        if not rust or not chead:
            c.violation(FUNC, 'text', 'no function found in the text generated for a class (%s)' % inst)
            return

        def isptr(s):
            return s.endswith('*') or s.startswith('*')

        for f in sorted(set(rust) | set(chead)):
            key = '%s %s' % (f, kind)
            if f not in rust or f not in chead:
                c.require(False, FUNC, '%s: %s' % (inst, f), key, '%s: function %s is %s' % (inst, f, 'called by C++ but not defined in Rust' if f in chead else 'defined in Rust but not declared to C++'))
                continue
            own = f == 'Foo_' + mname
            for ps, ro_, s in rust[f]:
                c.require(re.search(r'#\s*\[\s*no_mangle\s*\]', s[:s.index(' fn ')]), EXPORT, '%s: %s' % (inst, f), key, '%s: the Rust function %s is not exported under its name' % (inst, f))
            for ps, ro_, s in rust[f]:
                for cret, cps in chead[f]:
                    cl = re.findall(r'(\bC_(\w+)\s+N_(\w+))|((?:const\s+)?FooOpaque\s*\*\s*(?:const\s+)?(\w+))', cps)
                    cargs = [('arg', y[1], y[2]) if y[0] else ('self',) for y in cl]
                    rargs = []
                    for n_, t_ in ps:
                        k = re.fullmatch(r'R_(\w+)', t_)
                        rargs.append(('arg', k.group(1), n_.replace('N_', '')) if k else ('self',) if t_.startswith('*') else ('?', n_, t_))
                    rest = re.sub(r'\bC_\w+\s+N_\w+|(?:const\s+)?FooOpaque\s*\*\s*(?:const\s+)?\w+|[\s,]|\bvoid\b', '', cps)
                    if rest:
                        cargs.append(('?', rest))
                    want = ([('self',)] if kind == 'Method' and own or f in ('Foo_delete', 'Foo_clone') else []) + ([('arg', a, a) for a in args] if own else [])
                    okret = (isptr(cret) and isptr(ro_)) or (cret.split()[-1:] == ['void'] and ro_ in ('', '()')) or (cret.split()[-1:] == ['C_out'] and ro_ == 'R_out')
                    if f in ('Foo_delete', 'Foo_clone', 'Foo_new') or own:
                        c.require(cargs == rargs == want, FUNC, '%s: parameters of %s' % (inst, f), key + ' parameters',
                                  'cpp/fclass.rs: %s: C prototype "%s %s(%s)", Rust function parameters %s' % (inst, cret, f, cps.strip(), ps))
                        c.require(okret, FUNC, '%s: result of %s' % (inst, f), key + ' result',
                                  'cpp/fclass.rs: %s: C prototype returns "%s", the Rust function %s returns "%s"' % (inst, cret, f, ro_))
        # C++ calls: each argument in its place
        fname = 'Foo_' + mname
        ncall = 0
        for p, s in cpp:
            for y in re.finditer(r'\b%s\s*\(' % fname, s):
                d, j = 0, y.end() - 1
                while True:
                    d += s[j] == '('
                    d -= s[j] == ')'
                    if d == 0:
                        break
                    j += 1
                got = re.findall(r'\b(?:this->self_|self_|N_(\w+))', s[y.end():j])
                ncall += 1
                want = ([''] if kind == 'Method' else []) + args
                wrapped = [bool(z) for z in re.findall(r'(conv\()?\s*N_\w+', s[y.end():j])]
                c.require(got == want and all(w == conv for w in wrapped), FUNC, '%s: call in C++' % inst, fname + ' call %s' % kind,
                          'cpp/fclass.rs: %s: C++ code calls %s, expected the arguments %s%s in this order' % (inst, s[y.start():j + 1], want, ' (each converted)' if conv else ''))
        c.require(ncall, FUNC, '%s: call present' % inst, fname + ' no call', '%s: C++ code of the class does not call %s' % (inst, fname))


def flat_texts(v):
    if isinstance(v, Text):
        yield v
        return
    if isinstance(v, Lst):
        ok = True
        for x in v.p:
            if x[0] == 'i' and isinstance(x[1], Rec):
                ok = False
        if ok:
            try:
                yield to_text(v)
            except Exception:
                pass
        for x in v.p:
            if x[0] == 'i' and isinstance(x[1], Rec):
                for f in x[1].f.values():
                    yield from flat_texts(f)
    elif isinstance(v, Rec):
        for f in v.f.values():
            yield from flat_texts(f)


def run():
    c = Check('P11', 'both halves of every shared declaration are rendered from the templates and type maps of the current source and compared '
                     'member by member, with sizes and signs of C types taken from LLVM constants')
    P11(c)
    return c.finish(['sizes and signs of the Rust primitive types are those of the language reference, of jni.h types those of the JNI specification',
                     'types of single members are related by the conversion rules of the type map, whose two halves P15, P12 and P16 compare'])
