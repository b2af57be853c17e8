"""Rust glue generated for a class of a concrete self type: templates of the generator evaluated with the type (tyeval.py) and
rendered for a sample class; what a call or conversion does is a call of a stand-in."""
import re
from tyeval import *
import clsmodel
from model import Model

# (type a constructor returns, type methods are called on)
THIS = [('VfFoo', 'VfFoo'), ('Box<VfFoo>', 'VfFoo'), ('Rc<VfFoo>', 'VfFoo'), ('Rc<RefCell<VfFoo>>', 'VfFoo'), ('Arc<VfFoo>', 'VfFoo'),
        ('Arc<Mutex<VfFoo>>', 'VfFoo'), ('Arc<RwLock<VfFoo>>', 'VfFoo'), ('Mutex<VfFoo>', 'VfFoo')]

PRELUDE = '''#![allow(warnings)]
use std::rc::Rc; use std::sync::{Arc, Mutex, RwLock}; use std::cell::RefCell;
#[derive(Clone)]
pub struct VfFoo { x: String }
pub struct VfOther { x: String }
#[inline(never)] pub fn vf_conv<A, B>(a: A) -> B { loop {} }
#[inline(never)] pub fn vf_self<A, R>(a: A) -> R { loop {} }
#[inline(never)] pub fn vf_arg<B, R>(b: B) -> R { loop {} }
#[inline(never)] pub fn vf_selfarg<A, B, R>(a: A, b: B) -> R { loop {} }
#[inline(never)] pub fn vf_none<R>() -> R { loop {} }
'''


def ptr_of(this):
    for sp in SMART:
        i = inner(this, sp)
        if i is not None:
            return sp, i
    return None, this


def pre(this, slf):
    d = {}
    for p in ('class', 'mc.class', 'ctx.class', 'class_info'):
        d[p + '.self_desc?.self_type'] = T(slf)
        d[p + '.self_desc?.constructor_ret_type'] = T(this)
        d[p + '.self_desc'] = var('Some', Sym(p + '.self_desc?'))
    d['self_desc.self_type'] = T(slf)
    d['self_desc.constructor_ret_type'] = T(this)
    return d


def o_result(ev, a):
    t = lit(a[0])
    m = re.fullmatch(r'\s*Result\s*<(.*),(.*)>\s*', t or '', re.S)
    if t is None:
        return Sym('if_result_return_ok_err_types(%s)' % keyof(a[0]))
    return var('Some', var('tuple', T(m.group(1).strip()), T(m.group(2).strip()))) if m else NONE


class Cls:
    """templates of one backend for one self type"""

    def __init__(self, src, this, slf, lang, derive=()):
        self.src, self.this, self.slf, self.lang, self.derive = src, this, slf, lang, tuple(derive)
        der = {'.copy_derived': lambda ev, a: 'Copy' in derive, '.clone_derived': lambda ev, a: 'Clone' in derive,
               '.smart_ptr_copy_derived': lambda ev, a: 'SmartPtrCopy' in derive, '.camel_case_aliases_derived': lambda ev, a: False}
        self.der = der
        over = {**der, 'new_with_unique_prefix': lambda ev, a: a[0], '.self_type_as_ty': lambda ev, a: T(slf), 'if_result_return_ok_err_types': o_result,
                '.ty_to_rust_type_checked': lambda ev, a: var('Some', a[1]),
                'generate_jni_func_name': lambda ev, a: var('Ok', T('Java_') + to_text(a[3])),
                'normalize_type': lambda ev, a: a[0] if not isinstance(a[0], Sym) else Sym('normalize_type(%s)' % a[0].key)}
        inl = (lambda f: f.startswith('cpp/') or f == 'typemap/utils.rs') if lang == 'cpp' else \
              (lambda f: f.startswith('java_jni/') or f == 'typemap/utils.rs')
        self.ev = ev = TEval(src, inline_files=inl, overrides=over, pre=pre(this, slf))
        if lang == 'cpp':
            ev.run(src.fn('do_generate', 'cpp/fclass.rs'))
        else:
            ev.run(src.fn('generate_rust_code', 'java_jni/fclass.rs'), f_methods_sign=Sym('methods_sign'))
        self.rules, self.ftypes, self.keys = self.typemap()

    def typemap(self):
        rules, ft = [], []

        def add(ev, a):
            rules.append((lit(a[1]), lit(a[2]), to_text(a[3])))
            return UNIT

        def aft(ev, a):
            ft.append(a[1])
            return var('Ok', UNIT)
        over = {**self.der, '.add_conversion_rule': add, '.alloc_foreign_type': aft, 'new': lambda ev, a: a[0] if a else Text(), 'new2': lambda ev, a: a[0],
                'invalid_src_id_span': lambda ev, a: UNIT, 'new_with_unique_prefix': lambda ev, a: a[0], '.self_type_as_ty': lambda ev, a: T(self.slf)}
        d = 'cpp' if self.lang == 'cpp' else 'java_jni'
        ev = TEval(self.src, inline_files=lambda f: f in (d + '/map_class_self_type.rs', 'typemap/utils.rs', 'cpp/cpp_code.rs'), overrides=over,
                   pre=pre(self.this, self.slf))
        f = self.src.fn('register_typemap_for_self_type', d + '/map_class_self_type.rs')
        ev.run(f, this_type=T(self.this))
        return rules, ft, ev

    def rust(self, methods):
        """{method tag or name: text} for methods [(tag, variant, dict(ro, arg, ret))]; arg/ret: None or a Rust type crossing as *mut c_void"""
        ms = [(t, v, 'n_' + t, dict(ro=x.get('ro', True), self='Rptr' if x.get('ro', True) else 'RptrMut')) for t, v, x in methods]
        V = clsmodel.values(list(self.derive), ms)
        V['class.self_desc'] = ('variant', 'Some')
        X = {t: (v, x) for t, v, x in methods}
        VOID = '*mut ::std::os::raw::c_void' if self.lang == 'cpp' else 'jlong'

        def call(m):
            v, x = X[m.group(1)]
            a = ['this'] if v == 'Method' else []
            a += ['N_a0'] if x.get('arg') else []
            return '%s(%s)' % ({(1, 1): 'vf_selfarg', (1, 0): 'vf_self', (0, 1): 'vf_arg', (0, 0): 'vf_none'}[(int(v == 'Method'), int(bool(x.get('arg'))))], ', '.join(a))
        args = lambda m: ['a0'] if X[m.group(1)][1].get('arg') else []
        ret = lambda t: X[t][1].get('ret') or (self.this if X[t][0] == 'Constructor' else None)
        rt = r'methods_sign\[(\w+)\]\.%s(?:\(\))?%s(?:\.base)?\.corresponding_rust_type(?:\(\))?(?:\.normalized_name(?:.*)|\.typename\(\).*)?'
        rules = [r for r in clsmodel.RULES if 'input' not in r[0]] + [
            (r'class\.methods\[(\w+)\]\.generate_code_to_call_rust_func\(\)', call),
            (r'methods_sign\[(\w+)\]\.input(?:\(\))?', args), (r'class\.methods\[(\w+)\]\.arg_names_without_self\(\)', args),
            (r'class\.methods\[(\w+)\]\.arg_names_without_self\(\)\[(\w+)\]', lambda m: ' N_%s ' % m.group(2)),
            (r'class\.methods\[(\w+)\]\.fn_decl\.inputs', lambda m: (['self'] if X[m.group(1)][0] == 'Method' else []) + args(m)),
            (r'class\.methods\[(\w+)\]\.fn_decl\.output', lambda m: ('variant', 'Type' if ret(m.group(1)) else 'Default')),
            (rt % ('input', r'\[a0\]'), VOID), (rt % ('output', ''), lambda m: VOID if X[m.group(1)][1].get('ret') else '()'),
            (r'.*\.input_to_output', False), (r'methods_sign\[\w+\]\.(?:input\[\w+\]|output)(?:\(\))?\.(?:java_converter|annotation)', ('variant', 'None')),
            (r'ctx\.cfg\.package_name', 'pkg'),
            (r'(?!is\().*class\.methods\[(\w+)\]\.fn_decl\.output.*', lambda m: ret(m.group(1)) or '()'),
            (r'(?!is\().*class\.methods\[(\w+)\]\.fn_decl\.inputs.*', lambda m: X[m.group(1)][1].get('arg') or '()')]
        m = Model(V, rules)
        R = Render(m.decide, m.hole, m.items)
        alts = clsmodel.texts(self.ev.store[('s', 'ctx.rust_code')], R)
        return alts, m

    def rule_fns(self):
        """(text, [(name, from, to, in)]) of the conversion rules; a rule that writes its result before it reads is one that works in place"""
        out, meta = '', []
        for i, (f, t, code) in enumerate(self.rules):
            c = ''.join(p if isinstance(p, str) else 'vf_x' for p in code.p)
            inplace = '{from_var}' not in c
            a, b = ('v', 'v') if inplace else ('vf_from', 'vf_to')
            c = c.replace('{from_var}', a).replace('{to_var}', b).replace('{to_var_type}', '%s: %s' % (b, t))
            n = 'vf_rule%d' % i
            lf = "<'a>" if '&' in t + f else ''
            life = lambda x: re.sub(r'&(?=\s*(?!\'))', "&'a ", x)
            env = ', env: *mut JNIEnv' if self.lang == 'java' else ''
            out += "pub fn %s%s(%s: %s%s) -> %s {\n%s\n%s }\n" % (n, lf, a, life(f), env, life(t), c, b)
            meta.append((n, f.strip(), t.strip()))
        return out, meta


def rec_get(r, name):
    """field of a record; None for the absent value, the content of a present one"""
    v = r.f.get(name)
    if isinstance(v, Rec) and v.name == 'None':
        return None
    if isinstance(v, Rec) and v.name == 'Some':
        return v.f['0']
    return v


def plain(v):
    """text with holes written @key@"""
    if isinstance(v, Text) or isinstance(v, (Sym, str)):
        return ''.join(p if isinstance(p, str) else '@%s@' % p[1] if p[0] == 'h' else '@%s@' % (p[0],) for p in to_text(v).p)
    return '@%s@' % keyof(v)
