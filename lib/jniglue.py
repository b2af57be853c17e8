"""The Rust half of the built-in Java type map as one compilable Rust text: plain items of jni-include.rs and every conversion
rule as a function, with stand-in types for type parameters; JNI declarations come from the jni-sys crate of the cargo cache."""
import json, os, re, subprocess
import rast, tmacro, cppglue
from core import CACHE, REPO
from cpptm import CppMaps, Inst
from cppglue import plain_items, bounds, life

JNI_INC = 'java_jni/jni-include.rs'
_flags = None


def flags():
    """compiler arguments that make the crate jni_sys available"""
    global _flags
    if _flags is None:
        d = os.path.join(CACHE, 'jnisys')
        env = dict(os.environ)
        env.pop('RUSTFLAGS', None)
        env['CARGO_TARGET_DIR'] = d
        out = ''
        for args in (['--locked', '-p', 'jni-sys@0.3.1'], ['-p', 'jni-sys@0.3.1'], ['-p', 'jni-sys']):
            p = subprocess.run(['cargo', '+nightly', 'build', '--offline', '--message-format=json', '-p', 'log'] + args, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            if p.returncode == 0:
                break
        else:
            raise Exception('jni-sys does not build: ' + p.stderr[-800:])
        lib, dirs = {}, []
        for l in p.stdout.split('\n'):
            if l.startswith('{'):
                j = json.loads(l)
                if j.get('reason') == 'compiler-artifact':
                    dirs += [os.path.dirname(f) for f in j['filenames'] if os.path.dirname(f) not in dirs]
                    r = [f for f in j['filenames'] if f.endswith('.rlib')]
                    if r and (j['target']['name'] == 'log' or j['target']['name'] == 'jni_sys' and ('0.3.' in j['package_id'] or 'jni_sys' not in lib)):
                        lib[j['target']['name']] = j['filenames']
        _flags = [x for p in dirs for x in ('-L', 'dependency=' + p)] + [x for n in sorted(lib) for f in lib[n] if f.endswith(('.rlib', '.rmeta')) for x in ('--extern', n + '=' + f)]
    return _flags


PRE = '''#![allow(warnings)]
use std::rc::Rc; use std::sync::{Arc, Mutex, MutexGuard, RwLock}; use std::cell::{RefCell, Ref, RefMut}; use std::path::Path; use std::time::SystemTime;
use jni_sys::*;
#[inline(never)] pub fn vf_sink<T>(x: T) { loop {} }
#[inline(never)] pub fn vf_leave<T>(x: T) { loop {} }
'''
STAND = '''#[derive(Clone)] pub struct VfFoo { a: String, b: u64 }
#[inline(never)] pub fn vf_box_object(x: VfFoo) -> jlong { loop {} }
#[inline(never)] pub fn vf_unbox_object(x: jlong) -> VfFoo { loop {} }
#[inline(never)] pub fn vf_to_pointer(x: jlong) -> ::std::ptr::NonNull<VfFoo> { loop {} }
#[inline(never)] pub fn vf_jni_class() -> jclass { loop {} }
#[inline(never)] pub fn vf_jni_field() -> jfieldID { loop {} }
impl SwigForeignClass for VfFoo {
    type PointedType = VfFoo;
    fn jni_class() -> jclass { vf_jni_class() }
    fn jni_class_pointer_field() -> jfieldID { vf_jni_field() }
    fn box_object(x: Self) -> jlong { vf_box_object(x) }
    fn unbox_object(p: jlong) -> Self { vf_unbox_object(p) }
    fn to_pointer(x: jlong) -> ::std::ptr::NonNull<VfFoo> { vf_to_pointer(x) }
}
#[derive(Clone, Copy)] pub enum VfEnum { A, B }
#[inline(never)] pub fn vf_as_jint(x: &VfEnum) -> jint { loop {} }
#[inline(never)] pub fn vf_from_jint(x: jint) -> VfEnum { loop {} }
impl SwigForeignCLikeEnum for VfEnum {
    fn as_jint(&self) -> jint { vf_as_jint(self) }
    fn from_jint(x: jint) -> Self { vf_from_jint(x) }
}
'''
STUB = '''pub struct VfT%(n)d { a: String }
pub struct VfI%(n)d { a: u64 }
impl JniInvalidValue for VfI%(n)d { fn jni_invalid_value() -> Self { vf_invalid%(n)d() } }
#[inline(never)] pub fn vf_invalid%(n)d() -> VfI%(n)d { loop {} }
#[inline(never)] pub fn vf_to_i_VfI%(n)d(x: VfT%(n)d) -> VfI%(n)d { loop {} }
#[inline(never)] pub fn vf_from_i_VfI%(n)d(x: VfI%(n)d) -> VfT%(n)d { loop {} }
'''
CLASS = Inst('VfFoo', 'jlong', 'long', 'VfFoo', ident='Foo')
ENUM = Inst('VfEnum', 'jint', 'int', 'VfEnum', ident='Enum')


def insts(gen):
    r, n = {}, 0
    for p, b in bounds(gen):
        if b and 'SwigForeignClass' in b:
            r[p] = CLASS
        elif b and 'SwigForeignCLikeEnum' in b:
            r[p] = ENUM
        else:
            n += 1
            r[p] = Inst('VfT%d' % n, 'VfI%d' % n, 'long', 'VfT%d' % n, ident='VfI%d' % n)
    return r


def globals_of(text):
    """declarations of the identifiers that the macros swig_jni_* cache"""
    out = {}
    for kind, ty in (('find_class', 'jclass'), ('get_method_id', 'jmethodID'), ('get_static_method_id', 'jmethodID'), ('get_field_id', 'jfieldID'), ('get_static_field_id', 'jfieldID')):
        for m in re.finditer(r'swig_jni_%s\s*!\s*\(\s*(\w+)\s*,' % kind, text):
            out[m.group(1)] = ty
    return ''.join('pub static mut %s: %s = 0 as *mut _;\n' % (n, t) for n, t in sorted(out.items()))


class JniGlue:
    def __init__(self, src):
        self.src = src
        self.maps = CppMaps(src, JNI_INC)
        self.rules = []
        text = open(os.path.join(src.root, JNI_INC)).read()
        self.plain = plain_items(text)
        self.plain = re.sub(r'^mod swig_foreign_types_map\s*\{.*?^\}', '', self.plain, flags=re.M | re.S)
        self.plain = re.sub(r'#\[swig_code = .*?\]\n', '', self.plain)
        out = [PRE, STAND] + [STUB % dict(n=i) for i in (1, 2, 3)] + [self.plain, globals_of(text)]
        self.base = '\n'.join([PRE] + out[5:])
        for b in self.maps.blocks:
            gen = next((r.generics for r in b.rules if r.generics), [])
            inst = insts(gen)
            for r in b.rules:
                if r.kind == 'r_type' and r.dir is not None:
                    self.rule_fn(b, r, inst, out)
        self.text = '\n'.join(out)

    def ty(self, t, sub):
        for k, v in sub.items():
            t = re.sub(r'\b%s\b' % k, v, t)
        return t

    def rule_fn(self, b, r, inst, out):
        sub = {k: v.rust for k, v in inst.items()}
        left = self.ty(self.maps.rust(b, r.left, inst), sub)
        right = self.ty(self.maps.rust(b, r.right, inst), sub)
        frm, to = (left, right) if r.dir == '=>' else (right, left)
        name = 'vf_rule_%d' % r.line
        code = self.maps.rust(b, r.code, inst, r.var, out='vf_out', pre='p')
        # a rule that raises an exception leaves the generated function: the value it then returns goes to another stand-in
        code = re.sub(r'\breturn\s+([^;]*);', r'return vf_leave(\1);', code)
        out.append('pub fn %s<\'a>(mut p: %s, env: *mut JNIEnv) {\n let mut vf_out: %s;\n %s\n vf_sink(vf_out);\n}' % (name, life(frm), to, code))
        self.rules.append(cppglue.RuleFn(name, r, b, inst, frm, to))
