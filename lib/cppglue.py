"""The Rust half of the built-in C++ type map as one compilable Rust text: plain items of cpp-include.rs, declarations of
define_c_type, and every conversion rule as a function, with stand-in types for type parameters."""
import re
import rast, tmacro
from rast import toks_text
from cpptm import CppMaps, Inst, CPP_INC, norm_ty

LEX = re.compile(r'//[^\n]*|/\*.*?\*/|r(#*)".*?"\1|"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])\'|[(){}\[\]]|.', re.S)


def plain_items(text, macros=('foreign_typemap',)):
    """text without the calls of the named item macros, and without what only flapigen understands"""
    out = []
    i = 0
    pat = re.compile(r'^(%s)!\s*([({\[])' % '|'.join(macros), re.M)
    while True:
        m = pat.search(text, i)
        if not m:
            out.append(text[i:])
            break
        out.append(text[i:m.start()])
        d = 0
        j = m.end() - 1
        while True:
            t = LEX.match(text, j)
            s = t.group(0)
            j = t.end()
            if s in '([{' and len(s) == 1:
                d += 1
            elif s in ')]}' and len(s) == 1:
                d -= 1
                if d == 0:
                    break
        if text[j:j + 1] == ';':
            j += 1
        out.append('\n' * text.count('\n', m.start(), j))
        i = j
    text = ''.join(out)
    text = re.sub(r'#\[swig_[^\]]*\]', '', text)
    text = re.sub(r'#\[generic_arg[^\]]*\]|#\[swig_to_foreign_hint[^\]]*\]|#\[swig_from_foreign_hint[^\]]*\]', '', text)
    return re.sub(r'^mod swig_foreign_types_map \{\}', '', text, flags=re.M)


PRE = '''#![allow(warnings)]
use std::rc::Rc; use std::sync::{Arc, Mutex, MutexGuard}; use std::cell::{RefCell, Ref, RefMut}; use std::path::Path;
#[inline(never)] pub fn vf_sink<T>(x: T) { loop {} }
pub struct VfFoo { a: String, b: u64 }
#[inline(never)] pub fn vf_box_object(x: VfFoo) -> *mut ::std::os::raw::c_void { loop {} }
#[inline(never)] pub fn vf_unbox_object(x: *mut ::std::os::raw::c_void) -> VfFoo { loop {} }
impl SwigForeignClass for VfFoo {
    fn c_class_name() -> *const ::std::os::raw::c_char { loop {} }
    fn box_object(x: Self) -> *mut ::std::os::raw::c_void { vf_box_object(x) }
    fn unbox_object(p: *mut ::std::os::raw::c_void) -> Self { vf_unbox_object(p) }
}
#[inline(never)] pub fn vf_from_i_Foo_ref<'a>(x: *const ::std::os::raw::c_void) -> &'a VfFoo { loop {} }
#[inline(never)] pub fn vf_from_i_Foo_mut<'a>(x: *mut ::std::os::raw::c_void) -> &'a mut VfFoo { loop {} }
#[repr(C)] #[derive(Clone, Copy)] pub struct VfElem { a: u64, b: u8 }
'''
STUB = '''pub struct VfT%(n)d { a: String }
#[repr(C)] #[derive(Clone, Copy)] pub struct VfI%(n)d { a: u64 }
#[inline(never)] pub fn vf_to_i_VfI%(n)d(x: VfT%(n)d) -> VfI%(n)d { loop {} }
#[inline(never)] pub fn vf_from_i_VfI%(n)d(x: VfI%(n)d) -> VfT%(n)d { loop {} }
'''

CLASS = Inst('VfFoo', '*mut ::std::os::raw::c_void', 'VfFooOpaque *', 'Foo', 'FooRef', 'FooRef', ident='Foo')
ELEM = Inst('VfElem', 'VfElem', 'VfElem', 'VfElem', ident='VfElem')


def bounds(generics):
    """[(parameter, bound or None)] of the tokens of a generics list"""
    out = []
    for part in tmacro.split(generics or [], ','):
        if part:
            out.append((part[0][1], toks_text(part[2:]) if len(part) > 2 else None))
    return out


def insts(rule_or_block):
    r = {}
    n = 0
    for p, b in bounds(rule_or_block):
        if b and 'SwigForeignClass' in b:
            r[p] = CLASS
        elif b and 'SwigTypeIsReprC' in b:
            r[p] = ELEM
        else:
            n += 1
            r[p] = Inst('VfT%d' % n, 'VfI%d' % n, 'VfI%d' % n, 'vf::T%d' % n, ident='VfI%d' % n)
    return r


class RuleFn:
    def __init__(self, name, rule, block, inst, frm, to):
        self.name, self.rule, self.block, self.inst, self.frm, self.to = name, rule, block, inst, frm, to


class CppGlue:
    def __init__(self, src):
        self.src = src
        self.maps = CppMaps(src)
        self.rules = []
        self.ctypes = []    # (block, module, items)
        self.problems = []
        text = open(src.root + '/' + CPP_INC).read()
        out = [PRE] + [STUB % dict(n=i) for i in (1, 2, 3)] + [plain_items(text)]
        seen = set(re.findall(r'^\s*(?:pub )?(?:struct|union|enum) (\w+)', out[-1], re.M))
        for b in self.maps.blocks:
            gen = next((r.generics for r in b.rules if r.generics), [])
            inst = insts(gen)
            for mod, items, txt in self.maps.items(b, inst):
                self.ctypes.append((b, mod, items, inst))
                # a type that the file also declares itself is declared once
                d = rast.dump_text(txt)
                keep = [it for it in d['items'] if not (it.get('name') in seen)]
                if len(keep) != len(d['items']):
                    txt = drop_types(txt, seen)
                out.append(txt)
                seen |= {it.get('name') for it in keep}
            for r in b.rules:
                if r.kind != 'r_type' or r.dir is None:
                    continue
                self.rule_fn(b, r, inst, out)
        self.text = '\n'.join(out)

    def rule_fn(self, b, r, inst, out):
        sub = {k: v.rust for k, v in inst.items()}
        left = self.ty(self.maps.rust(b, r.left, inst), sub)
        right = self.ty(self.maps.rust(b, r.right, inst), sub)
        frm, to = (left, right) if r.dir == '=>' else (right, left)
        name = 'vf_rule_%d' % r.line
        code = self.maps.rust(b, r.code, inst, r.var, out='vf_out', pre='p')
        out.append('pub fn %s<\'a>(mut p: %s) {\n let mut vf_out: %s;\n %s\n vf_sink(vf_out);\n}' % (name, life(frm), to, code))
        self.rules.append(RuleFn(name, r, b, inst, frm, to))

    def ty(self, t, sub):
        return re.sub(r'\b(%s)\b' % '|'.join(map(re.escape, sub)), lambda m: sub[m.group(1)], t) if sub else t


def life(t):
    t = re.sub(r'&\s*', "&'a ", t)
    return re.sub(r'\b(MutexGuard|Ref|RefMut)\s*<', r"\1<'a, ", t)


def drop_types(txt, seen):
    for n in seen:
        txt = re.sub(r'(?:# ?\[[^\]]*\]\s*)*(?:pub )?(?:struct|union) %s \{[^}]*\}' % n, '', txt)
    return txt
