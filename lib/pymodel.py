"""Python glue: the generator functions of python/mod.rs evaluated (tyeval.py) for concrete declarations. Types are texts."""
import re
from tmpl import *
from tyeval import TEval, inner, lit

nows = lambda s: re.sub(r'\s+', '', s)


def toks(s):
    """type text with one space between tokens, as the generator normalises it"""
    return re.sub(r'\s+', ' ', ' '.join(re.findall(r"'?\w+|::|->|[^\s\w]", s))).strip()


def args_of(s):
    """comma separated parts at nesting level 0"""
    out, lvl, cur = [], 0, ''
    for ch in s:
        if ch in '<([':
            lvl += 1
        elif ch in '>)]':
            lvl -= 1
        if ch == ',' and lvl == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def generic(s, name):
    """arguments of `name<...>`"""
    m = re.fullmatch(r'(?:\w+\s*::\s*)*%s\s*<(.*)>' % name, s.strip(), re.S)
    if not m:
        return None
    lvl = 0
    for ch in m.group(1):
        lvl += {'<': 1, '>': -1}.get(ch, 0)
        if lvl < 0:
            return None
    return args_of(m.group(1))


class PyEval(TEval):
    def __init__(self, src, classes, enums=()):
        self.classes, self.enums = {c.f['$name']: c for c in classes}, set(enums)
        o = {'parse_str': self.o_parse, 'if_option_return_some_type': lambda ev, a: ev.opt(generic(lit(a[0]), 'Option')),
             'if_result_return_ok_err_types': self.o_result, '.is_conv_possible': self.o_conv,
             '.find_foreigner_class_with_such_this_type': self.o_find, '.contains_path': self.o_impl, '.to_snake_case': self.o_snake,
             '.as_named_arg': lambda ev, a: var('Ok', a[0]), '.into_token_stream': lambda ev, a: a[0], '.copy_derived': self.derived('Copy'),
             '.clone_derived': self.derived('Clone'), '.smart_ptr_copy_derived': self.derived('SmartPtrCopy'),
             '.is_dummy_constructor': lambda ev, a: a[0].f['$dummy'], '.span': lambda ev, a: Sym('span'), '.find_or_alloc_rust_type_that_implements': self.o_arg1,
             '.short_name': lambda ev, a: a[0].f['$name'] if isinstance(a[0], Rec) else Sym('short_name')}
        TEval.__init__(self, src, inline_files=lambda f: f == 'python/mod.rs', overrides=o)

    @staticmethod
    def opt(r, i=0):
        return var('Some', T(r[i])) if r else NONE

    @staticmethod
    def o_parse(ev, a):
        t = to_text(a[0])
        if (lit(t) or '').lstrip().startswith('///'):
            return var('Ok', Text())
        return var('Ok', t)

    @staticmethod
    def o_result(ev, a):
        r = generic(lit(a[0]), 'Result')
        return var('Some', var('tuple', T(r[0]), T(r[1]))) if r and len(r) == 2 else NONE

    @staticmethod
    def o_conv(ev, a):
        c, t = a[0], lit(a[1])
        m = re.fullmatch(r'(\w+)\s*<\s*T\s*>', lit(c.f['from']).strip())
        r = m and generic(t, m.group(1))
        if not r or len(r) != 1:
            return NONE
        return var('Some', Rec('Conv', {'to_ty': T(re.sub(r'\bT\b', lambda m: r[0], lit(c.f['to'])))}))

    @staticmethod
    def o_find(ev, a):
        want = nows(lit(a[1]))
        for c in ev.classes.values():
            t = ev.apply(a[2], [Sym('conv_map'), c])
            if isinstance(t, Rec) and t.name == 'Some' and nows(lit(t.f['0'])) == want:
                return var('Some', c)
        return NONE

    @staticmethod
    def o_impl(ev, a):
        return isinstance(a[0], Rec) and lit(a[1]) == 'SwigForeignEnum' and a[0].f['of'] in ev.enums

    @staticmethod
    def o_snake(ev, a):
        s = lit(a[0])
        return T(re.sub(r'(?<=[a-z0-9])(?=[A-Z])', '_', s).lower())

    @staticmethod
    def derived(n):
        return lambda ev, a: n in a[0].f['$derive']

    def field(self, v, f):
        if isinstance(v, Text):
            if f == 'implements':
                return Rec('Traits', {'of': lit(v).strip()})
            if f == 'segments':
                return Lst([('i', Rec('Seg', {'ident': T(x)})) for x in (lit(v) or '').split('::')])
            if f == 'normalized_name':
                return T(toks(lit(v)))
        return TEval.field(self, v, f)

    def kind(self, v):
        s = (lit(v) or '').strip()
        if s.startswith('&'):
            return 'Reference'
        if s.startswith('['):
            return 'Slice'
        if s.startswith('('):
            return 'Tuple'
        return 'Path'

    def variant(self, v, n, x):
        if isinstance(v, Text) and n in ('Reference', 'Slice', 'Tuple', 'Path', 'Ptr', 'Array', 'Paren', 'Group', 'Never', 'BareFn', 'TraitObject', 'ImplTrait'):
            return self.kind(v) == n
        return TEval.variant(self, v, n, x)

    def payload(self, v, name, f):
        if isinstance(v, Text) and name in ('Reference', 'Slice', 'Tuple', 'Path'):
            s = lit(v).strip()
            if name == 'Reference':
                m = re.fullmatch(r"&\s*('\w+\s*)?(mut\b)?\s*(.*)", s, re.S)
                return Rec('TypeReference', {'mutability': var('Some', T('mut')) if m.group(2) else NONE, 'elem': T(m.group(3)), '$t': v})
            if name == 'Slice':
                return Rec('TypeSlice', {'elem': T(s[1:-1].strip())})
            if name == 'Tuple':
                return Rec('TypeTuple', {'elems': Lst([('i', T(x)) for x in args_of(s[1:-1])])})
            return Rec('TypePath', {'path': v})
        return TEval.payload(self, v, name, f)

    def equal(self, a, b):
        if isinstance(a, Text) and isinstance(b, Text) and lit(a) is not None and lit(b) is not None:
            return nows(lit(a)) == nows(lit(b))
        return TEval.equal(self, a, b)

    def itermethod(self, v, m, A, e, env):
        if m == 'collect' and isinstance(v, Lst) and v.p and all(x[0] == 'i' and isinstance(x[1], Rec) and x[1].name in ('Ok', 'Err') for x in v.p):
            if any(x[1].name == 'Err' for x in v.p):
                return var('Err', Sym('first error'))
            v = Lst([('i', x[1].f['0']) for x in v.p])
            return var('Ok', v)
        return TEval.itermethod(self, v, m, A, e, env)

    def method(self, v, m, e, env, pl):
        if m == 'insert' and pl is not None and isinstance(v, Lst) and v.concrete() and len(e['args']) == 2:
            n, x = [self.ev(a, env) for a in e['args']]
            if isinstance(n, int):
                self.set(pl, Lst(v.p[:n] + (('i', x),) + v.p[n:]))
                return UNIT
        return TEval.method(self, v, m, e, env, pl)

    def call_fn(self, fn, args, selfv=None):
        # functions that follow the structure of a type call themselves: the argument shrinks, so that ends
        st = self.fnstack
        if len(st) < 40:
            self.fnstack = [x for x in st if x is not fn]
        try:
            return TEval.call_fn(self, fn, args, selfv)
        finally:
            self.fnstack = st

    def e_Call(self, e, env):
        if e['f']['k'] == 'Path' and e['f']['p'].endswith('GenericTypeConv::new'):
            a = [self.deref(self.rv(x, env)) for x in e['args']]
            return Rec('Conv', {'from': a[0], 'to': a[1]})
        if e['f']['k'] == 'Path' and re.search(r'\bIndex\s*::\s*from$', e['f']['p']) and len(e['args']) == 1:
            n = self.deref(self.rv(e['args'][0], env))
            if isinstance(n, int):
                return T(str(n))
        return TEval.e_Call(self, e, env)

    def e_Struct(self, e, env):
        v = TEval.e_Struct(self, e, env)
        if isinstance(v, Rec) and v.name == 'Index' and 'index' in v.f:
            return T(str(v.f['index']))
        return v


def arg(name, ty):
    return Rec('NamedArg', {'name': T(name), 'ty': T(ty), 'span': Sym('span')})


def method(name, kind, args, ret=None, slf=None, dummy=False, alias=None):
    """kind Constructor | StaticMethod | Method (slf: Rptr, RptrMut, Default, Mut)"""
    ins = ([Rec('SelfArg', {})] if kind == 'Method' else []) + [arg(n, t) for n, t in args]
    return Rec('ForeignMethod', {'$name': T(name.split('::')[-1]), '$dummy': dummy, 'variant': var('Method', var(slf)) if kind == 'Method' else var(kind),
                                 'rust_id': T(name),
                                 'fn_decl': Rec('FnDecl', {'inputs': Lst([('i', x) for x in ins]), 'output': var('Type', Sym('arrow'), T(ret)) if ret else var('Default')}),
                                 'name_alias': var('Some', T(alias)) if alias else NONE, 'access': var('Public'), 'doc_comments': Lst([]), 'inline_block': NONE, 'unknown_attrs': Lst([])})


def cls(name, slf, ctor, derive=(), methods=()):
    return Rec('ForeignClassInfo', {'$name': name, '$derive': tuple(derive), 'name': T(name), 'src_id': Sym('src_id'), 'derive_list': Lst([('i', T(d)) for d in derive]),
                                    'self_desc': var('Some', Rec('SelfTypeDesc', {'self_type': T(slf), 'constructor_ret_type': T(ctor)})) if slf else NONE,
                                    'methods': Lst([('i', m) for m in methods]), 'doc_comments': Lst([]), 'foreign_code': T('')})


import itertools

STUBS = r'''
#![allow(warnings)]
pub mod vfsync {
    pub struct Arc<T>(*const T);
    pub struct Mutex<T>(T);
    pub struct MutexGuard<'a, T>(&'a Mutex<T>);
    pub struct PoisonError<T>(T);
    pub type LockResult<T> = Result<T, PoisonError<T>>;
    impl<T> core::fmt::Debug for PoisonError<T> { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { loop {} } }
    impl<T> Mutex<T> {
        pub fn new(t: T) -> Mutex<T> { loop {} }
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> { loop {} }
        pub fn into_inner(self) -> LockResult<T> { loop {} }
        pub fn get_mut(&mut self) -> LockResult<&mut T> { loop {} }
    }
    impl<T> Arc<T> {
        pub fn new(t: T) -> Arc<T> { loop {} }
        pub fn get_mut(this: &mut Arc<T>) -> Option<&mut T> { loop {} }
        pub fn try_unwrap(this: Arc<T>) -> Result<T, Arc<T>> { loop {} }
        pub fn as_ptr(this: &Arc<T>) -> *const T { loop {} }
    }
    impl<T> AsRef<T> for Arc<T> { fn as_ref(&self) -> &T { loop {} } }
    impl<T> core::borrow::Borrow<T> for Arc<T> { fn borrow(&self) -> &T { loop {} } }
    impl<T> Clone for Arc<T> { fn clone(&self) -> Arc<T> { loop {} } }
    impl<T> core::ops::Deref for Arc<T> { type Target = T; fn deref(&self) -> &T { loop {} } }
    impl<'a, T> core::ops::Deref for MutexGuard<'a, T> { type Target = T; fn deref(&self) -> &T { loop {} } }
    impl<'a, T> core::ops::DerefMut for MutexGuard<'a, T> { fn deref_mut(&mut self) -> &mut T { loop {} } }
}
pub use vfsync::{Arc, Mutex, MutexGuard};
pub mod cpython {
    #[derive(Clone, Copy)]
    pub struct Python<'p>(core::marker::PhantomData<&'p ()>);
    pub struct PyObject(usize);
    pub struct PyType(usize);
    pub struct PyErr(usize);
    pub type PyResult<T> = Result<T, PyErr>;
    pub mod exc { pub struct ValueError; pub struct TypeError; pub struct RuntimeError; }
    impl PyErr { pub fn new<E, A>(py: Python<'_>, a: A) -> PyErr { loop {} } }
    impl<'p> Python<'p> { #[allow(non_snake_case)] pub fn None(self) -> PyObject { loop {} } }
}
pub mod py_error { pub struct Error; }
pub struct VfErr(usize);
impl core::fmt::Debug for VfErr { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { loop {} } }
impl core::fmt::Display for VfErr { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { loop {} } }
impl std::error::Error for VfErr {}
pub fn swig_collect_error_message(error: &dyn std::error::Error) -> String { loop {} }
#[derive(Clone, Copy)]
pub enum En { A, B }
pub mod py_en {
    use super::*;
    pub fn from_u32(py: cpython::Python, value: u32) -> cpython::PyResult<super::En> { loop {} }
}
'''


class Sample:
    """one exported class, its methods' glue as text (None: refused by the generator), and the crate made of them"""

    def __init__(self, src, ctor, derive, methods, other=True):
        self.ctor, self.derive, self.methods = ctor, derive, methods
        self.cls = cls('Foo', 'Foo', ctor, derive, [m for m, decl in methods])
        self.ev = PyEval(src, [self.cls], ['En'])
        R = Render(lambda c: None, lambda h: '/*?%s?*/' % h, lambda b: [])
        self.text, self.refused, self.open = [], set(), []
        r = self.ev.run(src.fn('generate_rust_instance_field_and_methods', 'python/mod.rs'), **{'class': self.cls, 'conv_map': Sym('conv_map')})
        self.params = {}
        self.rejected = r is BOT or isinstance(r, Rec) and r.name == 'Err'
        if self.rejected:
            return
        p = r.f['0']
        self.field, self.getters = R.text(to_text(p.f['0'])), R.text(to_text(p.f['1']))
        for m, decl in methods:
            r = self.ev.run(src.fn('generate_method_code', 'python/mod.rs'), **{'class': self.cls, 'method': m, 'conv_map': Sym('conv_map')})
            n = lit(m.f['rust_id']).split('::')[-1]
            if r is BOT or isinstance(r, Rec) and r.name == 'Err':
                self.refused.add(n)
                continue
            t = R.text(to_text(r.f['0'] if isinstance(r, Rec) and r.name == 'Ok' else r))
            if '/*?' in t:
                self.open.append((n, t))
            self.text.append((n, t))

    def crate(self):
        """(text, {method: name of its Rust function})"""
        sy = lambda t: re.sub(r'(?:::\s*)?\bstd\s*::\s*sync\s*::', ' crate :: vfsync :: ', t)
        m = re.search(r'data\s+rust_instance\s*:\s*(.*?)\s*;\s*$', self.field, re.S)
        if not m:
            return None
        st = sy(m.group(1))
        out = [STUBS]
        if self.derive:
            out.append('#[derive(Clone%s)]' % (', Copy' if 'Copy' in self.derive else ''))
        out.append('pub struct Foo(u64);')
        out.append('impl Foo {')
        for mm, decl in self.methods:
            n = lit(mm.f['rust_id']).split('::')[-1]
            if n in self.refused:
                continue
            out.append('    pub fn %s%s { loop {} }' % (n, decl))
        out.append('}')
        fns = []
        for n, t in self.text:
            m = re.fullmatch(r'\s*(?:# \[.*?\]\s*)?(@\s*staticmethod)?\s*def\s+(\w+)\s*\((.*?)\)\s*->\s*(cpython.*)', sy(t), re.S)
            if not m:
                return None
            # up to the closing parenthesis of the argument list
            s = sy(t)
            i = s.index('(', s.index('def'))
            lvl, j = 0, i
            while True:
                lvl += {'(': 1, ')': -1}.get(s[j], 0)
                if lvl == 0:
                    break
                j += 1
            ps = [x for x in args_of(s[i + 1:j])]
            self.params[n] = ps
            ps = ["'_cls: &cpython::PyType".lstrip("'") if x == '_cls' else x for x in ps]
            ps = ps[:1] + ["py: cpython::Python<'_>"] + ps[1:] if ps[:1] and ps[0].replace(' ', '') == '&self' else ["py: cpython::Python<'_>"] + ps
            fns.append('        pub fn vf_%s(%s) %s' % (n, ', '.join(ps), s[j + 1:]))
        out.append('pub mod py_foo {\n    use super::*;\n    pub struct Foo(usize);\n    impl Foo {')
        out.append("        fn rust_instance<'a>(&'a self, py: cpython::Python<'a>) -> &'a %s { loop {} }" % st)
        out.append('        fn create_instance(py: cpython::Python, instance: %s) -> cpython::PyResult<Foo> { loop {} }' % st)
        out += fns
        out.append('    }\n' + sy(self.getters) + '\n}')
        return '\n'.join(out)


WRAP = {'none': '%s', 'Mutex': 'Mutex<%s>', 'ArcMutex': 'Arc<Mutex<%s>>', 'Arc': 'Arc<%s>', 'Box': 'Box<%s>'}
REF = {'value': '%s', 'ref': '&%s', 'mut': '&mut %s'}


def class_methods():
    ms = []
    for p, r in itertools.product(WRAP, REF):
        t = REF[r] % (WRAP[p] % 'Foo')
        ms.append((method('Foo::a_%s_%s' % (p, r), 'StaticMethod', [('x', t)]), '(x: %s)' % t, ('arg', p, r)))
        ms.append((method('Foo::r_%s_%s' % (p, r), 'StaticMethod', [], t), "() -> %s" % t.replace('&', "&'static "), ('ret', p, r)))
    for k, s in (('Rptr', '&self'), ('RptrMut', '&mut self'), ('Default', 'self'), ('Mut', 'mut self')):
        ms.append((method('Foo::s_%s' % k, 'Method', [('x', 'i32')], 'i32', k), '(%s, x: i32) -> i32' % s, ('self', k)))
    return ms
