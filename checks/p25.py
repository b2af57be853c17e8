"""P25: the number of an enum variant is the same on both sides, and other numbers are refused."""
import re
from core import Check
import rast, rown, llvmir, cppglue, jniglue, javabc, enummodel, jnibase
import cppbase

RUST = 'Rust: variant to number and number to variant are inverse'
REFUSE = 'a number that stands for no variant is refused'
SAME = 'the foreign constant of a variant is the number of the same variant in Rust'
CONV = 'conversions pass the number on unchanged'
FIELD = 'an enum object for Java is the constant of the same variant'
SENT = 'the number that means absent is not the number of a variant'

VARIANTS = ['Va', 'Vb', 'Vc', 'Vd', 'Ve']
# (foreign name, Rust variant): neither alphabetical nor in the order of the Rust declaration
SAMPLES = [[('Only', 'Va')], [('ItemB', 'Vb'), ('ItemA', 'Va'), ('Third', 'Vc')], [('E5', 'Vc'), ('E1', 'Ve'), ('E3', 'Va'), ('E2', 'Vd'), ('E4', 'Vb')],
           # more variants than fit into a byte
           [('L%d' % (i * 7 % 260), 'W%03d' % (i * 11 % 260)) for i in range(260)]]

CPY = '''
pub mod cpython {
 #[derive(Clone, Copy)] pub struct Python; pub struct PyErr; pub type PyResult<T> = Result<T, PyErr>; pub struct PyModule;
 pub mod exc { pub struct ValueError; pub struct TypeError; pub struct IndexError; pub struct OverflowError; pub struct Exception; pub struct RuntimeError; }
 impl PyErr { #[inline(never)] pub fn new<E, V>(py: Python, v: V) -> PyErr { vf_pyerr() } }
 #[inline(never)] pub fn vf_pyerr() -> PyErr { loop {} }
 #[macro_export] macro_rules! py_class { (pub class $n:ident |$py:ident| { $(static $v:ident = $e:expr;)* }) => { pub struct $n; impl $n { $(pub fn $v() -> VfStatic![$v] { $e })* } } }
 pub use py_class;
}
'''


class P25:
    def __init__(self, c):
        self.c, self.src = c, rast.Source()
        for lang in ('cpp', 'java', 'python'):
            for k, s in enumerate(SAMPLES):
                items = [(f, 'VfEnum::' + r) for f, r in s]
                try:
                    e = enummodel.EnumText(self.src, lang, items)
                except Exception as x:
                    c.violation('analysis', '%s%d' % (lang, k), 'the generator of %s enums cannot be evaluated: %s' % (lang, str(x)[:300]))
                    continue
                try:
                    getattr(self, lang)(e, items, k)
                except (rown.Unsupported, javabc.Unsupported, llvmir.Unknown, llvmir.CompileError) as x:
                    c.violation('analysis', '%s%d' % (lang, k), 'the code generated for an enum (%s) cannot be analysed: %s' % (lang, str(x)[:300]))
        self.rules()
        c.analysed('sample enums', len(SAMPLES) * 3)
        for r, n in ((RUST, 20), (REFUSE, 12), (SAME, 25), (CONV, 12), (FIELD, 6), (SENT, 4)):
            c.floor(r, n)

    DECL = 'pub enum VfEnum { %s }\n'

    def decl(self, items):
        return self.DECL % ', '.join(sorted({r.split('::')[1] for f, r in items}))

    # ------------------------------------------------------------ Rust halves
    def trait(self, lang, k, base, e, items, extra=()):
        """{rust variant: number}; checks the inverse"""
        c = self.c
        g, msg = rown.compile_mir(base + '\n' + self.decl(items) + '\n'.join(e.rust), name='en', extra=extra)
        if g is None:
            c.violation('analysis', '%s%d/compile' % (lang, k), 'the Rust text generated for an enum (%s) does not compile: %s' % (lang, msg[-600:]))
            return None, None
        it = rown.Interp(g, inline=lambda h: not rown.last_seg(h.name).startswith('vf_'))
        self.to = self.frm = None
        for n, f in g.fns.items():
            imp = g.impl_of(f) if hasattr(g, 'impl_of') else None
            t = [rown.strip_generics(f.types.get(p, '')) for p in f.params]
            if len(t) == 1 and re.fullmatch(r"&(?:'\w+ )?(?:\w+::)*VfEnum|(?:\w+::)*VfEnum", t[0]) and re.fullmatch(r'[iu](8|16|32|64|size)', f.types.get(0, '')):
                self.to = f
            if len(t) == 1 and re.fullmatch(r'[iu](8|16|32|64|size)', t[0]) and re.fullmatch(r'(?:\w+::)*VfEnum', f.types.get(0, '')):
                self.frm = f
        to, frm = self.to, self.frm
        if to is None or frm is None:
            c.violation('analysis', '%s%d/functions' % (lang, k), 'the functions that convert an enum (%s) to a number and back were not found' % lang)
            return None, None
        num = {}
        for fn, r in items:
            v = r.split('::')[1]
            s = rown.St()
            arg = ('agg', 'VfEnum', v, ())
            if to.types[to.params[0]].startswith('&'):
                s.env[('vfarg', 1)] = arg
                arg = ('ref', ('vfarg', 1), ())
            ps = it.run(to, [arg], s)
            rs = {p.ret for p in ps}
            ok = len(rs) == 1 and all(x[0] == 'c' for x in rs)
            c.require(ok, RUST, '%s enum %d: number of variant %s' % (lang, k, v), '%s/%s/%s' % (lang, k, v), '%s: the variant %s does not have one number: %s' % (lang, r, [rown.show(x) for x in rs]))
            if ok:
                num[v] = int(next(iter(rs))[1])
        c.require(len(set(num.values())) == len(num), RUST, '%s enum %d: distinct numbers' % (lang, k), '%s/%s/distinct' % (lang, k), '%s: two variants have the same number: %s' % (lang, num))
        self.back(lang, k, it.run(frm, [('p', 'x')], rown.St()), lambda p: p.ret, num)
        return g, num

    def back(self, lang, k, paths, ret, num):
        """paths of a conversion from the number x"""
        c = self.c
        seen = {}
        for p in paths:
            r = ret(p)
            v = self.variant(r)
            x = self.xval(p.facts)
            if v is None:
                if r == 'error':
                    continue
                c.violation(REFUSE, '%s/%d/value' % (lang, k), '%s: a conversion from a number gives %s' % (lang, rown.show(r)))
                continue
            if x is None:
                c.violation(REFUSE, '%s/%d/%s' % (lang, k, v), '%s: the variant %s is produced for numbers that were not compared with its number' % (lang, v))
                continue
            seen[x] = v
        for v, n in num.items():
            c.require(seen.get(n) == v, RUST, '%s enum %d: variant of number %d' % (lang, k, n), '%s/%s/back/%s' % (lang, k, v),
                      '%s: the variant %s has the number %d, but that number gives %s' % (lang, v, n, seen.get(n)))
        for n in seen:
            c.require(n in num.values(), REFUSE, '%s enum %d: only numbers of variants (%d)' % (lang, k, n), '%s/%s/extra/%d' % (lang, k, n), '%s: the number %d gives the variant %s' % (lang, n, seen[n]))

    @staticmethod
    def variant(v):
        return v[2] if isinstance(v, tuple) and v[:1] == ('agg',) and rown.last_seg(v[1]) == 'VfEnum' else None

    @staticmethod
    def xval(facts):
        for f, t in facts.items():
            if f[:2] == ('fn', 'eq') and t in (1, '1', True, ('c', '1')):
                a, b = f[2], f[3]
                for u, w in ((a, b), (b, a)):
                    if P25.isx(u) and w[0] == 'c':
                        return int(w[1])
            if P25.isx(f) and str(t).lstrip('-').isdigit():
                return int(t)
        return None

    @staticmethod
    def isx(v):
        while isinstance(v, tuple) and v[:2] == ('fn', 'cast'):
            v = v[-1]
        return v == ('p', 'x')

    # ------------------------------------------------------------ C++
    def cpp(self, e, items, k):
        c = self.c
        if not hasattr(self, 'cppg'):
            self.cppg = cppglue.CppGlue(self.src)
        g, num = self.trait('C++', k, self.cppg.text, e, items)
        if num is None:
            return
        hpp = [(n, t) for n, t in e.files if n.endswith('.hpp')]
        ch = [(n, t) for n, t in e.files if n.endswith('.h')]
        self.consts('C++ header', k, hpp, lambda f, t: 'vfns::VfEnum::' + f, items, num)
        self.consts('C header', k, ch, lambda f, t: (re.search(r'\b(\w*_%s)\b' % f, t) or re.search(r'\b(%s)\b' % f, t)).group(1), items, num)
        # conversion code
        into, outof = e.conv.get('into_from_rust'), e.conv.get('from_into_rust')
        if not c.require(bool(into and outof), CONV, 'C++ enum %d: both directions' % k, 'cpp/%d/conv' % k, 'C++: an enum has no conversion in one of the directions'):
            return
        sub = lambda t: t.replace('{from_var}', 'x').replace('{to_var_type}', 'auto vf_out').replace('{to_var}', 'vf_out')
        t = '#include <cstdint>\n' + ''.join('#include "%s"\n' % n for n, _ in hpp) + 'using namespace vfns;\nextern "C" { VfEnum vf_into(uint32_t x) { return %s; }\nuint32_t vf_outof(VfEnum x) { return %s; } }\n' % (sub(into[1]), sub(outof[1]))
        mod = llvmir.Module(llvmir.compile_ir('enum', {'main.cc': t, **dict(hpp)}))
        for n, what in (('vf_into', 'to C++'), ('vf_outof', 'from C++')):
            ps = llvmir.Interp(mod).run(n, llvmir.State(), [llvmir.A('x')])
            c.require(bool(ps) and all(p.end == 'ret' and p.ret == llvmir.A('x') for p in ps), CONV, 'C++ enum %d: %s' % (k, what), 'cpp/%d/%s' % (k, n),
                      'the conversion of an enum %s (%s) does not pass the number on: %s' % (what, (into if n == 'vf_into' else outof)[1], [(p.end, str(p.ret)) for p in ps]))
        # the number type on the border is the one of the trait
        for d, x in (('into', into), ('outof', outof)):
            c.require(re.sub(r'\s', '', x[0]) == 'u32', CONV, 'C++ enum %d: border type %s' % (k, d), 'cpp/%d/ty/%s' % (k, d), 'an enum crosses the border as %s, while its conversions use uint32_t' % x[0])

    def consts(self, what, k, files, name, items, num):
        c = self.c
        if not c.require(len(files) == 1, SAME, '%s of enum %d' % (what, k), '%s/%d/file' % (what, k), 'no %s is written for an enum' % what):
            return
        fn, text = files[0]
        try:
            body = ''.join('long long vf_c%d() { return (long long)%s; }\n' % (i, name(f, text)) for i, (f, r) in enumerate(items))
            mod = llvmir.Module(llvmir.compile_ir('enum', {'main.cc': '#include <stdint.h>\n#include "%s"\nextern "C" {\n%s}\n' % (fn, body), fn: text}))
        except Exception as x:
            c.violation('analysis', '%s/%d' % (what, k), 'the %s of an enum does not have the constants of its variants: %s' % (what, str(x)[-300:]))
            return
        for i, (f, r) in enumerate(items):
            ps = llvmir.Interp(mod).run('vf_c%d' % i, llvmir.State(), [])
            v = {p.ret.const() if isinstance(p.ret, llvmir.P) else None for p in ps}
            want = num.get(r.split('::')[1])
            c.require(v == {want}, SAME, '%s of enum %d: %s' % (what, k, f), '%s/%d/%s' % (what, k, f), '%s: the constant %s is %s, but the Rust variant %s declared for it has the number %s' % (what, f, sorted(v, key=str), r, want))

    # ------------------------------------------------------------ Java
    def java(self, e, items, k):
        c = self.c
        if not hasattr(self, 'jg'):
            self.jg = jniglue.JniGlue(self.src)
        self.java_field(e, items, k)
        g, num = self.trait('Java', k, self.jg.base + STUBS, Sub(e, [e.rust[0]] if len(e.rust) > 1 else e.rust), items, jniglue.flags())
        if num is None:
            return
        cls, outof, into = None, e.conv.get('from_into_rust'), e.conv.get('into_from_rust')
        if not c.require(bool(into and outof), CONV, 'Java enum %d: both directions' % k, 'java/%d/conv' % k, 'Java: an enum has no conversion in one of the directions'):
            return
        sub = lambda t: re.sub(r'\{to_var\}', 'vfOut', re.sub(r'\{to_var_type\}', 'var vfOut', t.replace('{from_var}', 'x')))
        drv = 'package vf.pkg; class VfDrv { static VfEnum into(int x) { %s return vfOut; } static int outof(VfEnum x) { %s return vfOut; } }' % (sub(into[1]), sub(outof[1]))
        cl, msg = javabc.compile_java({'vf/pkg/VfEnum.java': dict(e.files).get('VfEnum.java', ''), 'vf/pkg/VfDrv.java': drv}, name='enum')
        if cl is None:
            c.violation('analysis', 'java%d/compile' % k, 'the Java text generated for an enum does not compile: %s' % msg[-400:])
            return
        E, D = cl['vf.pkg.VfEnum'], cl['vf.pkg.VfDrv']
        it = javabc.Interp(cl, inline=lambda m: True)
        p0 = [p for p in it.run(E.method('<clinit>')) if p.how == 'ret']
        if len(p0) != 1:
            c.violation('analysis', 'java%d/clinit' % k, 'the constants of a Java enum are not initialised in one way')
            return
        obj, heap = {}, p0[0].heap
        for (o, n), v in heap.items():
            if o is None and v[0] == 'new' and v[2] == 'vf.pkg.VfEnum':
                obj[n.rsplit('.', 1)[1]] = v
        # Java to Rust: what the conversion code gives for each constant
        jnum = {}
        for f, r in items:
            o = obj.get(f)
            if not c.require(o is not None, SAME, 'Java enum %d: constant %s' % (k, f), 'java/%d/const/%s' % (k, f), 'the Java enum has no constant %s' % f):
                continue
            s = javabc.St()
            s.heap = dict(heap)
            vals = {p.ret for p in it.run(D.method('outof'), [o], s) if p.how == 'ret'}
            want = num.get(r.split('::')[1])
            c.require(vals == {('c', want)}, SAME, 'Java enum %d: number of %s' % (k, f), 'java/%d/%s' % (k, f), 'Java: the constant %s gives the number %s, but the Rust variant %s declared for it has the number %s' % (f, sorted(map(str, vals)), r, want))
        # Rust to Java
        back = {}
        for p in it.run(D.method('into'), [('p', 'x')]):
            if p.how != 'ret':
                continue
            x = [w[1] for fct, t in p.facts.items() if t and fct[0] == 'eq' for u, w in ((fct[1], fct[2]), (fct[2], fct[1])) if u == ('p', 'x') and w[0] == 'c']
            n = p.ret[1].rsplit('.', 1)[1] if p.ret and p.ret[0] == 'static' else None
            if not c.require(len(x) == 1 and n is not None, REFUSE, 'Java enum %d: %s' % (k, n), 'java/%d/into/%s' % (k, n), 'Java: %s is produced for numbers that were not compared with the number of a constant' % (n or 'a value that is no constant',)):
                continue
            back[x[0]] = n
        for f, r in items:
            n = num.get(r.split('::')[1])
            c.require(back.get(n) == f, SAME, 'Java enum %d: constant of %s' % (k, n), 'java/%d/from/%s' % (k, f), 'Java: the number %s of the Rust variant %s gives the constant %s instead of %s' % (n, r, back.get(n), f))
        for n in back:
            c.require(n in num.values(), REFUSE, 'Java enum %d: only numbers of variants (%d)' % (k, n), 'java/%d/extra/%d' % (k, n), 'Java: the number %d gives the constant %s' % (n, back[n]))
        for d, x in (('into', into), ('outof', outof)):
            c.require(re.sub(r'\s', '', x[0]) == 'jint', CONV, 'Java enum %d: border type %s' % (k, d), 'java/%d/ty/%s' % (k, d), 'an enum crosses the border as %s, while its conversions use int' % x[0])
        # absent value
        for b, r, kk in self.sentinels():
            c.require(kk not in num.values(), SENT, 'Java enum %d, %s' % (k, r), 'java/%d/sentinel/%s' % (k, r), 'Java: the number %s means an absent enum in %s, and is the number of a variant' % (kk, r))

    def sentinels(self):
        """(rule, what, number) for every rule of an optional enum"""
        if not hasattr(self, '_sent'):
            self._sent = []
            m, msg = jnibase.load(self.src)
            for f in (m.fns if m else []):
                if f.rule is None or 'VfEnum' not in f.rule.frm + f.rule.to or 'Option' not in f.rule.frm + f.rule.to:
                    continue
                what = 'the conversion %s to %s' % (f.rule.frm, f.rule.to)
                some, none = [], []
                for p in f.paths:
                    for e in p.evs:
                        if e.kind == 'sink':
                            v = e.args[0]
                            (none if v[0] == 'c' or v[:3] == ('agg', 'Option', 'None') else some).append((p, v))
                self._sent.append((f, what, some, none))
        out = []
        for f, what, some, none in self._sent:
            if 'Option' in f.rule.frm:
                ks = {int(v[1]) for p, v in none if v[0] == 'c'}
            else:
                ks = {self.pval(p.facts) for p, v in none}
            for kk in ks:
                out.append((f, what, kk))
        return out

    @staticmethod
    def plain(v):
        """a parameter, what it contains or a reference to it, not changed by a computation"""
        while isinstance(v, tuple) and v[:1] in (('fld',), ('deref',), ('clone',), ('ref',), ('raw',), ('as',)):
            if v[0] == 'ref':
                return True
            v = v[2] if v[0] in ('clone', 'raw') else v[1]
        return isinstance(v, tuple) and v[:1] == ('p',)

    @staticmethod
    def pval(facts):
        for f, t in facts.items():
            if f[:2] == ('fn', 'eq') and str(t) in ('1', 'True'):
                for u, w in ((f[2], f[3]), (f[3], f[2])):
                    if u[0] == 'p' and w[0] == 'c':
                        return int(w[1])
            if f[0] == 'p' and str(t).lstrip('-').isdigit():
                return int(t)
        return None

    def java_field(self, e, items, k):
        """the object that stands for a variant in a call of Java code"""
        c = self.c
        text = self.jg.base + STUBS + self.decl(items) + '\n'.join(e.rust)
        text, ids = jnibase.named_ids(text)
        for n, i in sorted(ids.items()):
            if i[0] == 'clash' or 'vf_hole' in n:
                c.violation(FIELD, 'java/%d/id/%s' % (k, n), 'Java: the identifier %s of the conversion of an enum to an object stands for %s' % (n, ' and for '.join('%s%s' % (a[0], a[1]) for a in i[1:]) if i[0] == 'clash' else 'a name that cannot be computed'))
                return
        m, msg = jnibase.load(text=text + jniglue.globals_of('\n'.join(e.rust)))
        if m is None:
            c.violation('analysis', 'java%d/field' % k, 'the Rust text generated for an enum (Java) does not compile: %s' % msg[-500:])
            return
        fs = [f for f in m.fns if f.f.params and re.fullmatch(r'(?:\w+::)*VfEnum', f.f.types.get(f.f.params[0], '')) and re.search(r'jobject|_jobject', f.f.types.get(0, ''))]
        if not c.require(len(fs) == 1, FIELD, 'Java enum %d: conversion to an object' % k, 'java/%d/object' % k, 'an enum has no conversion to a Java object for callbacks'):
            return
        for fn, r in items:
            v = r.split('::')[1]
            ps = m.it.run(fs[0].f, [('agg', 'VfEnum', v, ()), ('p', 'env')], rown.St())
            got = set()
            for p in ps:
                for x in m.events(p):
                    if x.kind == 'jni' and x.name == 'GetStaticObjectField' and jnibase.is_result(p.ret, x):
                        got.add((ids.get(jnibase.id_of(x.args[0])), ids.get(jnibase.id_of(x.args[1]))))
            want = ('class', 'vf/pkg/VfEnum')
            ok = len(got) == 1 and len(ps) >= 1
            g = next(iter(got)) if got else (None, None)
            c.require(ok and g[0] is not None and g[0][:2] == ('find_class', ('vf/pkg/VfEnum',)) and g[1] is not None and g[1][0] == 'get_static_field_id' and g[1][1][-2:] == (fn, 'Lvf/pkg/VfEnum;'),
                      FIELD, 'Java enum %d: object of %s' % (k, v), 'java/%d/object/%s' % (k, v), 'Java: for the variant %s the constant %s is used instead of %s' % (r, g, fn))

    # ------------------------------------------------------------ Python
    def python(self, e, items, k):
        c = self.c
        names = [f for f, r in items]
        text = '#![allow(warnings)]\n' + 'macro_rules! VfStatic { [__doc__] => { &\'static str }; [$x:ident] => { u32 } }\n' + CPY + self.decl(items) + e.result[0].replace('cpython ::', 'crate::cpython ::').replace('crate::crate::', 'crate::')
        g, msg = rown.compile_mir(text, name='en')
        if g is None:
            c.violation('analysis', 'python%d/compile' % k, 'the Rust text generated for an enum (Python) does not compile: %s' % msg[-600:])
            return
        it = rown.Interp(g, inline=lambda h: not rown.last_seg(h.name).startswith('vf_'))
        num = {}
        for fn, r in items:
            v = r.split('::')[1]
            f = [x for n, x in g.fns.items() if rown.last_seg(n) == fn]
            if not c.require(len(f) == 1, SAME, 'Python enum %d: constant %s' % (k, fn), 'py/%d/%s' % (k, fn), 'Python: the class of an enum has no constant %s' % fn):
                continue
            vals = {self.pnum(p.ret) for p in it.run(f[0], [], rown.St())}
            own = sorted({y.split('::')[1] for x, y in items}).index(v)
            c.require(vals == {own}, SAME, 'Python enum %d: value of %s' % (k, fn), 'py/%d/value/%s' % (k, fn), 'Python: the constant %s has the value %s, but the Rust variant %s has the value %s' % (fn, sorted(map(str, vals)), r, own))
            num[v] = own
        f = [x for n, x in g.fns.items() if re.search(r'Result<.*VfEnum', x.types.get(0, '')) and '{closure' not in n]
        if not c.require(len(f) == 1, RUST, 'Python enum %d: conversion from a number' % k, 'py/%d/from' % k, 'Python: an enum has no conversion from a number'):
            return
        args = [('p', 'x') if re.fullmatch(r'[iu]\d+', f[0].types.get(p, '')) else ('p', 'py') for p in f[0].params]

        def ret(p):
            if p.ret[:1] == ('agg',) and p.ret[2] == 'Ok':
                return p.ret[3][0][1]
            if p.ret[:1] == ('agg',) and p.ret[2] == 'Err':
                return 'error'
            return p.ret
        ps = it.run(f[0], args, rown.St())
        self.back('Python', k, ps, ret, num)
        c.require(any(ret(p) == 'error' and self.xval(p.facts) is None for p in ps), REFUSE, 'Python enum %d: error' % k, 'py/%d/error' % k, 'Python: no error is returned for a number that stands for no variant')

    def pnum(self, v):
        while isinstance(v, tuple) and v[:2] == ('fn', 'cast'):
            v = v[-1]
        return int(v[1]) if v and v[0] == 'c' and str(v[1]).lstrip('-').isdigit() else rown.show(v)

    # ------------------------------------------------------------ built-in rules
    def rules(self):
        c = self.c
        m, msg = jnibase.load(self.src)
        if m is None:
            c.violation('analysis', 'jni-include', 'jni-include.rs does not compile: %s' % msg[-400:])
            return
        for f in m.fns:
            if f.rule is None or 'VfEnum' not in f.rule.frm + f.rule.to:
                continue
            what = 'the conversion %s to %s (jni-include.rs:%d)' % (f.rule.frm, f.rule.to, f.rule.rule.line)
            key = 'rule/%s=>%s' % (re.sub(r'\s', '', f.rule.frm), re.sub(r'\s', '', f.rule.to))
            if f.err:
                c.violation('analysis', key, '%s cannot be analysed: %s' % (what, f.err))
                continue
            opt = 'Option' in f.rule.frm + f.rule.to
            for p in f.paths:
                for e in p.evs:
                    if e.kind != 'sink':
                        continue
                    v = e.args[0]
                    inner = v
                    if opt and v[:3] == ('agg', 'Option', 'Some'):
                        inner = v[3][0][1]
                    none = v[0] == 'c' or v[:3] == ('agg', 'Option', 'None')
                    if none:
                        c.require(opt, CONV, what, key + '/none', '%s: gives a constant' % what)
                        continue
                    t = rown.show(inner)
                    ok = isinstance(inner, tuple) and inner[0] == 'call' and re.search(r'as_jint|from_jint', str(inner[2])) and len(inner[3]) == 1 and self.plain(inner[3][0])
                    c.require(bool(ok), CONV, what, key, '%s: gives %s instead of the number or variant of its argument' % (what, t))
        for f, what, kk in self.sentinels():
            c.require(kk is not None and kk < 0, SENT, what, 'rule/' + what, '%s: the number %s means an absent enum, variants have the numbers from 0' % (what, kk))
        ks = {kk for f, what, kk in self.sentinels()}
        c.require(len(ks) == 1, SENT, 'both directions agree', 'rule/agree', 'the numbers that mean an absent enum differ between the directions: %s' % sorted(map(str, ks)))
        # C++: SwigFrom of u32
        g, msg = rown.compile_mir(self.cppg.text if hasattr(self, 'cppg') else cppglue.CppGlue(self.src).text, name='en')
        n = 0
        if g is not None:
            it = rown.Interp(g, inline=lambda h: not rown.last_seg(h.name).startswith('vf_'))
            for nm, f in sorted(g.fns.items()):
                txt = rown.calls_of(f) if hasattr(rown, 'calls_of') else [getattr(t, 'callee', '') or '' for ss, t in f.blocks.values()]
                if not any(re.search(r'SwigForeignEnum>?::', str(x)) for x in txt) or '{closure' in nm:
                    continue
                for p in it.run(f):
                    n += 1
                    r = p.ret
                    ok = isinstance(r, tuple) and r[0] == 'call' and re.search(r'as_u32|from_u32', str(r[2])) and len(r[3]) == 1 and self.plain(r[3][0])
                    c.require(bool(ok), CONV, 'cpp-include.rs: %s' % nm, 'cpp/%s' % re.sub(r'#\d+|<impl.*?>', '', nm), '%s of cpp-include.rs gives %s instead of the number or variant of its argument' % (nm, rown.show(r)))
        c.require(n >= 2, CONV, 'cpp-include.rs: both directions', 'cpp/swigfrom', 'the conversions between an enum and its number were not found in cpp-include.rs')


class Sub:
    def __init__(self, e, rust):
        self.rust = rust


STUBS = ''


def run():
    c = Check('P25', 'generated enum text of three back ends rendered from the templates; values by constant propagation over MIR, LLVM IR and Java bytecode')
    P25(c)
    return c.finish(['sample enums of one, three and five variants stand for every number of variants', 'Rust enums without explicit discriminants; the Python back end uses the discriminant itself'])
