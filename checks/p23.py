"""P23: exported JNI functions are what the Java virtual machine binds the native methods of the generated Java text to."""
import re
import rast, javabc, javacls, javarust, clsmodel
from tmpl import *
from model import Model
from tyeval import TEval
from core import Check

NAME = 'each native method has exactly one exported function of its mangled name'
EXTRA = 'each exported function is the one of a native method'
PAR = 'parameters and result of the function are those of the native method, in order'
SIG = 'the signature known for a Java type is its descriptor'
CONV = 'the type a native method declares for a converted value is the one that crosses'
FENCE = 'the natives of the reachability fence are exported'
PRIM = {'Z': 'jboolean', 'B': 'jbyte', 'C': 'jchar', 'S': 'jshort', 'I': 'jint', 'J': 'jlong', 'F': 'jfloat', 'D': 'jdouble'}
ANNOT = {'vf/ann/NonNull.java': 'package vf.ann; public @interface NonNull {}', 'vf/ann/Nullable.java': 'package vf.ann; public @interface Nullable {}'}


def mangle(s):
    """the JNI specification: names of native methods"""
    return ''.join(c if c.isascii() and c.isalnum() else '_' if c in '/.' else {'_': '_1', ';': '_2', '[': '_3'}.get(c) or '_0%04x' % ord(c) for c in s)


def rust_types(d):
    """Rust types that stand for a descriptor"""
    if d == 'V':
        return {'()', ''}
    if d in PRIM:
        return {PRIM[d]}
    if d[0] == '[':
        return {PRIM[d[1]] + 'Array' if d[1:] in PRIM else 'jobjectArray', 'jarray', 'jobject'}
    return {'jobject'} | ({'jstring'} if d == 'Ljava/lang/String;' else set())


def typed(d):
    if d in PRIM:
        return PRIM[d]
    if d[0] == '[':
        return PRIM[d[1]] + 'Array' if d[1:] in PRIM else 'jobjectArray'
    return 'jstring' if d == 'Ljava/lang/String;' else 'jobject'


class P23:
    def __init__(self, c):
        self.c, self.src = c, rast.Source()
        self.nat = self.exp = 0
        try:
            self.table = javarust.predefined(self.src)
        except Exception as x:
            c.violation('analysis', 'predefined', 'the signatures of the Java types cannot be determined: %s' % str(x)[:300])
            return
        self.signatures()
        for pkg, name, null in (('vf.pkg', 'Foo', None), ('vf.p_q.x1', 'F_o1_', None), ('one', 'F_oo', 'vf.ann')):
            self.classes(pkg, name, null)
        self.map_type()
        self.fence()
        c.analysed('native methods', self.nat)
        c.analysed('exported functions', self.exp)
        for r, n in ((NAME, 400), (EXTRA, 400), (PAR, 400), (SIG, 18), (CONV, 6), (FENCE, 8)):
            c.floor(r, n)

    # ------------------------------------------------------------ signatures of Java types
    def added(self, fn, file, name, pkg):
        """{Java type: signature} that a function of the generator adds"""
        rec = []

        def ins(ev, a):
            if isinstance(a[0], Sym) and a[0].key.endswith('java_type_to_jni_sig_map') and len(a) == 3:
                rec.append((a[1], a[2]))
            return UNIT
        ok = lambda ev, a: var('Ok', UNIT)
        ev = TEval(self.src, inline_files=lambda f: f == 'java_jni/mod.rs', overrides={'.insert': ins, 'generate_java_code': ok, 'generate_rust_code': ok})
        ev.run(self.src.fn(fn, file))
        m = Model({'class.name': name, 'fenum.name': name, 'ctx.cfg.package_name': pkg}, [])
        r = Render(m.decide, m.hole, m.items)
        out = {r.text(to_text(k)): r.text(to_text(v)) for k, v in rec}
        if m.unknown_holes:
            raise Undecided(str(list(m.unknown_holes))[:200])
        return out

    def signatures(self):
        c = self.c
        tab = {k: (v, '') for k, v in self.table.items()}
        for fn, file, name in (('generate', 'java_jni/fclass.rs', 'Bar'), ('generate_enum', 'java_jni/fenum.rs', 'Enm')):
            try:
                a = self.added(fn, file, name, 'vf.p_q')
            except Exception as x:
                c.violation('analysis', 'sig/' + fn, 'the signatures that %s of %s adds cannot be determined: %s' % (fn, file, str(x)[:300]))
                continue
            c.require(name in a, SIG, 'added/' + name, 'added/' + fn, '%s: %s adds no signature for the type it declares' % (file, fn))
            tab.update({k: (v, '') for k, v in a.items()})
        base = sorted({re.sub(r'\W', '', k) for k in tab})
        boxed = [b for b in base if b[0].isupper() and b not in ('Bar', 'Enm')]
        plat = javabc.platform(['java.lang.' + b for b in boxed]) if boxed else {}
        java = [k for k in sorted(tab) if re.sub(r'\W', '', k) in ('boolean', 'byte', 'char', 'short', 'int', 'long', 'float', 'double', 'Bar', 'Enm') or 'java.lang.' + re.sub(r'\W', '', k) in plat]
        text = 'package vf.p_q; class All { %s void r() {} }' % ' '.join('%s f%d;' % (k, i) for i, k in enumerate(java))
        cl, msg = javabc.compile_java({'vf/p_q/All.java': text, 'vf/p_q/Bar.java': 'package vf.p_q; class Bar {}', 'vf/p_q/Enm.java': 'package vf.p_q; enum Enm { A }'}, name='sig23')
        if cl is None:
            c.violation('analysis', 'sig/java', 'the Java types with a known signature do not compile: %s' % msg[-300:])
            return
        f = [k for n, k in cl.items() if n.endswith('All')][0]
        for i, k in enumerate(java):
            d = f.fields['f%d' % i][0].replace('/', '.')
            c.require(tab[k][0] == d, SIG, k, 'sig/' + k, 'the signature known for the Java type %s is %s, its descriptor is %s' % (k, tab[k][0], d))
        c.require(tab.get('void', ('V',))[0] == 'V', SIG, 'void', 'sig/void', 'the signature known for void is %s' % tab.get('void', ('V',))[0])
        self.desc = {k: f.fields['f%d' % i][0] for i, k in enumerate(java)}
        self.tab = {k: v[0] for k, v in tab.items()}

    # ------------------------------------------------------------ sample classes
    def samples(self, ann):
        """[(methods)] of sample classes; types: (Java type, conversion, descriptor of what crosses)"""
        P = [(k, None, d) for k, d in sorted(self.desc.items()) if re.sub(r'\W', '', k) not in ('Bar', 'Enm')]
        bar, enm = ('Bar', ('{to_var_type} = {from_var}.mNativeObj;', 'long'), 'J'), ('Enm', ('{to_var_type} = {from_var}.getValue();', 'int'), 'I')
        ret = ('Bar', ('{to_var_type} = new Bar(InternalPointerMarker.RAW_PTR, {from_var});', 'long'), 'J')
        if ann:
            bar = ('@NonNull Bar', bar[1], 'J')
            P = [('@NonNull ' + k if d[0] in 'L[' else k, v, d) for k, v, d in P]
        obj = ('Bar', None, None)
        T = P + [bar, enm]
        V = ('void', None, 'V')
        A = lambda ts: [('p%d' % i, t[0], t[1], typed(t[2])) for i, t in enumerate(ts)]
        R = lambda t: (t[0], t[1], typed(t[2]) if t[2] != 'V' else '()')
        I = ('int', None, 'I')
        one, many = [], []
        for i, t in enumerate(T):
            one += [dict(kind='StaticMethod', name='st_%d' % i, args=A([t]), ret=R(V)), dict(kind='Method', name='me%d_' % i, args=A([t, I]), ret=R(t if t in P else V)),
                    dict(kind='StaticMethod', name='_two%d' % i, args=A([t, T[(i * 5 + 2) % len(T)], T[(i * 3 + 1) % len(T)]]), ret=R(I))]
        one += [dict(kind='Constructor', name='new', args=A([bar, I]), ret=('', None, '()')), dict(kind='Method', name='get_bar', args=[], ret=R(ret)), dict(kind='StaticMethod', name='make', args=[], ret=R(ret)),
                dict(kind='Method', name='thr', args=A([I]), ret=R(I), throws=True)]
        longs = [t for t in P if t[2] != 'J']
        for i, t in enumerate(longs):
            many += [dict(kind='StaticMethod', name='over', args=A([t]), ret=R(I)), dict(kind='Method', name='mov_er', args=A([t]), ret=R(V)), dict(kind='StaticMethod', name='pair', args=A([t, longs[(i * 7 + 3) % len(longs)]]), ret=R(V)),
                     dict(kind='Constructor', name='new', args=A([t]), ret=('', None, '()'))]
        many += [dict(kind='StaticMethod', name='over', args=A([bar]), ret=R(I)), dict(kind='Method', name='mov_er', args=A([bar]), ret=R(ret)), dict(kind='Method', name='mov_er', args=[], ret=R(V)),
                 dict(kind='Constructor', name='new', args=A([bar]), ret=('', None, '()')), dict(kind='Constructor', name='new', args=[], ret=('', None, '()')),
                 dict(kind='StaticMethod', name='two_conv', args=A([bar, I]), ret=R(V)), dict(kind='StaticMethod', name='two_conv', args=A([I, bar]), ret=R(V)),
                 dict(kind='StaticMethod', name='do_mix', args=A([I]), ret=R(V)), dict(kind='Method', name='mix', args=A([I]), ret=R(V)), dict(kind='StaticMethod', name='mix', args=A([enm, bar, I]), ret=R(V)),
                 dict(kind='StaticMethod', name='alone', args=A([I]), ret=R(V)), dict(kind='Method', name='alone', args=A([P[0]]), ret=R(V))]
        dummy = [dict(kind='Constructor', name='new', args=[], ret=('', None, '()'), dummy=True), dict(kind='Constructor', name='new', args=A([I]), ret=('', None, '()')), dict(kind='Method', name='get', args=[], ret=R(I))]
        util = [dict(kind='StaticMethod', name='util', args=A([I]), ret=R(I)), dict(kind='StaticMethod', name='util', args=A([bar]), ret=R(I))]
        pair = [dict(kind='StaticMethod', name='over', args=A([I]), ret=R(I)), dict(kind='StaticMethod', name='mid', args=A([I]), ret=R(V)), dict(kind='StaticMethod', name='over', args=A([P[0]]), ret=R(I))]
        return one, many, dummy, util, pair

    def classes(self, pkg, name, null):
        c = self.c
        for n, ms in enumerate(self.samples(null)):
            where = '%s.%s, sample %d%s' % (pkg, name, n, ', null annotations' if null else '')
            try:
                j = javacls.Cls(self.src, name, [dict(m, args=[a[:3] for a in m['args']], ret=m['ret'][:2]) for m in ms], pkg=pkg, fence=('Std',), null=null)
                r = javarust.Fns(self.src, name, ms, pkg, self.tab)
            except Undecided as x:
                c.violation('analysis', 'text/%s' % where, 'the text of a class cannot be determined, because of the condition %s' % str(x)[:300])
                continue
            d = pkg.replace('.', '/') + '/'
            files = {d + f: t for f, t in j.files}
            files.update({d + 'InternalPointerMarker.java': 'package %s; enum InternalPointerMarker { RAW_PTR }' % pkg, d + 'Enm.java': 'package %s; public enum Enm { A; int getValue() { return 0; } }' % pkg,
                          d + 'Bar.java': 'package %s; public class Bar { long mNativeObj; Bar(InternalPointerMarker m, long p) {} }' % pkg})
            if null:
                files.update(ANNOT)
            cl, msg = javabc.compile_java(files, name='cls23')
            if cl is None:
                c.violation('analysis', 'java/%s' % where, 'the Java text of a sample class does not compile: %s' % msg[-400:])
                continue
            k = [x for q, x in cl.items() if q.replace('/', '.') == '%s.%s' % (pkg, name)]
            if len(k) != 1:
                c.violation('analysis', 'java/%s' % where, 'no Java class %s.%s was generated' % (pkg, name))
                continue
            self.compare(where, n, pkg, name, k[0], r)

    def compare(self, where, n, pkg, name, k, r):
        c = self.c
        nat = [m for m in k.methods if 'native' in m.flags]
        count = {}
        for m in nat:
            count[m.name] = count.get(m.name, 0) + 1
        self.nat += len(nat)
        if not r.fns:
            c.violation('analysis', 'rust/%s' % where, 'no Rust text is generated for the class')
        for fns in r.fns:
            by = {}
            for f in fns:
                by.setdefault(f[0], []).append(f)
            self.exp += len(fns)
            used = set()
            for m in nat:
                short = 'Java_%s_%s' % (mangle(pkg + '/' + name), mangle(m.name))
                long = short + '__' + mangle(m.desc[1:m.desc.index(')')])
                hit = by.get(long, []) + (by.get(short, []) if count[m.name] == 1 else [])
                want = long if count[m.name] > 1 else short
                if not c.require(len(hit) == 1, NAME, '%s: %s%s' % (where, m.name, m.desc), 'name/%d/%s%s' % (n, m.name, m.desc),
                                 '%s: the native method %s%s needs an exported function %s, the glue has %s' % (where, m.name, m.desc, want, ', '.join(sorted(by)[:60]) if not hit else '%d of them' % len(hit))):
                    continue
                f = hit[0]
                used.add(f[0])
                ps = [t.replace(' ', '') for p, t in f[1]]
                want = [{'jclass', 'jobject'}] + [rust_types(a) for a in m.args]
                c.require(len(ps) == 1 + len(want) and 'JNIEnv' in ps[0] and all(t in w for t, w in zip(ps[1:], want)) and f[2].replace(' ', '') in rust_types(m.ret), PAR, '%s: %s%s' % (where, m.name, m.desc), 'par/%d/%s%s' % (n, m.name, m.desc),
                          '%s: the function %s(%s) -> %s does not fit the native method %s%s' % (where, f[0], ', '.join(ps), f[2], m.name, m.desc))
            for f in by:
                c.require(f in used, EXTRA, '%s: %s' % (where, f), 'extra/%d/%s' % (n, f), '%s: the glue exports %s, which no native method of the Java class is bound to' % (where, f))

    # ------------------------------------------------------------ what a conversion declares
    def map_type(self):
        c = self.c
        try:
            ev = TEval(self.src, inline_files=lambda f: f == 'java_jni/map_type.rs', overrides={'do_map_type': lambda e, a: var('Ok', Sym('FT'))})
            res = ev.run(self.src.fn('map_type', 'java_jni/map_type.rs'))
        except Exception as x:
            c.violation('analysis', 'map_type', 'map_type cannot be evaluated: %s' % str(x)[:300])
            return
        for d in ('Outgoing', 'Incoming'):
            rule = 'FT.into_from_rust' if d == 'Outgoing' else 'FT.from_into_rust'
            for inter in (True, False):
                m = Model({'direction': ('variant', d), rule + '?.intermediate': 'yes' if inter else ('variant', 'None'), rule: 'yes', rule + '?.intermediate?.input_to_output': False}, [(r'.*\.contains\(.*\)|is_primitive_type\(.*\)|empty\(.*provided_by_module.*\)', True)])

                def walk(v):
                    while isinstance(v, Alt):
                        r = m.decide(v.c)
                        if r is None:
                            raise Undecided(v.c)
                        v = v.a if r else v.b
                    return v
                where = '%s, %s intermediate type' % (d, 'with' if inter else 'without')
                try:
                    v = walk(res)
                    v = walk(v.f['0']) if isinstance(v, Rec) and v.name == 'Ok' else v
                    base, conv = walk(v.f['base']), walk(v.f['java_converter'])
                    rt = keyof(walk(base.f['corresponding_rust_type']))
                    q = m.val(rt) if isinstance(m.val(rt), str) and rt.startswith('if(') else rt
                    tr = None
                    if conv.name == 'Some':
                        tr = keyof(walk(conv.f['0'].f['java_transition_type']))
                except (Undecided, AttributeError, KeyError) as x:
                    c.violation('analysis', 'map_type/' + where, 'what map_type returns (%s) cannot be determined: %s' % (where, str(x)[:300]))
                    continue
                want = rule + ('?.intermediate?.intermediate_ty' if inter else '?.rust_ty')
                c.require(want in rt, CONV, where + ': type', 'type/' + where, 'map_type (%s): the type of the Rust function is %s and not %s' % (where, rt, want))
                c.require((tr is not None) == inter, CONV, where + ': conversion', 'conv/' + where, 'map_type (%s): a conversion in Java is %s' % (where, 'present' if tr else 'missing'))
                if tr is not None and inter:
                    a = re.match(r'map_type\((.*)\)\?(?:\.base)?\.name$', tr)
                    c.require(a is not None and want in (a.group(1) if a else ''), CONV, where + ': declared', 'decl/' + where, 'map_type (%s): the native method declares %s and not the Java type of %s' % (where, tr, want))

    # ------------------------------------------------------------ reachability fence
    def fence(self):
        c = self.c
        for n, pkg in ((1, 'vf.p_q'), (4, 'vf.pkg'), (8, 'one')):
            try:
                ev = TEval(self.src, inline_files=lambda f: f.startswith('java_jni/'), pre={'ctx.cfg.reachability_fence': var('GenerateFence', n)})
                ev.run(self.src.fn('init', 'java_jni/mod.rs'))
                m = Model({'ctx.cfg.package_name': pkg}, [])
                r = Render(m.decide, m.hole, m.items)
                fns = [f for cond, ts in clsmodel.texts(ev.store[('s', 'ctx.rust_code')], r) for f in javarust.functions('\n'.join(ts))]
                files = [(r.text(x.f['0']), t) for cc, x in clsmodel.flat(ev.store[('s', '$files')]) for a, t in r.all(x.f['1'], 1)]
                files = {pkg.replace('.', '/') + '/' + f.split('/')[-1]: t for f, t in files if 'native' in t}
                cl, msg = javabc.compile_java(files, name='fence23')
            except Exception as x:
                c.violation('analysis', 'fence/%d' % n, 'the text of the reachability fence cannot be determined: %s' % str(x)[:300])
                continue
            if cl is None or not files:
                c.violation('analysis', 'fence/%d' % n, 'the Java text of the reachability fence does not compile: %s' % msg[-300:])
                continue
            names = [f[0] for f in fns]
            self.fence_users(n, pkg, files)
            for k in cl.values():
                for x in k.methods:
                    if 'native' in x.flags:
                        f = 'Java_%s_%s' % (mangle(k.name.replace('.', '/')), mangle(x.name))
                        hit = [y for y in fns if y[0] == f]
                        c.require(len(hit) == 1 and len(hit[0][1]) == 2 + len(x.args) and all(t.replace(' ', '') == 'jobject' for p, t in hit[0][1][2:]) and x.static, FENCE, '%d: %s' % (n, x.name), 'fence/%s' % x.name,
                                  'reachability fence: the native method %s%s needs an exported function %s with %d objects, the glue has %s' % (x.name, x.desc, f, len(x.args), names[:10]))

    def fence_users(self, n, pkg, files):
        """the calls that classes make of the fence are calls of methods it has"""
        c = self.c
        d = pkg.replace('.', '/') + '/'
        bar = ('{to_var_type} = {from_var}.mNativeObj;', 'long')
        ms = [dict(kind='StaticMethod', name='f%d' % k, args=[('p%d' % i, 'Bar', bar) for i in range(k)], ret=('void', None)) for k in range(n + 1)]
        try:
            j = javacls.Cls(self.src, 'Foo', ms, pkg=pkg, fence=('GenerateFence', n))
        except Undecided as x:
            c.violation('analysis', 'fence/users/%d' % n, 'the text of a class that uses the fence cannot be determined: %s' % str(x)[:300])
            return
        fs = {d + f: t for f, t in j.files}
        fs.update(files)
        fs.update({d + 'InternalPointerMarker.java': 'package %s; enum InternalPointerMarker { RAW_PTR }' % pkg, d + 'Bar.java': 'package %s; public class Bar { long mNativeObj; Bar(InternalPointerMarker m, long p) {} }' % pkg})
        cl, msg = javabc.compile_java(fs, name='fence23u')
        c.require(cl is not None, FENCE, 'calls of up to %d' % n, 'fence/calls/%d' % n, 'a class that keeps up to %d objects reachable does not compile against the fence generated for it: %s' % (n, re.sub(r'\s+', ' ', msg or '')[-300:]))


def run():
    c = Check('P23', 'generator templates of Java and Rust text rendered for sample classes; native methods in class files against exported functions under the JNI mangling rules')
    P23(c)
    return c.finish(['types that cross are those the type map relates (P11, P21)', 'names are ASCII: rustc rejects others in exported functions'])
