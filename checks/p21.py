"""P21: names and signatures that the Java glue looks up exist, and are used as what they are."""
import re
from core import Check
import rast, rown, jniglue, javabc, javaload, enummodel, rustcls, javacls, jnibase, mirbase
from cratemir import CrateInterp

CLS = 'a class that is looked up exists'
MEM = 'a method or field that is looked up exists in that class, static or not as it is looked up'
USE = 'an identifier is used with the JNI function of its kind and result type'
ARGS = 'as many arguments as the signature has, of its types'
OBJ = 'the class or object is the one the identifier belongs to'
SAME = 'one identifier stands for one class, method or field'
TYPE = 'the Java type declared for a rule is the class of the value it makes or reads'
CACHE = 'the cache looks up what the macros name, and keeps it under their identifier'

PRIM = {'Boolean': 'Z', 'Byte': 'B', 'Char': 'C', 'Short': 'S', 'Int': 'I', 'Long': 'J', 'Float': 'F', 'Double': 'D', 'Void': 'V'}
# how a C variadic argument of a JNI call must be passed for a Java parameter
VARARG = {'Z': ('i32', 'u32'), 'B': ('i32',), 'C': ('i32', 'u32'), 'S': ('i32',), 'I': ('i32',), 'J': ('i64',), 'F': ('f64',), 'D': ('f64',)}


def sig(s):
    """([parameter descriptors], result) of a method descriptor, or None"""
    m = re.fullmatch(r'\(((?:\[*(?:[ZBCSIJFD]|L[\w/$]+;))*)\)(\[*(?:[ZBCSIJFDV]|L[\w/$]+;))', s)
    return (re.findall(r'\[*(?:[ZBCSIJFD]|L[\w/$]+;)', m.group(1)), m.group(2)) if m else None


def known(d):
    """classes named in a descriptor"""
    return re.findall(r'L([\w/$]+);', d)


class P21:
    def __init__(self, c):
        self.c, self.src = c, rast.Source()
        self.G = jniglue.JniGlue(self.src)
        self.text, self.ids = jnibase.named_ids(self.G.text)
        self.plat = {}
        self.lookups(self.ids, 'jni-include.rs')
        m, msg = jnibase.load(text=self.text, rules=self.G.rules, name='ids')
        if m is None:
            c.violation('analysis', 'jni-include', 'jni-include.rs does not compile: %s' % msg[-400:])
            return
        seen, used = set(), {}
        for f in m.fns:
            if f.err:
                if any(('vf_jid_' + n) in self.body(m, f.f) for n in self.ids):
                    c.violation('analysis', f.short, '%s cannot be analysed: %s' % (self.label(f), f.err))
                continue
            for p in f.paths:
                for e in p.evs:
                    if e.kind == 'jni':
                        self.use(self.label(f), e, used)
            if f.rule is not None:
                self.types(f)
        for n, (k, v) in ((n, x) for n, x in self.ids.items() if x[0] != 'clash' and x[0] != 'find_class'):
            c.require(n in used, USE, 'use of %s' % n, 'unused/' + n, 'jni-include.rs: the identifier %s is looked up, but no JNI call that uses it was found' % n)
        self.enums()
        self.classes()
        self.onload()
        self.visitor()
        c.analysed('functions and rules', len(m.fns))
        c.analysed('identifiers', len(self.ids))
        for r, n in ((CLS, 6), (MEM, 8), (USE, 8), (ARGS, 6), (OBJ, 4), (SAME, 12), (TYPE, 10), (CACHE, 60)):
            c.floor(r, n)

    def label(self, f):
        if f.rule is not None:
            return 'the conversion %s to %s (jni-include.rs:%d)' % (f.rule.frm, f.rule.to, f.rule.rule.line)
        return f.short

    def body(self, m, f):
        return ' '.join(str(getattr(t, 'callee', '')) for ss, t in f.blocks.values())

    # ------------------------------------------------------------ (a) what is looked up
    def platform(self, names):
        names = {n for n in names if n not in self.plat}
        if names:
            p = javabc.platform([n.replace('/', '.') for n in names])
            for n in names:
                self.plat[n] = p.get(n.replace('/', '.'))

    def klass(self, name, extra=None):
        if extra and name.replace('/', '.') in extra:
            return extra[name.replace('/', '.')]
        self.platform({name})
        return self.plat[name]

    def lookups(self, ids, where, extra=None):
        c = self.c
        for n, v in sorted(ids.items()):
            if not c.require(v[0] != 'clash', SAME, '%s: %s' % (where, n), 'same/' + n, '%s: the identifier %s is used for %s' % (where, n, ' and for '.join(str(x) for x in v[1:]))):
                continue
            kind, a = v
            if kind == 'find_class':
                ok = len(a) == 1 and re.fullmatch(r'[\w/$]+', a[0]) and self.klass(a[0], extra) is not None
                c.require(bool(ok), CLS, '%s: %s' % (where, a), 'class/' + n, '%s: %s looks up the class %s, which does not exist (a name with / between its parts is needed)' % (where, n, a))
                continue
            if not c.require(len(a) == 3, MEM, '%s: %s' % (where, n), 'member/' + n, '%s: the lookup of %s has not class, name and signature: %s' % (where, n, a)):
                continue
            cid, name, s = a
            cls = ids.get(cid)
            if not c.require(cls is not None and cls[0] == 'find_class', MEM, '%s: class of %s' % (where, n), 'owner/' + n, '%s: %s belongs to %s, which is not the identifier of a class' % (where, n, cid)):
                continue
            k = self.klass(cls[1][0], extra)
            if k is None:
                continue
            static, st = 'static' in kind, None
            if 'field' in kind:
                f = k.fields.get(name)
                ok, st = f is not None and f[0] == s, f is not None and 'static' in f[1]
            else:
                f, cur, up = None, k, set()
                while f is None and cur is not None:
                    f = cur.method(name, s)
                    if f is None and cur.super and cur.super not in up:
                        up.add(cur.super)
                        cur = self.klass(cur.super.replace('.', '/'), extra)
                    else:
                        break
                ok, st = f is not None, f is not None and f.static
            c.require(bool(ok), MEM, '%s: %s' % (where, n), 'member/' + n, '%s: %s looks up %s %s in the class %s, which has no such member' % (where, n, name, s, cls[1][0]))
            if ok:
                c.require(bool(st) == static, MEM, '%s: %s static' % (where, n), 'static/' + n, '%s: %s is looked up as %s member, but %s of %s is %s' % (where, n, 'a static' if static else 'an instance', name, cls[1][0], 'static' if st else 'not static'))

    # ------------------------------------------------------------ (b) how it is used
    def use(self, where, e, used, ids=None):
        c, ids = self.c, ids or self.ids
        found = [(i, jnibase.id_of(a)) for i, a in enumerate(e.args) if jnibase.id_of(a)]
        if not found:
            return
        m = re.fullmatch(r'Call(Static|Nonvirtual)?(Object|Boolean|Byte|Char|Short|Int|Long|Float|Double|Void)Method(A|V)?', e.name)
        fm = re.fullmatch(r'(Get|Set)(Static)?(Object|Boolean|Byte|Char|Short|Int|Long|Float|Double)Field', e.name)
        nm = re.fullmatch(r'NewObject(A|V)?', e.name)
        for i, n in found:
            used.setdefault(n, set()).add(e.name)
            v = ids.get(n)
            if v is None or v[0] == 'clash':
                continue
            kind, a = v
            key = '%s/%s' % (e.name, n)
            inst = '%s: %s in %s' % (where, n, e.name)
            if kind == 'find_class':
                pos = {'NewObjectArray': 1, 'ThrowNew': 0, 'IsInstanceOf': 1, 'AllocObject': 0, 'IsAssignableFrom': (0, 1), 'GetSuperclass': 0}.get(e.name)
                ok = pos is not None and (i == pos or isinstance(pos, tuple) and i in pos) or (m and m.group(1) == 'Static' and i == 0) or (m and m.group(1) == 'Nonvirtual' and i == 1) \
                    or (nm and i == 0) or (fm and fm.group(2) and i == 0) or e.name in ('DeleteGlobalRef', 'NewLocalRef', 'NewGlobalRef')
                c.require(bool(ok), USE, inst, key, '%s: the class %s is passed to %s as argument %d, which is no class' % (where, a[0], e.name, i + 1))
                if e.name == 'ThrowNew' and ok:
                    k = self.klass(a[0])
                    anc, cur = [], k
                    while cur is not None and cur.super and len(anc) < 20:
                        anc.append(cur.super)
                        cur = self.klass(cur.super.replace('.', '/'))
                    ctor = k is not None and any(x.desc == '(Ljava/lang/String;)V' for x in self.ctors(k))
                    c.require('java.lang.Throwable' in [x.replace('/', '.') for x in anc] and ctor, USE, inst + ' throwable', key + '/throwable', '%s: throws %s, which is no exception class with a constructor for a message' % (where, a[0]))
                continue
            # methods and fields
            isf = 'field' in kind
            static = 'static' in kind
            if isf:
                if not c.require(bool(fm) and bool(fm.group(2)) == static and i == 1, USE, inst, key, '%s: the %sfield %s is used with %s (argument %d)' % (where, 'static ' if static else '', n, e.name, i + 1)):
                    continue
                want = PRIM.get(fm.group(3))
                ok = a[2] == want if want else a[2][:1] in 'L['
                c.require(ok, USE, inst + ' type', key + '/type', '%s: the field %s of type %s is read with %s' % (where, n, a[2], e.name))
                if static:
                    self.owner(where, e, inst, key, 0, a[0])
                continue
            if nm:
                c.require(a[1] == '<init>' and i == 1, USE, inst, key, '%s: %s is used with %s, but is no constructor' % (where, n, e.name))
                self.owner(where, e, inst, key, 0, a[0])
                self.count(where, e, inst, key, 2, a[2], nm.group(1))
                continue
            pos = 2 if m and m.group(1) == 'Nonvirtual' else 1
            if not c.require(bool(m) and (m.group(1) == 'Static') == static and i == pos, USE, inst, key, '%s: the %smethod %s is called with %s (argument %d)' % (where, 'static ' if static else '', n, e.name, i + 1)):
                continue
            s = sig(a[2])
            if not c.require(s is not None, USE, inst + ' signature', key + '/sig', '%s: the signature %s of %s is malformed' % (where, a[2], n)):
                continue
            want = PRIM.get(m.group(2))
            c.require(s[1] == want if want else s[1][:1] in 'L[', USE, inst + ' result', key + '/type', '%s: the method %s with the result %s is called with %s' % (where, n, s[1], e.name))
            if m.group(1):
                self.owner(where, e, inst, key, 0 if static else 1, a[0])
            self.count(where, e, inst, key, pos + 1, a[2], m.group(3))

    def ctors(self, k):
        return [x for x in (k.methods.values() if isinstance(k.methods, dict) else k.methods) if x.name in ('<init>', k.name, k.name.rsplit('.', 1)[-1])]

    def owner(self, where, e, inst, key, pos, cid):
        g = jnibase.id_of(e.args[pos]) if len(e.args) > pos else None
        self.c.require(g == cid, OBJ, inst + ' class', key + '/class', '%s: %s is called on %s, but the member belongs to %s' % (where, e.name, g or 'an unknown class', cid))

    def count(self, where, e, inst, key, start, desc, form):
        s = sig(desc)
        if s is None or form:
            if form:
                self.c.violation('analysis', key, '%s: the argument list of %s cannot be followed' % (where, e.name))
            return
        got = len(e.args) - start
        if not self.c.require(got == len(s[0]), ARGS, inst + ' count', key + '/count', '%s: %s passes %d argument(s) to a method with the signature %s' % (where, e.name, got, desc)):
            return
        tys = e.e[8][-got:] if got and len(e.e) > 8 else ()
        for d, t, v in zip(s[0], tys, e.args[start:]):
            t2 = t or self.const_type(v)
            ok = t2 in VARARG[d] if d in VARARG else t2.startswith('*')
            self.c.require(ok, ARGS, inst + ' type ' + d, key + '/argtype', '%s: %s passes a value of type %s for a Java parameter of type %s' % (where, e.name, t2, d))

    def const_type(self, v):
        m = re.search(r'([iuf]\d+)$', str(v[1])) if v[0] == 'c' else None
        return m.group(1) if m else '*' if v == ('c', 'null') else '?'

    # ------------------------------------------------------------ (c) generated enums
    def enums(self):
        c = self.c
        for k, items in enumerate(([('Only', 'VfEnum::Va')], [('ItemB', 'VfEnum::Vb'), ('ItemA', 'VfEnum::Va'), ('Third', 'VfEnum::Vc')])):
            where = 'generated enum %d' % k
            try:
                e = enummodel.EnumText(self.src, 'java', items)
                cl, msg = javabc.compile_java({'vf/pkg/VfEnum.java': dict(e.files).get('VfEnum.java', '')}, name='enum21')
            except Exception as x:
                c.violation('analysis', where, 'the generator of Java enums cannot be evaluated: %s' % str(x)[:300])
                continue
            if cl is None:
                c.violation('analysis', where, 'the Java text generated for an enum does not compile: %s' % msg[-300:])
                continue
            text, ids = jnibase.named_ids('\n'.join(e.rust))
            self.lookups(ids, where, cl)
            decl = 'pub enum VfEnum { %s }\n' % ', '.join(sorted({r.split('::')[1] for f, r in items}))
            m, msg = jnibase.load(text=self.G.base + decl + text, name='en21')
            if m is None:
                c.violation('analysis', where, 'the Rust text generated for an enum does not compile: %s' % msg[-400:])
                continue
            used, n = {}, 0
            fs = [f for f in m.all_fns if 'VfEnum' in ' '.join(str(t) for t in f.f.types.values())]
            for f in fs:
                if f.err:
                    c.violation('analysis', where + f.short, '%s: %s cannot be analysed: %s' % (where, f.short, f.err))
                for p in f.paths:
                    for x in p.evs:
                        if x.kind == 'jni':
                            self.use(where, x, used, ids)
            for i, v in ids.items():
                if v[0] not in ('clash', 'find_class'):
                    c.require(i in used, USE, '%s: use of %s' % (where, i), 'unused/' + where + i, '%s: no JNI call uses %s' % (where, i))

    def classes(self):
        """identifiers of a generated class against the Java class that is generated for it"""
        c = self.c
        for k, (this, slf) in enumerate((('Foo', 'Foo'), ('Arc<Mutex<Foo>>', 'Foo'))):
            where = 'generated class %d' % k
            try:
                x = rustcls.Cls(self.src, this, slf, 'java', ())
                alts, m = x.rust([('m0', 'Method', {}), ('m1', 'Constructor', {})])
                j = javacls.Cls(self.src, 'Foo', [dict(kind='Constructor', name='m1', args=[], ret=('long', None)), dict(kind='Method', name='m0', args=[], ret=('void', None))], pkg='pkg', fence=('Std',))
                files = {'pkg/Foo.java': dict(j.files).get('Foo.java', ''), 'pkg/InternalPointerMarker.java': 'package pkg; enum InternalPointerMarker { RAW_PTR }'}
                cl, msg = javabc.compile_java(files, name='cls21')
            except Exception as e:
                c.violation('analysis', where, 'the generator of Java classes cannot be evaluated: %s' % str(e)[:300])
                continue
            if cl is None:
                c.violation('analysis', where, 'the Java text generated for a class does not compile: %s' % msg[-300:])
                continue
            for n, (cond, ts) in enumerate(alts):
                text, ids = jnibase.named_ids('\n'.join(ts))
                c.require(bool(ids), CLS, '%s.%d' % (where, n), 'noids/%d' % k, 'the text generated for a class looks up no Java class')
                self.lookups(ids, where, cl)

    # ------------------------------------------------------------ (d) JNI_OnLoad
    def onload(self):
        c = self.c
        try:
            t, unknown = javaload.text(self.src)
        except Exception as x:
            c.violation('analysis', 'onload', 'generate_load_unload_jni_funcs cannot be evaluated: %s' % str(x)[:300])
            return
        want = {}       # id -> (JNI function, class path, name, signature)
        for cid, (path, mem) in javaload.SAMPLE.items():
            want[cid] = ('FindClass', path)
            for k, l in mem.items():
                for i, n, s in l:
                    want[i] = (javaload.KINDS[k][0], path, n, s)
        decl = re.findall(r'static\s+mut\s+VFID_(\w+)\s*:\s*(\w+)\s*=\s*([^;]*);', t)
        for i, w in sorted(want.items()):
            ty = 'jclass' if w[0] == 'FindClass' else 'jfieldID' if 'Field' in w[0] else 'jmethodID'
            d = [x for x in decl if x[0] == i]
            c.require(len(d) == 1 and d[0][1] == ty and 'null' in d[0][2], CACHE, 'variable of %s' % i, 'onload/var/' + i, 'the variable that keeps an identifier for %s is declared %s instead of once as %s, null at first' % (w[0], d or 'nowhere', ty))
        body = re.sub(r'static\s+mut\s+VFID_\w+[^;]*;', '', t)
        body = re.sub(r'\bVFID_(\w+)\b', r'(*vf_slot_\1())', body)
        slots = ''.join('#[inline(never)] pub fn vf_slot_%s() -> *mut %s { loop {} }\n' % (n, ty) for n, ty, _ in decl)
        m, msg = jnibase.load(text=self.G.base + slots + body, name='onload')
        if m is None:
            c.violation('analysis', 'onload/compile', 'the generated JNI_OnLoad and JNI_OnUnload do not compile: %s' % msg[-500:])
            return
        fs = {f.short: f for f in m.all_fns}
        for n in ('JNI_OnLoad', 'JNI_OnUnload'):
            if not c.require(n in fs, CACHE, n, 'onload/' + n, 'no function %s is generated' % n):
                return
            if fs[n].err:
                c.violation('analysis', n, '%s cannot be analysed: %s' % (n, fs[n].err))
                return

        def strarg(v):
            x = re.search(r'"([^"]*?)(?:\\\\0|\\0)"', rown.show(v))
            return x.group(1) if x else None
        for p in fs['JNI_OnLoad'].paths:
            c.require('SWIG_JNI_VERSION' in rown.show(p.ret), CACHE, 'JNI_OnLoad: version', 'onload/version', 'JNI_OnLoad returns %s instead of the JNI version' % rown.show(p.ret))
            mem = {}
            for (k, pr), v in p.p.mem.items():
                x = re.fullmatch(r'vf_slot_(\w+)', str(k[2])) if isinstance(k, tuple) and k[:1] == ('call',) and not pr else None
                if x:
                    mem[x.group(1)] = v
            ev = [e for e in p.evs if e.kind == 'jni']
            by = {e.id: e for e in ev}

            def call_of(v):
                while isinstance(v, tuple) and v[:2] == ('fn', 'cast'):
                    v = v[-1]
                return by.get(v[1]) if isinstance(v, tuple) and v[:1] == ('call',) else None

            def class_of(v, at):
                e = call_of(v)
                g = False
                if e is not None and e.name == 'NewGlobalRef':
                    g, e = True, call_of(e.args[0])
                if e is None or e.name != 'FindClass':
                    # read back from the variable
                    x = re.fullmatch(r'\*vf_slot_(\w+)\(\)', rown.show(v))
                    return (want.get(x.group(1), (0, None))[1], True) if x else (None, g)
                return strarg(e.args[0]), g
            for i, w in sorted(want.items()):
                v = mem.get(i)
                if not c.require(v is not None, CACHE, 'JNI_OnLoad: %s' % i, 'onload/set/' + w[0], 'JNI_OnLoad does not set the variable of an identifier for %s' % w[0]):
                    continue
                if w[0] == 'FindClass':
                    path, g = class_of(v, None)
                    c.require(path == w[1] and g, CACHE, 'JNI_OnLoad: class %s' % i, 'onload/class', 'JNI_OnLoad keeps %s for the class %s instead of a global reference to it' % ('a local reference' if path == w[1] else 'the class %s' % path, w[1]))
                    e = call_of(v)
                    if e is not None:
                        c.require(jnibase.null_fact(p.facts, e) == 0, CACHE, 'JNI_OnLoad: class %s checked' % i, 'onload/classnull', 'JNI_OnLoad keeps a class reference that may be null')
                    continue
                e = call_of(v)
                if not c.require(e is not None and e.name == w[0], CACHE, 'JNI_OnLoad: function for %s' % i, 'onload/fn/' + w[0], 'JNI_OnLoad sets an identifier that is looked up as %s with %s' % (w[0], e.name if e is not None else rown.show(v)[:80])):
                    continue
                path, g = class_of(e.args[0], e)
                c.require((path, strarg(e.args[1]), strarg(e.args[2])) == w[1:], CACHE, 'JNI_OnLoad: %s' % i, 'onload/member/' + w[0], 'JNI_OnLoad looks up %s for the identifier of %s' % ((path, strarg(e.args[1]), strarg(e.args[2])), w[1:]))
                c.require(jnibase.null_fact(p.facts, e) == 0, CACHE, 'JNI_OnLoad: %s checked' % i, 'onload/null/' + w[0], 'JNI_OnLoad keeps a %s result that may be null' % w[0])
                for d in ev:
                    if d.name == 'DeleteLocalRef' and d.id < e.id and rown.show(d.args[0]) == rown.show(e.args[0]):
                        c.violation(CACHE, 'onload/deleted', 'JNI_OnLoad uses a deleted local reference in %s' % e.name)
        for p in fs['JNI_OnUnload'].paths:
            dl = [rown.show(e.args[0]) for e in p.evs if e.kind == 'jni' and e.name == 'DeleteGlobalRef']
            for i, w in sorted(want.items()):
                if w[0] == 'FindClass':
                    c.require(dl.count('*vf_slot_%s()' % i) == 1, CACHE, 'JNI_OnUnload: %s' % i, 'onunload', 'JNI_OnUnload does not delete the global reference to a class once: %s' % dl)

    # ------------------------------------------------------------ (e) the macros that fill the cache
    def visitor(self):
        c = self.c
        try:
            cr = mirbase.crate()
        except Exception as x:
            c.violation('analysis', 'visitor', 'macroslib cannot be analysed: %s' % str(x)[-200:])
            return
        fn = [f for n, f in cr.fns.items() if rown.last_seg(n).split('#')[0] == 'visit_macro' and 'find_cache' in n and '{closure' not in n]
        if not c.require(len(fn) == 1, CACHE, 'visitor', 'visitor', 'the visitor that collects the macros swig_jni_* was not found'):
            return
        it = CrateInterp(cr, fn[0].file)
        LISTS = {'swig_jni_get_method_id': 'methods', 'swig_jni_get_static_method_id': 'static_methods', 'swig_jni_get_static_field_id': 'static_fields', 'swig_jni_get_field_id': 'fields'}
        try:
            ps = it.run(fn[0])
        except rown.Unsupported as x:
            c.violation('analysis', 'visitor', 'the visitor of the macros swig_jni_* cannot be analysed: %s' % x)
            return
        seen = set()
        for p in ps:
            mac = None
            for k, v in p.facts.items():
                if 'is_ident' in str(k)[:200]:
                    l = re.search(r'swig_jni_\w+', it.literal(k))
                    neg = k[0] == 'not'
                    if l and (v not in (0, '0') if not neg else '0' in [str(x) for x in v]):
                        mac = l.group(0)
            ev = [e for e in p.events if e[0] == 'call']
            push = [(rown.show(e[2][0]), rown.show(e[2][1])) for e in ev if re.search(r'Vec(::<.*>)?::push$', e[1])]
            err = [a for a, b in push if 'errors' in a]
            push = [(a, b) for a, b in push if 'errors' not in a]
            ins = []
            for e in ev:
                sh = [rown.show(a) for a in e[2]]
                if re.search(r'HashMap.*::insert$|BTreeMap.*::insert$', e[1]):
                    ins.append((sh[0] + sh[1], True))
                elif re.search(r'VacantEntry.*::insert$|Entry.*::or_insert(_with)?$', e[1]):
                    ins.append((sh[0], False))
            if mac == 'swig_jni_find_class':
                seen.add(mac)
                old = any(re.search(r'(HashMap|BTreeMap)\S*::(get|get_mut|contains_key|entry)\(', rown.show(k)) and
                          (v in (1, '1') if k[0] != 'not' else '0' in [str(x) for x in v]) for k, v in p.facts.items() if isinstance(k, tuple) and not re.search(r'\b(eq|ne)\(', rown.show(k)))
                new = any(re.search(r'(HashMap|BTreeMap)\S*::(get|get_mut|contains_key)\(', rown.show(k)) and k[0] != 'not' and v in (0, '0') for k, v in p.facts.items() if isinstance(k, tuple) and not re.search(r'\b(eq|ne)\(', rown.show(k)))
                if old and new:
                    continue        # two lookups of one identifier that disagree
                eq = [v for k, v in p.facts.items() if isinstance(k, tuple) and k[:2] == ('fn', 'eq')]
                differ = any(str(v) == '0' for v in eq)
                if err:
                    c.require(differ or not eq, CACHE, 'visitor: %s clash' % mac, 'visitor/class/same', 'a second %s of the same class is reported as a different class' % mac)
                    for k in p.facts:
                        if isinstance(k, tuple) and k[:2] == ('fn', 'eq') and 'path' not in rown.show(k):
                            c.violation(CACHE, 'visitor/class/whole', 'a second %s is compared together with the members recorded so far, so the same class counts as a different one' % mac)
                else:
                    c.require(bool(ins) or old, CACHE, 'visitor: %s' % mac, 'visitor/class', 'there is a path on which a class named in %s is not recorded' % mac)
                    c.require(not old or any(str(v) == '1' for v in eq), CACHE, 'visitor: %s same id' % mac, 'visitor/class/clash', 'a second %s with the same identifier is taken for the same class without comparing the classes' % mac)
                for i, over in ins:
                    c.require('calls' in i and '.id' in i, CACHE, 'visitor: %s recorded' % mac, 'visitor/class/key', 'a class named in %s is not recorded under its identifier' % mac)
                    # what was recorded for the class before is not lost
                    c.require(not (over and old), CACHE, 'visitor: %s kept' % mac, 'visitor/class/lost', 'a second %s with the same identifier discards the members recorded for the class' % mac)
            elif mac in LISTS:
                seen.add(mac)
                true = lambda k, v: (v not in (0, '0')) if k[0] != 'not' else '0' in [str(x) for x in v]
                dup = []
                for k, v in p.facts.items():
                    h = str(k)[:300]
                    if re.search(r'::(any|contains|find|position)\b', h) and true(k, v) or re.search(r'::all\b', h) and k[0] != 'not' and v in (0, '0') or \
                            isinstance(k, tuple) and k[:2] == ('fn', 'eq') and 'parse2' in rown.show(k) and str(v) == '1' and not re.search(r"\.(id|name|sig|class_id)\b|'(id|name|sig|class_id)'", rown.show(k)):
                        dup.append(k)
                if push:
                    a, b = push[0]
                    m = re.search(r"\('(\w+)', None\)\(\)\)$|\.(\w+)$", a)
                    l = (m.group(1) or m.group(2)) if m else a
                    c.require(len(push) == 1 and l == LISTS[mac], CACHE, 'visitor: %s' % mac, 'visitor/' + mac, '%s is recorded in %s instead of %s' % (mac, l, LISTS[mac]))
                    c.require('class_id' in a and 'HashMap' in a, CACHE, 'visitor: %s class' % mac, 'visitor/owner/' + mac, '%s is not recorded with the class of its class identifier' % mac)
                    c.require('parse2' in b, CACHE, 'visitor: %s item' % mac, 'visitor/item/' + mac, '%s records something else than its arguments' % mac)
                else:
                    c.require(bool(dup), CACHE, 'visitor: %s recorded' % mac, 'visitor/dropped/' + mac, 'there is a path on which %s is not recorded although it is new' % mac)
                    for k in dup:
                        if re.search(r'::contains\b', str(k)[:300]) or k[:2] == ('fn', 'eq'):
                            continue        # compared as a whole
                        r = it.closure_result(k)
                        ok = r is not None and (re.search(r'PartialEq>?::(eq|ne)|\b(eq|ne)\(', r) and not re.search(r"\.(name|sig|class_id)\b|'(name|sig|class_id)'", r) or all(x in r for x in ('name', 'sig', 'id')))
                        c.require(bool(ok), CACHE, 'visitor: %s duplicate' % mac, 'visitor/dup/' + mac, '%s is left out when another entry is only partly equal: %s' % (mac, r))
        for l in list(LISTS) + ['swig_jni_find_class']:
            c.require(l in seen, CACHE, 'visitor: %s handled' % l, 'visitor/seen/' + l, 'the macro %s is not collected' % l)

    # ------------------------------------------------------------ rules and their Java types
    def types(self, f):
        """the class of a looked up member that is used on the argument, or that makes the result, is the declared Java type"""
        r = f.rule
        jt = self.java_types(r)
        for p in f.paths:
            for e in p.evs:
                if e.kind == 'jni':
                    m = re.fullmatch(r'Call(Static)?ObjectMethod', e.name)
                    i = re.fullmatch(r'Call(\w+)Method', e.name)
                    n = jnibase.id_of(e.args[1]) if len(e.args) > 1 else None
                    if n is None or self.ids.get(n, ('clash',))[0] == 'clash':
                        continue
                    kind, a = self.ids[n]
                    if m and m.group(1) and any(x.kind == 'sink' and jnibase.is_result(x.args[0], e) for x in p.evs):
                        s = sig(a[2])
                        if s and jt:
                            self.c.require(jt == {s[1]}, TYPE, self.label(f), 'type/%d' % r.rule.line, '%s: makes an object of class %s, but is declared as Java type %s' % (self.label(f), s[1], ', '.join(sorted(jt))))
                        elif s:
                            self.c.violation('analysis', 'type/%s' % self.label(f), '%s has no Java type that can be determined' % self.label(f))
                    elif i and not i.group(1).startswith('Static') and self.from_param(e.args[0], p):
                        cls = self.ids.get(a[0])
                        if jt and cls and cls[0] == 'find_class':
                            self.c.require(jt == {"L%s;" % cls[1][0]}, TYPE, self.label(f), 'type/%d' % r.rule.line, '%s: calls %s of %s on its argument, which is declared as Java type %s' % (self.label(f), a[1], cls[1][0], ', '.join(sorted(jt))))

    def from_param(self, v, p):
        """v is the argument of the rule or a new reference to it"""
        if v == ('p', 'p'):
            return True
        return any(e.kind == 'jni' and e.name in ('NewLocalRef', 'NewGlobalRef') and jnibase.is_result(v, e) and e.args[0] == ('p', 'p') for e in p.evs)

    def java_types(self, r):
        """descriptors of the Java types declared for the rule, or for another rule with the same border type"""
        def of(b, d):
            return {self.desc(x.ftype) for x in b.rules if x.kind == 'f_type' and x.dir == d and x.ftype}
        out = of(r.block, r.rule.dir)
        if out:
            return out
        alias = self.alias(r.rule)
        for q in self.G.rules:
            if q is not r and self.alias(q.rule) == alias and alias and q.rule.dir == r.rule.dir:
                out |= of(q.block, q.rule.dir)
        return out

    def alias(self, rule):
        t = [x[1] for x in (rule.right or []) if x[0] == 'i'] if isinstance(rule.right, list) else []
        return t[-1] if 'internal_aliases' in t else None

    def desc(self, t):
        t = re.sub(r'@\w+|\s', '', t)
        arr = t.count('[]')
        t = t.replace('[]', '')
        if '.' not in t:
            t = 'java.lang.' + t
        return '[' * arr + 'L%s;' % t.replace('.', '/')


def run():
    c = Check('P21', 'identifiers of the JNI macros against the class files of the platform; receiver, result and argument types of every JNI call on the MIR paths')
    P21(c)
    return c.finish(['classes of the installed Java platform stand for those of the target', 'variadic arguments are promoted as C does'])
