"""P22: the Java peer and its native object."""
import re
import rast, javacls, javabc, tmacro
from core import Check

ONCE = 'delete frees the native object at most once, and the handle is zero afterwards'
FIN = 'finalisation frees the native object through delete'
ONLY = 'only delete frees, and only constructors, delete and passing by value change a handle'
VALUE = 'an object passed by value gives its handle up before the call, others keep theirs'
FENCE = 'an object whose handle a native call gets is reachable until that call has returned'
RAW = 'a handle that comes from Rust is owned by exactly one new object'
PKG = 'vf.pkg'
CLASSES = {'Bar': (), 'Cln': ('Clone',), 'Cop': ('Copy', 'Clone'), 'Spc': ('SmartPtrCopy',)}
ANNOT = {'vf/ann/NonNull.java': 'package vf.ann; public @interface NonNull {}', 'vf/ann/Nullable.java': 'package vf.ann; public @interface Nullable {}'}


class P22:
    def __init__(self, c):
        self.c, self.src = c, rast.Source()
        f = [k for k in self.src.files if k.endswith('java_jni/jni-include.rs')]
        self.rules = []
        for x in f:
            v = self.src.files[x]
            self.rules += tmacro.blocks(v['items'] if isinstance(v, dict) else v)
        for fence in (('GenerateFence', 8), ('Std',), ('GenerateFence', 1)):
            for null in (None, 'vf.ann')[:1 if fence[-1] == 1 else 2]:      # a limit below the number of objects: refused, or all fenced
                try:
                    self.config(fence, null)
                except javacls.Undecided as x:
                    c.violation('analysis', 'text/%s/%s' % (fence, bool(null)), 'the Java text of a class cannot be determined, because of the condition %s' % str(x)[:300])

    # ------------------------------------------------------------ conversions of one class
    def kinds(self, name, derive, null):
        """[(label, direction, Java type, (code, border type), consumed)]"""
        out = []
        ct = javacls.ClassTypes(self.src, name, derive, null)
        copy = 'Copy' in derive or 'SmartPtrCopy' in derive
        for t in ct.types:
            full, shown, d, border, _, _ = t
            ref = full != shown
            out.append((full, 'in' if d == 'from_into_rust' else 'out', shown, (ct.code(t), 'long'), d == 'from_into_rust' and not ref and not copy))
        if ct.m.unknown_holes:
            self.c.violation('analysis', 'types/' + name, 'the Java conversions of a class cannot be determined: %s' % list(ct.m.unknown_holes)[:2])
        opt = 'NullAnnotations' if null else 'NoNullAnnotations'
        for b in self.rules:
            gen = ''.join(t[1] for r in b.rules if r.kind == 'r_type' for t in self.flat(r.generics or []))
            if 'SwigForeignClass' not in gen:
                continue
            used = any(t[1] == 'unbox_object' for r in b.rules if r.kind == 'r_type' and r.code for t in self.flat(r.code))
            for r in b.rules:
                if r.kind == 'f_type' and r.ftype and r.code and (r.option is None or tmacro.eval_opt(r.option, {opt})):
                    ty = javacls.rule_code(r.ftype, r.var, {'T': name})
                    shown = re.sub(r'^/\*.*?\*/', '', ty)
                    out.append(('%s:%d' % (ty, r.line), 'in' if r.dir == '<=' else 'out', shown, (javacls.rule_code(r.code, r.var, {'T': name}), 'long'), r.dir == '<=' and used))
        return out

    @staticmethod
    def flat(ts):
        return [t for t in tmacro.flat(ts) if isinstance(t[1], str)]

    # ------------------------------------------------------------ one configuration
    def config(self, fence, null):
        c, conf = self.c, '%s%s' % (fence[0] + ('' if fence[-1] != 1 else '(1)'), ', null annotations' if null else '')
        self.conf = conf
        files = {'vf/pkg/InternalPointerMarker.java': 'package vf.pkg; enum InternalPointerMarker { RAW_PTR }',
                 'vf/pkg/JNIReachabilityFence.java': 'package vf.pkg; final class JNIReachabilityFence { %s }' % ' '.join(
                     'static native void reachabilityFence%d(%s);' % (n, ', '.join('Object r%d' % i for i in range(n))) for n in range(1, 9))}
        files.update(ANNOT)
        long = ('long', None)
        ins, outs = [], []
        for name, derive in CLASSES.items():
            for k in self.kinds(name, derive, null):
                (ins if k[1] == 'in' else outs).append((name,) + k)
            x = javacls.Cls(self.src, name, [dict(kind='Constructor', name='new', args=[], ret=long), dict(kind='Constructor', name='empty', args=[('n', 'int', None), ('m', 'int', None)], ret=long, dummy=False),
                                             dict(kind='Method', name='get', args=[], ret=('int', None)), dict(kind='StaticMethod', name='make', args=[('n', 'int', None)], ret=('int', None))], pkg=PKG, fence=fence, null=null)
            self.add(files, x, name)
        meths, what, n = [], {}, 0
        combos = [[k] for k in ins] + [[ins[i], ins[(i * 7 + 3) % len(ins)]] for i in range(len(ins))] + [[ins[0], None, ins[-1], ins[2]]]
        rets = [('void', None), ('int', None)] + [(k[3], k[4]) for k in outs]
        for kind in ('StaticMethod', 'Method', 'Constructor'):
            for i, combo in enumerate(combos):
                args = [('p%d' % j, 'int', None) if k is None else ('p%d' % j, k[3], k[4]) for j, k in enumerate(combo)]
                if kind == 'Constructor':
                    args += [('x%d' % j, 'int', None) for j in range(i + 3)]          # keeps the signatures apart
                r = long if kind == 'Constructor' else rets[i % len(rets)]
                nm = 'init%d' % n if kind == 'Constructor' else 'f%d' % n
                meths.append(dict(kind=kind, name=nm, args=args, ret=r, throws=i % 3 == 0))
                what['<init>/%d' % len(args) if kind == 'Constructor' else nm] = (kind, combo, r)
                n += 1
        for i, k in enumerate(outs):
            for kind in ('StaticMethod', 'Method'):
                meths.append(dict(kind=kind, name='g%d%s' % (i, kind[0]), args=[], ret=(k[3], k[4])))
                what['g%d%s' % (i, kind[0])] = (kind, [], (k[3], k[4]))
        self.add(files, javacls.Cls(self.src, 'Foo', meths, pkg=PKG, fence=fence, null=null), 'Foo')
        cl, msg = javabc.compile_java(files, name='p22')
        if cl is None:
            c.violation('analysis', 'compile/%s' % conf, 'the Java text generated for a class (%s) does not compile: %s' % (conf, msg[-500:]))
            return
        self.cl = cl
        for name in list(CLASSES) + ['Foo']:
            k = cl.get(PKG + '.' + name)
            if k is None:
                c.violation('analysis', 'class/%s/%s' % (name, conf), 'no Java class %s is generated' % name)
                continue
            try:
                self.klass(k, what if name == 'Foo' else {})
            except javabc.Unsupported as x:
                c.violation('analysis', 'class/%s/%s' % (name, conf), 'the generated Java class cannot be analysed (%s): %s' % (conf, x))
        c.analysed('generated Java classes', len(CLASSES) + 1)
        c.analysed('generated Java methods', len(meths))

    def add(self, files, x, name):
        if x.m.unknown_holes or len(x.files) != 1:
            self.c.violation('analysis', 'text/%s/%s' % (name, self.conf), 'the Java text of a class cannot be determined: %s' % (list(x.m.unknown_holes)[:2] or [f for f, _ in x.files]))
        for f, t in x.files:
            files['vf/pkg/' + f] = t

    # ------------------------------------------------------------ one class
    def klass(self, k, what):
        c, conf = self.c, self.conf
        own = javabc.Interp(self.cl, inline=lambda m: m.cls is k and m.name != '<init>')
        d = k.method('delete', '()V')
        if not c.require(d is not None, ONCE, '%s: delete (%s)' % (k.name, conf), 'delete', 'the Java class has no method delete()'):
            return
        handle, frees = None, set()
        ps = own.run(d)
        for p in ps:
            for e in p.events:
                if e[0] == 'invoke' and self.native(e) and e[4]:
                    frees.add(e[2])
                    a = e[4][-1]
                    if a[0] == 'fld':
                        handle = a[2]
        if not c.require(len(frees) == 1 and handle is not None, ONCE, '%s: destructor (%s)' % (k.name, conf), 'delete/native', 'delete() does not call one native function with the handle of the object'):
            return
        free = frees.pop()
        f = k.fields.get(handle.rsplit('.', 1)[1])
        c.require(f is not None and f[0] == 'J' and 'static' not in f[1], ONCE, '%s: handle (%s)' % (k.name, conf), 'handle', 'the handle is not a field of type long of each object')
        self.once(k, d, ps, handle, free, 'delete')
        fin = k.method('finalize', '()V')
        if c.require(fin is not None, FIN, '%s: finalize (%s)' % (k.name, conf), 'finalize', 'the Java class is not finalised, so native objects are never freed'):
            ps = own.run(fin)
            self.once(k, fin, ps, handle, free, 'finalize')
            for p in ps:
                locks = [e for e in p.events if e[0] == 'enter']
                c.require(bool(locks) or any(e[0] == 'invoke' and e[2].endswith('.delete') for e in p.events), FIN, '%s: finalize path (%s)' % (k.name, conf), 'finalize/path',
                          'there is a path through finalize() that does not reach delete()')
        it = javabc.Interp(self.cl, inline=lambda m: m.cls is k and m.name not in ('<init>', 'delete'))
        for m in k.methods:
            if 'native' in m.flags or 'abstract' in m.flags or m.name in ('finalize', 'delete', '<clinit>'):
                continue
            if m.flags and 'private' in m.flags and m.name != '<init>' and 'synthetic' in m.flags:
                continue
            self.method(k, m, it.run(m), handle, free, what)

    def native(self, e):
        cn, mn = e[2].rsplit('.', 1)
        m = self.cl[cn].method(mn, e[3]) if cn in self.cl else None
        return m is not None and 'native' in m.flags

    def once(self, k, m, ps, handle, free, what):
        """at most one call of the destructor, under the lock of the object, with a handle that is not zero, and the handle is zero when the lock is released"""
        c, conf = self.c, self.conf
        this = ('p', 'this')
        seen = False
        for p in ps:
            depth, calls, cur, got = 0, 0, None, None
            zero = True
            for e in p.events:
                if e[0] == 'enter' and e[1] == this:
                    depth += 1
                elif e[0] == 'exit' and e[1] == this:
                    depth -= 1
                    if depth == 0:
                        c.require(zero, ONCE, '%s.%s: zero at the end (%s)' % (k.name, m.name, conf), what + '/zero', '%s() leaves the handle of a freed object in place, so it can be freed again' % m.name)
                        got = None
                elif e[0] == 'get' and e[1] == this and e[2] == handle:
                    got = (e[3], depth)
                elif e[0] == 'put' and e[1] == this and e[2] == handle:
                    zero = e[3] == ('c', 0)
                    c.require(zero, ONCE, '%s.%s: value (%s)' % (k.name, m.name, conf), what + '/put', '%s() sets the handle to something else than zero' % m.name)
                elif e[0] == 'invoke' and e[2] == free:
                    calls += 1
                    seen = True
                    v = e[4][-1]
                    was = [x for x in p.events if x[0] == 'get' and x[3] == v]
                    c.require(depth > 0, ONCE, '%s.%s: lock (%s)' % (k.name, m.name, conf), what + '/lock', '%s() frees the native object without the lock of the object, so two threads can free it twice' % m.name)
                    c.require(bool(was) and got is not None and got[1] > 0, ONCE, '%s.%s: read under the lock (%s)' % (k.name, m.name, conf), what + '/read', '%s() reads the handle before it has the lock' % m.name)
                    c.require(self.nonzero(v, e[6]), ONCE, '%s.%s: guard (%s)' % (k.name, m.name, conf), what + '/guard', '%s() frees the native object although its handle may be zero, so it may be freed a second time' % m.name)
                    now = None
                    for x in p.events[:p.events.index(e)]:
                        if x[0] == 'put' and x[1] == this and x[2] == handle:
                            now = x[3]
                    zero = now == ('c', 0)
            c.require(calls <= 1, ONCE, '%s.%s: calls (%s)' % (k.name, m.name, conf), what + '/twice', '%s() frees the native object %d times' % (m.name, calls))
            if p.how == 'ret':
                c.require(zero, ONCE, '%s.%s: zero (%s)' % (k.name, m.name, conf), what + '/zero', '%s() leaves the handle of a freed object in place, so it can be freed again' % m.name)
        c.require(seen, FIN, '%s.%s frees (%s)' % (k.name, m.name, conf), what + '/never', '%s() never frees the native object' % m.name)

    @staticmethod
    def nonzero(v, facts):
        for f, t in facts.items():
            if f[0] == 'eq' and v in f[1:] and ('c', 0) in f[1:] and t is False:
                return True
            if f[0] == 'eq' and t is False and any(isinstance(x, tuple) and x[0] == 'op' and x[1] == 'lcmp' and v in x[2:] and ('c', 0) in x[2:] for x in f[1:]) and ('c', 0) in f[1:]:
                return True
        return False

    # ------------------------------------------------------------ other methods
    def method(self, k, m, ps, handle, free, what):
        c, conf = self.c, self.conf
        this = ('p', 'this')
        lab = '%s.%s' % (k.name, m.name)
        shape = what.get('<init>/%d' % len(m.args) if m.name == '<init>' else m.name)
        short = handle.rsplit('.', 1)[1]
        args = [a for a in (ps[0].args if ps and hasattr(ps[0], 'args') else [])]
        raw = m.name == '<init>' and any('InternalPointerMarker' in a for a in m.args)
        for p in ps:
            ev = p.events
            nat = [(i, e) for i, e in enumerate(ev) if e[0] == 'invoke' and self.native(e) and e[2].rsplit('.', 1)[0] == k.name]
            for i, e in nat:
                c.require(e[2] != free, ONLY, '%s (%s)' % (lab, conf), 'free/' + self.tag(m), '%s frees the native object of an object beside delete()' % lab)
            for e in ev:
                if e[0] == 'put' and e[2].rsplit('.', 1)[-1] == short and self.is_peer(e[2]):
                    if e[1] == this and m.name == '<init>':
                        continue
                    ok = e[3] == ('c', 0) and self.consumed(e[1], m, shape)
                    c.require(ok, VALUE if e[3] == ('c', 0) else ONLY, '%s: write (%s)' % (lab, conf), 'put/%s' % self.kind_of(e[1], m, shape),
                              '%s changes the handle of %s, which is not passed by value' % (lab, self.kind_of(e[1], m, shape)))
            if p.how != 'ret':
                continue
            if m.name == '<init>' and not raw and nat:
                v = ([x[3] for x in ev[nat[-1][0]:] if x[0] == 'put' and x[1] == this and x[2] == handle] or [None])[-1]
                c.require(v is not None and v[0] == 'call' and v[1] == nat[-1][1][5], RAW, '%s: handle (%s)' % (lab, conf), 'ctor', 'a constructor does not keep the handle that Rust returned')
            if raw:
                v = ([x[3] for x in ev if x[0] == 'put' and x[1] == this and x[2] == handle] or [None])[-1]
                c.require(v is not None and v[0] == 'p', RAW, '%s: handle (%s)' % (lab, conf), 'raw', 'the constructor for a handle does not keep the handle')
            self.values(k, m, p, nat, handle, shape)

    def tag(self, m):
        return m.name if m.cls.name.endswith('.Bar') else 'method'

    def is_peer(self, f):
        cn = f.rsplit('.', 1)[0]
        return cn.rsplit('.', 1)[-1] in list(CLASSES) + ['Foo']

    def pos(self, v, m, shape):
        """index of the declared argument that v is"""
        if v[0] != 'p' or shape is None or v[1] == 'this':
            return None
        i = int(v[1][1:]) if re.fullmatch(r'a\d+', str(v[1])) else None
        return i if i is not None and i < len(shape[1]) else None

    def arg(self, v, m, shape):
        i = self.pos(v, m, shape)
        return shape[1][i] if i is not None else None

    def consumed(self, v, m, shape):
        a = self.arg(v, m, shape)
        return a is not None and a[5]

    def kind_of(self, v, m, shape):
        a = self.arg(v, m, shape)
        return 'the receiver' if v == ('p', 'this') else 'an argument of type %s' % a[1] if a else 'an object'

    def values(self, k, m, p, nat, handle, shape):
        """handles that are passed to a native function"""
        c, conf = self.c, self.conf
        ev = p.events
        got = {e[3]: e[1] for e in ev if e[0] == 'get' and self.is_peer(e[2]) and e[2].endswith('.' + handle.rsplit('.', 1)[1])}
        for i, e in nat:
            for a in e[4]:
                o = got.get(a)
                if o is None:
                    continue
                what = self.kind_of(o, m, shape)
                after = any(x[0] == 'invoke' and o in x[4] for x in ev[i + 1:]) or any(x[0] in ('enter', 'exit') and x[1] == o for x in ev[i + 1:])
                if m.name == '<init>' and o == ('p', 'this'):
                    after = True
                recv = o == ('p', 'this')
                c.require(after, FENCE, '%s.%s: %s (%s)' % (k.name, m.name, what, conf), 'receiver' if recv else 'fence/%s/%s' % (conf, shape[0] if shape else '') ,
                          '%s of a generated %s may be finalised, and its native object freed, while the native function works with it: nothing keeps it reachable until the call of %s returns' % (
                              what, 'method' if recv else shape[0] if shape else 'method', 'the native function' if recv else e[2]))
                if self.consumed(o, m, shape):
                    z = [n for n, x in enumerate(ev) if x[0] == 'put' and x[1] == o and x[3] == ('c', 0) and x[2].endswith('.' + handle.rsplit('.', 1)[1])]
                    r = [n for n, x in enumerate(ev) if x[0] == 'get' and x[3] == a]
                    c.require(bool(z) and z[0] < i, VALUE, '%s.%s: %s (%s)' % (k.name, m.name, what, conf), 'value/%s' % what, '%s is passed by value, but its handle is still set when the native function is called, so it is freed twice' % what)
                    c.require(not z or not r or r[0] < z[0], VALUE, '%s.%s: order for %s (%s)' % (k.name, m.name, what, conf), 'order/%s' % what, 'the handle of %s is cleared before it was read' % what)
            if shape and nat and i == nat[-1][0]:
                for j, a in enumerate(shape[1]):
                    if a is None:
                        continue
                    off = 1 if shape[0] == 'Method' else 0
                    if j + off < len(e[4]):
                        v = e[4][j + off]
                        ok = got.get(v) == ('p', 'a%d' % j) or (v == ('c', 0) and '*opt' in a[1])
                        c.require(ok, VALUE, '%s.%s: argument %d (%s)' % (k.name, m.name, j, conf), 'pass/%s' % a[1], 'the native function does not get the handle of its argument of type %s' % a[1])
        # handles that come from Rust
        if shape and shape[2][1] and nat:
            v = None
            i, e = nat[-1]
            made = [x for x in ev if x[0] == 'invoke' and x[2].endswith('.<init>') and self.is_peer(x[2]) and any(isinstance(y, tuple) and y[0] == 'call' and y[1] == e[5] for y in x[4])]
            zero = any(f[0] == 'eq' and t is True and ('c', 0) in f[1:] and any(isinstance(y, tuple) and (y[0] == 'call' and y[1] == e[5] or y[0] == 'op' and any(isinstance(z, tuple) and z[:2] == ('call', e[5]) for z in y[2:])) for y in f[1:])
                       for f, t in p.facts.items())
            c.require(len(made) == (0 if zero else 1), RAW, '%s.%s: result (%s)' % (k.name, m.name, conf), 'result/%s' % re.sub(r'\w+>?$', '', shape[2][0]), 'the handle that a native function returns is owned by %d new objects%s' % (
                len(made), ' although it is zero' if zero else ''))
            if made and p.ret is not None:
                o = made[0][4][0]
                c.require(p.ret == o or p.ret[0] == 'call' and o in p.ret[4], RAW, '%s.%s: returned (%s)' % (k.name, m.name, conf), 'returned', 'the object made for a handle from Rust is not the one that is returned')


def run():
    c = Check('P22', 'symbolic execution of the bytecode of generated Java classes, for every kind of argument, receiver and result')
    P22(c)
    for r, n in ((ONCE, 40), (FIN, 20), (VALUE, 100), (FENCE, 100), (RAW, 40), (ONLY, 1)):
        c.floor(r, n)
    return c.finish(['the native functions keep the contracts decided by P08 and P11', 'user code does not write the package private field of a generated class'])
