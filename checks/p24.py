"""P24: calls of Java callbacks from Rust reach the declared method of the registered object and leave no exception pending."""
import re
import rast, rown, javabc, javacb, javarust, jniglue, jnibase
from rown import show
from tmpl import *
from tyeval import TEval
from core import Check

DECL = 'the Java interface declares each method with its types in order'
LOOK = 'the identifier of a method is looked up by the name and signature the interface declares'
CALL = 'the trait function calls its own method on the registered object'
ARGS = 'arguments reach Java in order, promoted as Java reads them'
RES = 'the result is read with the call of its type and converted'
EXC = 'an exception is described and cleared right after the call'
ENV = 'JNI is used with the environment of the current thread, attached if need be and detached after'
NEW = 'the callback object keeps the virtual machine and a global reference'
MAP = 'types of a callback are mapped in the direction they cross'

PR = [('boolean', 'jboolean'), ('byte', 'jbyte'), ('short', 'jshort'), ('int', 'jint'), ('long', 'jlong'), ('float', 'jfloat'), ('double', 'jdouble')]
KIND = {'Z': 'Boolean', 'B': 'Byte', 'C': 'Char', 'S': 'Short', 'I': 'Int', 'J': 'Long', 'F': 'Float', 'D': 'Double', 'V': 'Void'}
# what the variable argument list of a C function holds for a descriptor
VAR = {'Z': ('u32', 'i32'), 'B': ('i32',), 'C': ('u32', 'i32'), 'S': ('i32',), 'F': ('f64',)}
CONST = {'JNI_OK': 0, 'JNI_ERR': -1, 'JNI_EDETACHED': -2, 'JNI_EVERSION': -3, 'JNI_TRUE': 1, 'JNI_FALSE': 0}


def num(v):
    """integer a constant stands for"""
    while isinstance(v, tuple) and v[:1] == ('fn',) and v[1] in ('cast', 'as') and len(v) > 2:
        v = v[-1]
    if isinstance(v, int):
        n = v
    elif isinstance(v, tuple) and v[:1] == ('c',):
        s = str(v[1]).split('::')[-1]
        if s in CONST:
            return CONST[s]
        m = re.fullmatch(r'(-?\d+)(?:_?[iu]\w+)?', s)
        if not m:
            return None
        n = int(m.group(1))
    else:
        return None
    return n - (1 << 32) if n >= 1 << 31 else n


def outcome(facts, id):
    """(set of values the result of call `id` can have or None, set of values it has not)"""
    yes, no = None, set()
    for k, v in facts.items():
        neg = False
        while isinstance(k, tuple) and k[:1] == ('not',):
            k, neg = k[1], not neg
        if not isinstance(k, tuple):
            continue
        if is_call(k, id):
            if isinstance(v, frozenset):
                no |= {num(('c', x)) for x in v}
            else:
                yes = num(('c', v) if not isinstance(v, int) else v)
        elif k[:2] == ('fn', 'eq') and len(k) == 4:
            a, b = k[2], k[3]
            if is_call(a, id):
                a, b = b, a
            if is_call(b, id) and num(a) is not None and not isinstance(v, frozenset):
                t = bool(int(v)) != neg
                if t:
                    yes = num(a)
                else:
                    no.add(num(a))
    return yes, no


def is_call(v, id):
    while isinstance(v, tuple) and v[:2] == ('fn', 'cast'):
        v = v[-1]
    return isinstance(v, tuple) and v[:1] == ('call',) and len(v) > 1 and v[1] == id


def occurs(v, id):
    return isinstance(v, tuple) and (v[:1] in (('call',), ('mut',)) and len(v) > 1 and v[1] == id or any(occurs(x, id) for x in v[1:]))


def text_of(v):
    m = re.search(r'"((?:[^"\\]|\\.)*)"', show(v))
    return re.sub(r'\\(?:0|x00)$', '', m.group(1)) if m else None


class P24:
    def __init__(self, c):
        self.c, self.src = c, rast.Source()
        self.paths = self.nfn = self.nm = 0
        try:
            self.table = javarust.predefined(self.src)
            self.base = jniglue.JniGlue(self.src).base
        except Exception as x:
            c.violation('analysis', 'base', 'the glue of callbacks cannot be determined: %s' % str(x)[:300])
            return
        for n, s in enumerate(self.samples()):
            self.sample(n, *s)
        self.mapping()
        c.analysed('callback methods', self.nm)
        c.analysed('Rust functions', self.nfn)
        c.analysed('paths', self.paths)
        for r, k in ((DECL, 30), (LOOK, 30), (CALL, 60), (ARGS, 60), (RES, 30), (EXC, 60), (ENV, 60), (NEW, 4), (MAP, 4)):
            c.floor(r, k)

    def samples(self):
        """(interface, trait, package, null annotations, methods)"""
        O = [('String', 'jobject'), ('Foo', 'jobject'), ('byte []', 'jbyteArray'), ('String', 'jstring'), ('Enm', 'jobject')]
        A = lambda ts: [('x%d' % i, t[0], 'VfA', t[1]) for i, t in enumerate(ts)]
        allk = PR + O
        ms = [dict(name='onAll', rust='on_all', args=A(allk), ret=None), dict(name='none', rust='on_none', args=[], ret=None, slf='&mut self')]
        for i, t in enumerate(allk):
            ms.append(dict(name='one%d' % i, rust='f%d' % i, args=A([t]), ret=None, slf='&mut self' if i % 2 else '&self'))
        for i, (j, n) in enumerate(PR + [('Foo', 'jobject')]):
            ms.append(dict(name='get_%d' % i, rust='get%d' % i, args=A([allk[(i * 5 + k) % len(allk)] for k in range(i % 4)]), ret=(j, 'VfR', n), slf='&mut self' if i % 3 == 0 else '&self'))
        yield 'Obs', 'VfTrait', 'vf.pkg', None, ms
        over = [dict(name='on', rust='on%d' % i, args=A([t]), ret=None) for i, t in enumerate(PR + O[:3])] + [dict(name='on', rust='on_two', args=A([PR[3], PR[3]]), ret=('int', 'VfR', 'jint')),
               dict(name='on', rust='on_rev', args=A([PR[5], PR[3], PR[5]]), ret=('boolean', 'VfR', 'jboolean'))]
        yield 'Ob_s2', 'VfTrait', 'vf.p_q.x1', None, over
        yield 'One', 'VfTrait', 'one', 'vf.ann', [dict(name='only', rust='only', args=A([('@NonNull Foo', 'jobject'), ('int', 'jint'), ('@Nullable String', 'jobject')]), ret=('@NonNull Foo', 'VfR', 'jobject'))]

    def sample(self, n, name, trait, pkg, null, ms):
        c = self.c
        where = 'interface %s.%s' % (pkg, name)
        tab = dict(self.table)
        for t in ('Foo', 'Enm'):
            tab[t] = 'L%s.%s;' % (pkg, t)
        # every argument and result has a Rust type of its own
        k = 0
        for m in ms:
            m['args'] = [(a[0], a[1], 'VfA%d' % (k + i), a[3]) for i, a in enumerate(m['args'])]
            k += len(m['args'])
            if m.get('ret'):
                m['ret'] = (m['ret'][0], 'VfR%d' % k, m['ret'][2])
                k += 1
        try:
            x = javacb.Iface(self.src, name, trait, ms, pkg, tab, null)
        except Exception as e:
            c.violation('analysis', 'text/%d' % n, '%s: the glue of the interface cannot be determined: %s' % (where, str(e)[:300]))
            return
        decl = self.java(n, name, pkg, null, ms, x, where)
        if decl is None:
            return
        tr = 'pub trait %s {\n' % trait + ''.join('fn %s(%s)%s;\n' % (m['rust'], ', '.join([m.get('slf', '&self')] + ['%s: %s' % (a[0], a[2]) for a in m['args']]), ' -> ' + m['ret'][1] if m.get('ret') else '') for m in ms) + '}\n'
        tys = sorted(set(re.findall(r'\bVf[AR]\d+\b', tr)))
        body = self.base + ''.join('pub struct %s(u64);\n' % t for t in tys) + '#[inline(never)] pub fn vf_conv<A, B>(a: A) -> B { loop {} }\n' + tr + '\n'.join(x.conv + x.rust)
        body = re.sub(r'#\s*\[\s*swig_\w+\s*=\s*"[^"]*"\s*\]', '', body)
        body = re.sub(r'\blog\s*::\s*(error|warn|info|debug|trace)\s*!', 'vf_log !', body).replace('#![allow(warnings)]', '')
        body = '#![allow(warnings)]\nmacro_rules! vf_log { ($($t:tt)*) => { vf_logged() } }\n#[inline(never)] fn vf_logged() {}\n' + body
        m, msg = jnibase.load(text=body, name='cb24_%d' % n)
        if m is None:
            c.violation(ARGS, 'compile/%d' % n, '%s: the Rust glue of the interface does not compile: %s' % (where, re.sub(r'\s+', ' ', msg)[-500:]))
            return
        order = self.lookup(n, where, ms, decl, m, trait)
        for i, q in enumerate(ms):
            fs = [f for f in m.all_fns if f.short == q['rust'] and f.f.params and 'JavaCallback' in (f.f.types.get(f.f.params[0]) or '')]
            if len(fs) != 1:
                c.violation(CALL, 'fn/%d/%s' % (n, q['rust']), '%s: %d functions implement %s' % (where, len(fs), q['rust']))
                continue
            self.nm += 1
            self.method(n, where, i, q, decl.get(i), fs[0], order)
        if n == 0:
            self.life(m)

    # ------------------------------------------------------------ Java text
    def java(self, n, name, pkg, null, ms, x, where):
        c = self.c
        d = pkg.replace('.', '/') + '/'
        files = {d + f: t for f, t in x.files}
        want = {i: '(%s)%s' % (', '.join(a[1] for a in m['args']), m['ret'][0] if m.get('ret') else 'void') for i, m in enumerate(ms)}
        # descriptors of the declared types, from the compiler
        probe = 'package %s; %s interface VfProbe { %s }' % (pkg, 'import %s.*;' % null if null else '', ' '.join('%s q%d(%s);' % (m['ret'][0] if m.get('ret') else 'void', i, ', '.join('%s y%d' % (a[1], j) for j, a in enumerate(m['args']))) for i, m in enumerate(ms)))
        files.update({d + 'VfProbe.java': probe, d + 'Foo.java': 'package %s; public class Foo {}' % pkg, d + 'Enm.java': 'package %s; public enum Enm { A }' % pkg})
        if null:
            p = null.replace('.', '/')
            files.update({p + '/NonNull.java': 'package %s; public @interface NonNull {}' % null, p + '/Nullable.java': 'package %s; public @interface Nullable {}' % null})
        cl, msg = javabc.compile_java(files, name='cb24')
        if cl is None:
            c.violation(DECL, 'javac/%d' % n, '%s: the Java interface does not compile: %s' % (where, msg[-300:]))
            return None
        get = lambda q: [k for y, k in cl.items() if y.replace('/', '.') == '%s.%s' % (pkg, q)]
        k, pr = get(name), get('VfProbe')
        if len(k) != 1:
            c.violation(DECL, 'iface/%d' % n, '%s is not generated' % where)
            return None
        desc = {m.name: m.desc for m in pr[0].methods}
        decl = {}
        have = {(m.name, m.desc) for m in k[0].methods}
        for i, m in enumerate(ms):
            decl[i] = (m['name'], desc['q%d' % i])
            c.require(decl[i] in have, DECL, '%s: %s' % (where, m['name']), 'decl/%d/%s' % (n, m['rust']), '%s: the Java interface has no method %s%s' % (where, m['name'], decl[i][1]))
        c.require(len(k[0].methods) == len(ms), DECL, where, 'count/%d' % n, '%s: %d methods are declared, the Java interface has %d' % (where, len(ms), len(k[0].methods)))
        return decl

    # ------------------------------------------------------------ creation
    def lookup(self, n, where, ms, decl, m, trait):
        """{place in the list of identifiers: number of the method}"""
        c = self.c
        fs = [f for f in m.all_fns if f.short == 'swig_from' and re.search(r'Box<dyn\s+(?:\w+::)*%s\b' % trait, f.f.ret if hasattr(f.f, 'ret') else f.f.types.get(0) or '')]
        if len(fs) != 1:
            fs = [f for f in m.all_fns if f.short == 'swig_from' and any(e.name == 'GetMethodID' for p in f.paths for e in p.evs)]
        if len(fs) != 1 or fs[0].err or not fs[0].paths:
            c.violation('analysis', 'swig_from/%d' % n, '%s: the conversion of a Java object to the trait object cannot be followed: %s' % (where, fs[0].err if fs else 'no such function'))
            return None
        order = None
        self.nfn += 1
        for p in fs[0].paths:
            self.paths += 1
            glob = [e for e in p.evs if e.name == 'NewGlobalRef']
            vm = [e for e in p.evs if e.name == 'GetJavaVM']
            cls = [e for e in p.evs if e.name == 'GetObjectClass']
            v = p.ret
            while isinstance(v, tuple) and v[:1] in (('box',), ('cast',)):
                v = v[-1] if v[0] == 'cast' else v[1]
            ag = self.find_agg(v, 'JavaCallback')
            fld = dict(self.fields(ag)) if ag else {}
            ok = len(glob) == 1 and ag is not None and show(glob[0].args[0]) == 'this' and is_call(fld.get('this'), glob[0].id)
            c.require(ok, NEW, '%s: reference' % where, 'new/ref/%d' % n, '%s: the object that callbacks are made on is %s, not a global reference to the Java object passed' % (where, show(fld.get('this'))[:100] if fld else 'unknown'))
            ok = len(vm) == 1 and ag is not None and occurs(fld.get('java_vm'), vm[0].id) and self.is_out(fld.get('java_vm'), vm[0].id)
            c.require(ok, NEW, '%s: machine' % where, 'new/vm/%d' % n, '%s: the virtual machine kept is %s, not the one of the environment' % (where, show(fld.get('java_vm'))[:100] if fld else 'unknown'))
            env = {e.e[2][1] for e in p.evs if e.kind == 'jni'}
            c.require(env == {('p', 'env')}, ENV, '%s: creation' % where, 'new/env/%d' % n, '%s: JNI is called with %s instead of the environment passed' % (where, ', '.join(sorted(show(x)[:60] for x in env))))
            ids = {e.id: e for e in p.evs if e.name == 'GetMethodID'}
            seq = self.pushes(fld.get('methods'))
            if seq is None:
                c.violation('analysis', 'methods/%d' % n, '%s: the list of method identifiers cannot be followed: %s' % (where, show(fld.get('methods'))[:200] if fld else ''))
                return None
            got = []
            for v in seq:
                e = next((e for i, e in ids.items() if is_call(v, i)), None)
                got.append(e)
            c.require(len(got) == len(ms), LOOK, where, 'len/%d' % n, '%s: %d identifiers are kept for %d methods' % (where, len(got), len(ms)))
            o = {}
            rev = {}
            for i, d in decl.items():
                rev.setdefault(d, i)
            for i, e in enumerate(got):
                nm, sg = (text_of(e.args[1]), text_of(e.args[2])) if e is not None else (None, None)
                onobj = e is not None and cls and is_call(e.args[0], cls[0].id) and (show(cls[0].args[0]) == 'this' or glob and is_call(cls[0].args[0], glob[0].id))
                c.require(bool(onobj) and (nm, sg) in rev, LOOK, '%s: %s%s' % (where, nm, sg), 'look/%d/%d' % (n, i), '%s: place %d of the method identifiers holds %s%s, which the Java interface does not declare%s' %
                          (where, i, nm, sg, '' if onobj else ' or which is not looked up in the class of the object'))
                o[i] = rev.get((nm, sg))
            if order is not None and o != order:
                c.violation(LOOK, 'paths/%d' % n, '%s: the identifiers differ between paths' % where)
            order = o
        return order

    def find_agg(self, v, name):
        if isinstance(v, tuple):
            if v[:1] == ('agg',) and rown.last_seg(v[1]) == name:
                return v
            if v[:1] in (('call',), ('mut',)):
                return None
            for x in v[1:]:
                r = self.find_agg(x, name)
                if r is not None:
                    return r
        return None

    def fields(self, ag):
        for x in ag[2:]:
            if isinstance(x, tuple):
                for y in x:
                    if isinstance(y, tuple) and len(y) == 2 and isinstance(y[0], str):
                        yield y
                    elif isinstance(y, tuple):
                        yield from ((z[0], z[1]) for z in y if isinstance(z, tuple) and len(z) == 2 and isinstance(z[0], str))

    def is_out(self, v, id):
        """the value written through a pointer by call id"""
        while isinstance(v, tuple) and v[:1] == ('cast',):
            v = v[-1]
        return isinstance(v, tuple) and v[:1] == ('mut',) and v[1] == id

    def pushes(self, v):
        """elements of a vector built by pushes on an empty one"""
        if v is None:
            return None
        if v[:1] == ('mut',):
            r = self.pushes(v[3])
            if r is None or v[2] not in ('push', 'reserve', 'reserve_exact', 'shrink_to_fit', 'insert'):
                return None
            a = v[4]
            if v[2] == 'push':
                return r + [a[-1]]
            if v[2] == 'insert':
                i = num(a[-2]) if len(a) > 1 else None
                return r[:i] + [a[-1]] + r[i:] if i is not None else None
            return r
        if v[:1] == ('call',) and rown.last_seg(v[2]) in ('new', 'with_capacity', 'default'):
            return []
        if v[:1] == ('box',):
            return self.pushes(v[1])
        return None

    # ------------------------------------------------------------ trait functions
    def method(self, n, where, i, q, d, f, order):
        c = self.c
        w = '%s: %s' % (where, q['rust'])
        key = '%d/%s' % (n, q['rust'])
        if f.err or not f.paths:
            c.violation('analysis', 'fn/' + key, '%s cannot be followed: %s' % (w, f.err))
            return
        self.nfn += 1
        ad, rd = d[1][1:d[1].index(')')], d[1][d[1].index(')') + 1:]
        ads = re.findall(r'\[*(?:L[^;]*;|[A-Z])', ad)
        for p in f.paths:
            self.paths += 1
            calls = [e for e in p.evs if e.kind == 'jni' and re.fullmatch(r'Call\w*Method[AV]?', e.name or '')]
            have = self.environment(w, key, p, q)
            if have is None:
                if q.get('ret'):
                    c.violation(RES, 'noenv/' + key, '%s returns %s without an environment' % (w, show(p.ret)[:80]))
                c.require(not calls, CALL, w, 'noenv/' + key, '%s: Java is called without an environment' % w)
                continue
            if not c.require(len(calls) == 1, CALL, w, 'once/' + key, '%s: a path calls Java %d times' % (w, len(calls))):
                continue
            e = calls[0]
            idx = self.index(e.args[1]) if len(e.args) > 1 else None
            hit = order is not None and idx is not None and order.get(idx) == i
            c.require(show(e.args[0]) == '*self.this' and hit, CALL, w, 'call/' + key, '%s calls the method at place %s of %s, %s is declared for it' %
                      (w, idx, show(e.args[0])[:60], d[0] + d[1]))
            c.require(e.name == 'Call%sMethod' % KIND.get(rd, 'Object'), RES, w, 'kind/' + key, '%s reads a result of type %s with %s' % (w, rd, e.name))
            va = e.args[2:]
            c.require(len(va) == len(ads), ARGS, w, 'n/' + key, '%s passes %d arguments for %d parameters' % (w, len(va), len(ads)))
            for j, (v, dd) in enumerate(zip(va, ads)):
                t, core = None, v
                if isinstance(v, tuple) and v[:1] == ('cast',) or isinstance(v, tuple) and v[:2] == ('fn', 'cast'):
                    m = re.match(r'cast\((.*?), (.*?), ', show(v))
                    t, core = m.group(2) if m else '?', v[-1]
                ok = isinstance(core, tuple) and core[:1] == ('call',) and rown.last_seg(core[2]) == 'vf_conv' and show(core) == 'vf_conv(a%d)' % j
                c.require(ok and (t in VAR[dd] if dd in VAR else t is None), ARGS, '%s, argument %d' % (w, j), 'arg/%s/%d' % (key, j), '%s: the argument at place %d is %s%s, the method reads a parameter of type %s' % (w, j, show(v)[:80], ' as ' + t if t else '', dd))
            self.exception(w, key, p, e)
            if q.get('ret'):
                v = p.ret
                ok = isinstance(v, tuple) and v[:1] == ('call',) and rown.last_seg(v[2]) == 'vf_conv' and is_call(v[3][0], e.id)
                c.require(ok, RES, w, 'res/' + key, '%s returns %s, not the converted result of the call' % (w, show(v)[:80]))

    def index(self, v):
        """place in self.methods"""
        s = show(v)
        m = re.fullmatch(r"\*?\(?<?(?:Vec|\[.*?\]|SliceIndex)[^(]*(?:index|get_unchecked)\(addr\(\*self, \('methods', None\)\(\)\), (\d+)\).*", s) or re.search(r"'methods'.*?, (\d+)\)", s) or re.fullmatch(r'.*self\.methods.*?\[(\d+)\].*', s)
        return int(m.group(1)) if m else None

    def exception(self, w, key, p, e):
        """after the call nothing but logging happens before the exception is dealt with"""
        c = self.c
        i = p.evs.index(e)
        rest = [x for x in p.evs[i + 1:] if x.kind == 'jni' or x.kind == 'call' and rown.last_seg(x.e[1]) == 'vf_conv']
        first = rest[0] if rest else None
        if not c.require(first is not None and first.name in ('ExceptionCheck', 'ExceptionOccurred'), EXC, w, 'check/' + key, '%s: %s follows the call of Java before it is checked for an exception' % (w, first.name or 'a conversion' if first else 'nothing')):
            return
        env = e.e[2][1]
        yes, no = outcome(p.p.facts, first.id)
        for k, v in p.p.facts.items():
            if first.name == 'ExceptionOccurred' and k[:2] == ('fn', 'is_null') and is_call(k[2], first.id):
                yes, no = (0, no) if v in (1, '1') else (None, no | {0})
        if yes == 0:
            return
        if yes is None and 0 not in no:
            c.violation(EXC, 'branch/' + key, '%s: whether an exception is pending is not decided on the result of %s' % (w, first.name))
            return
        seq = [x for x in rest[1:]]
        names = []
        for x in seq:
            if x.name in ('ExceptionDescribe', 'ExceptionClear'):
                names.append(x.name)
                if x.name == 'ExceptionClear':
                    break
            elif x.name == 'DeleteLocalRef':
                continue
            else:
                break
        c.require(names == ['ExceptionDescribe', 'ExceptionClear'], EXC, w, 'clear/' + key, '%s: after an exception the glue does %s before anything else' % (w, ', '.join(names) or 'nothing'))
        c.require(all(x.e[2][1] == env for x in rest if x.name and x.name.startswith('Exception')), EXC, w, 'env/' + key, '%s: the exception is handled in another environment' % w)

    def environment(self, w, key, p, q):
        """value of the environment on the path, None if there is none"""
        c = self.c
        vmf = lambda e: e.name in ('GetEnv', 'AttachCurrentThread', 'AttachCurrentThreadAsDaemon', 'DetachCurrentThread')
        get = [e for e in p.evs if e.name == 'GetEnv']
        att = [e for e in p.evs if (e.name or '').startswith('AttachCurrentThread')]
        det = [e for e in p.evs if e.name == 'DetachCurrentThread']
        use = [e for e in p.evs if e.kind == 'jni' and not vmf(e)]
        ok = all(show(e.e[2][1]) == '*self.java_vm' for e in get + att + det)
        c.require(ok, ENV, w, 'vm/' + key, '%s: the environment is asked of another virtual machine than that of the callback' % w)
        if not get:
            # attaching an attached thread does nothing, but then nothing may detach it
            c.violation(ENV, 'get/' + key, '%s does not ask whether the thread is attached' % w)
            return None
        yes, no = outcome(p.p.facts, get[-1].id)
        src = None
        if yes == 0:
            src = get[-1]
            c.require(not att and not det, ENV, w, 'attached/' + key, '%s: a thread that is attached is %s' % (w, 'detached' if det else 'attached again'))
        elif yes == -2:
            if not c.require(len(att) == 1, ENV, w, 'attach/' + key, '%s: a thread that is not attached is attached %d times' % (w, len(att))):
                return None
            y2, n2 = outcome(p.p.facts, att[0].id)
            if y2 == 0:
                src = att[0]
                c.require(len(det) == 1 and all(p.evs.index(x) < p.evs.index(det[0]) for x in use) and self.last_conv(p) < p.evs.index(det[0]), ENV, w, 'detach/' + key,
                          '%s: a thread attached for the call is detached %d times%s' % (w, len(det), ' before the last use of its environment' if det else ''))
            elif 0 in n2:
                c.require(not det and not use, ENV, w, 'failed/' + key, '%s: the environment is used although the thread could not be attached' % w)
                return None
            else:
                c.violation(ENV, 'attres/' + key, '%s: the result of attaching the thread is not looked at' % w)
                return None
        else:
            c.violation(ENV, 'getres/' + key, '%s goes on with a thread that is neither attached nor detached' % w)
            return None
        for e in use:
            if not c.require(self.is_out(e.e[2][1], src.id), ENV, w, 'env/' + key, '%s: %s uses the environment %s, not the one of the current thread' % (w, e.name, show(e.e[2][1])[:80])):
                break
        return src

    def last_conv(self, p):
        return max([i for i, e in enumerate(p.evs) if e.kind == 'call' and rown.last_seg(e.e[1]) == 'vf_conv'] or [-1])

    def life(self, m):
        """the destructor of the callback object"""
        c = self.c
        fs = [f for f in m.all_fns if f.short.split('#')[0] == 'drop' and f.f.params and 'JavaCallback' in (f.f.types.get(f.f.params[0]) or '')]
        if len(fs) != 1 or fs[0].err:
            c.violation('analysis', 'drop', 'the destructor of JavaCallback cannot be followed: %s' % (fs[0].err if fs else 'not found'))
            return
        self.nfn += 1
        for p in fs[0].paths:
            self.paths += 1
            self.environment('JavaCallback::drop', 'drop', p, {})

    # ------------------------------------------------------------ directions
    def mapping(self):
        """the types of a callback's arguments go out, its result comes in"""
        c = self.c
        calls = []

        def mt(ev, a):
            calls.append((keyof(a[1]), keyof(a[2])))
            return var('Ok', Sym('mapped(%s,%s)' % (keyof(a[1]), keyof(a[2]))))
        try:
            ev = TEval(self.src, inline_files=lambda f: f == 'java_jni/finterface.rs', overrides={'map_type': mt})
            ev.run(self.src.fn('find_suitable_ftypes_for_interace_methods', 'java_jni/finterface.rs'))
        except KeyError:
            return
        except Exception as x:
            c.violation('analysis', 'mapping', 'the types of callbacks cannot be determined: %s' % str(x)[:300])
            return
        self.dirs = calls
        for k, d in calls:
            inp = '.inputs' in k
            c.require(d.endswith('Outgoing') == inp and d.endswith('Incoming') != inp, MAP, k[:120], 'dir/' + ('arg' if inp else 'ret'), 'the %s of a callback is mapped as %s' % ('argument' if inp else 'result', d))


def run():
    c = Check('P24', 'path-sensitive analysis of the Rust code generated for callback interfaces (MIR), against the compiled Java interface and the JNI specification')
    P24(c)
    return c.finish(['conversions of arguments and results are the subject of P15 to P18; here they are stand-ins', 'the Java virtual machine behaves as the JNI specification says', 'panics are not followed'])
