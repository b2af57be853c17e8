"""P17: a handle coming from foreign code is checked before it is dereferenced."""
import re
from core import Check
import handlebase as H
from handlebase import tynorm, pointee, show
import rast, rown, cppglue, jniglue, jnispec, clsmodel
from cppbase import FLAGS, PRE
from cppown import DRIVER, driver
from llvmir import compile_ir, Module, State, Interp, K, A, decide, CompileError, Unknown

CLS = 'the glue of a class checks a handle before it uses it'
GEN = 'built-in glue checks a pointer to an object before it uses it'
JNI = 'built-in JNI glue passes no null reference to a function that does not accept it'
CTOR = 'a C++ object is constructed only from a handle that is not null'
REL = 'the C++ class releases and copies only a handle that is not null'


def checked(facts, v):
    """is v known to be non-null (not zero)?"""
    if facts.get(('fn', 'is_null', v)) == 0:
        return True
    for k, x in facts.items():
        if isinstance(k, tuple) and k[:2] == ('fn', 'eq') and x == 0 and len(k) == 4 and v in k[2:]:
            o = k[2] if k[3] == v else k[3]
            if o in (('c', '0'), ('c', 0), ('int', 0)) or show(o).strip() in ('0', '0_i64', '0_isize'):
                return True
    return False


def uses(p):
    """dereferences and take-backs on a path: (operation, pointer, facts known there)"""
    for e in p.events:
        if e[0] == 'deref':
            yield 'dereference', e[1], e[2]
        elif e[0] == 'from_raw':
            yield 'taking back', e[3], e[4]
        elif e[0] == 'call' and e[1] in ('vf_unbox_object', 'vf_to_pointer') and e[2]:
            yield 'taking back' if 'unbox' in e[1] else 'dereference', e[2][0], e[6]


def plumbing(v, guards=()):
    """the JNI environment, the virtual machine and caches, which the platform guarantees"""
    s = show(v)
    return re.fullmatch(r'\**\(?\**(?:self\.)*(?:\w+\.)*(env|java_vm|vm|jvm)\)?', s) is not None or 'alloc' in s or s.startswith('&') or re.fullmatch(r'\**self(?:\.\w+)*', s) is not None or \
        any(re.fullmatch(r'\**%s(?:\.\w+)+' % g, s) for g in guards)


class P17:
    def __init__(self, c):
        self.c = c
        self.src = src = rast.Source()
        self.classes(H.confs(src))
        self.builtin()
        self.wrapper()
        c.floor(CLS, 60)
        c.floor(GEN, 5)
        c.floor(JNI, 20)
        c.floor(CTOR, 4)
        c.floor(REL, 12)

    def classes(self, cs):
        c = self.c
        c.analysed('kinds of class (self type, derives, backend) analysed', len(cs))
        for k in cs:
            if k.msg is not None or not k.fns:
                c.violation('analysis', k.key, 'the glue of a %s does not compile with stand-ins: %s' % (k.label, (k.msg or '')[:600]))
                continue
            for f in k.fns:
                key = '%s/%s' % (k.key, norm_name(f))
                if isinstance(f.paths, str):
                    c.violation('analysis', key, '%s: %s cannot be analysed: %s' % (k.label, f.where, f.paths))
                    continue
                # the C++ wrapper calls these only with a handle it has checked (rule REL); the in-place conversion runs after the checked one
                if k.lang == 'cpp' and (f.name in ('Foo_delete', 'private_Foo_clone', 'unbox_object') or f.frm is not None and tynorm(f.frm).startswith('*mut ') and 'c_void' not in f.frm):
                    continue
                handles = {('p', f.f.debug.get(l) or 'arg%d' % i) for i, l in enumerate(f.f.params)}
                for p in f.paths:
                    for what, v, facts in uses(p):
                        if plumbing(v) or v not in handles:
                            continue
                        c.require(checked(facts, v), CLS, '%s: %s' % (k.label, f.where), key, '%s: %s is %s in %s without a check for null' % (k.label, show(v), {'dereference': 'dereferenced', 'taking back': 'taken back'}[what], f.where))

    def builtin(self):
        c = self.c
        for nm, G, ex in (('cpp-include.rs', cppglue.CppGlue(self.src), ()), ('jni-include.rs', jniglue.JniGlue(self.src), jniglue.flags())):
            g, msg = rown.compile_mir(G.text, name='p17g', extra=ex)
            if g is None:
                c.violation('analysis', nm, 'the Rust half of %s does not compile with stand-in types: %s' % (nm, msg[:800]))
                continue
            rules = {r.name: r for r in G.rules}
            it = rown.Interp(g, inline=lambda h: not rown.last_seg(h.name).startswith('vf_'), unroll=2)
            for name, f in sorted(g.fns.items()):
                l = rown.last_seg(name)
                if l.startswith('vf_') and l not in rules or '{closure' in name or '<impl' in name:
                    continue
                r = rules.get(l)
                where = 'the conversion of %s to %s (%s:%d)' % (r.frm, r.to, nm, r.rule.line) if r else '%s (%s)' % (l, nm)
                key = '%s/%s' % (nm, '%s=>%s' % (tynorm(r.frm), tynorm(r.to)) if r else l)
                try:
                    ps = it.run(f)
                except rown.Unsupported as e:
                    if re.search(r'Foreign|VfFoo|jobject|jstring', ' '.join(f.types.values())):
                        c.violation('analysis', key, '%s cannot be analysed: %s' % (where, e))
                    continue
                # parameters that are guard structs of the glue: their constructor has checked what they hold
                guards = [f.debug.get(l) for l in f.params if g.defs.get(f.types.get(l) or '', ('',))[0] == 'Struct']
                for p in ps:
                    for what, v, facts in uses(p):
                        if not plumbing(v, guards) and v[0] != 'cast':
                            c.require(checked(facts, v), GEN, where, key + '/' + what, '%s: %s of %s without a check for null' % (where, what, show(v)[:120]))
                    if not r:
                        continue
                    for e in p.events:
                        j = jnispec.jni_call(e)
                        if not j:
                            continue
                        for i, (t, a) in enumerate(zip(j[0].params, j[1])):
                            if t in jnispec.OBJ and i not in jnispec.MAYNULL.get(j[0].name, ()):
                                if 'alloc' in show(a) or plumbing(a, guards):
                                    continue
                                c.require(checked(e[6], a), JNI, where, '%s/%s/%d' % (key, j[0].name, i), '%s: argument %d of %s, %s, may be null' % (where, i + 1, j[0].name, show(a)[:120]))

    def wrapper(self):
        c = self.c
        ctor, clone = ('m0', 'Constructor', 'new', {}), ('m1', 'Method', 'clone', dict(out_c='FooOpaque *', out_cpp='Foo'))
        for derive, ms in (([], [ctor]), (['Copy'], [ctor, clone]), (['SmartPtrCopy'], [ctor]), (['PlainClass'], [ctor]), (['PlainClass', 'Copy'], [ctor, clone]),
                           (['PlainClass', 'SmartPtrCopy'], [ctor])):
            for separate in (False, True):
                what = 'class wrapper (%s%s)' % (' '.join(derive) or 'no derive', ', separate headers' if separate else '')
                fs, model = clsmodel.files(self.src, derive, ms, separate=separate)
                if separate and derive != ['Copy']:
                    continue
                variants = {}
                for path, text, asg in fs:
                    variants.setdefault(tuple(sorted(asg.items())), {})[path] = text
                common = variants.pop((), {})
                for asg, part in (variants or {(): {}}).items():
                    self.one(what, dict(common, **part), 'Copy' in ''.join(derive))

    def one(self, what, fmap, copies):
        c = self.c
        ch = ''.join(t for n, t in fmap.items() if n.endswith('.h'))
        # functions that receive a handle: the release function and the clone functions of the class
        decl = re.findall(r'^[ \t]*(void|FooOpaque ?\*)\s*(\w+)\((.*?)\);', ch, re.M | re.S)
        take = {n for r, n, a in decl if 'FooOpaque' in a}
        make = {n for r, n, a in decl if r != 'void' and not a.strip()}
        main = '#include "Foo.hpp"\n' + ('#include "Foo_impl.hpp"\n' if 'Foo_impl.hpp' in fmap else '') + PRE
        f = dict(fmap)
        f['main.cc'] = DRIVER + main + driver('cw', 'vfns::Foo', 'FooOpaque *')
        try:
            mod = Module(compile_ir('p17', f, FLAGS + ['-UNDEBUG'], 'c++17'))
        except CompileError as e:
            c.violation('analysis', what, 'macroslib/src/cpp/fclass.rs: %s does not compile: %s' % (what, str(e)[:600]))
            return
        it = Interp(mod)
        h, h2 = A(('handle', 1)), A(('handle', 2))
        ad = lambda o: A(('addr', o))
        ops = [('cw_dflt', ['r']), ('cw_mctor', ['r', 'a']), ('cw_cctor', ['r', 'a']), ('cw_massign', ['a', 'b']), ('cw_cassign', ['a', 'b']), ('cw_dtor', ['a'])]
        for fn, args in ops:
            s = State()
            s.mem['r'], s.mem['a'], s.mem['b'] = {}, {0: (8, h)}, {0: (8, h2)}
            for o in 'rab':
                s.mode[o] = 'uninit'
            key = what + '/' + fn[3:]
            try:
                ps = [p for p in it.run(fn, s, [ad(o) for o in args])]
            except Unknown as e:
                c.violation('analysis', key, '%s: %s cannot be analysed: %s' % (what, fn[3:], e))
                continue
            if fn == 'cw_dflt':
                for p in ps:
                    if p.end != 'ret':
                        continue
                    for z, v in p.mem['r'].values():
                        if any(isinstance(x, tuple) and x[0] == 'addr' for x in v.atoms()):
                            continue
                        c.require(decide(p.facts, 'eq', v, K(0)) is False, CTOR, what, key, 'macroslib/src/cpp/fclass.rs: %s: the constructor returns with a handle that it has not checked for null' % what)
                continue
            for p in ps:
                for e in p.events:
                    if e.name in take:
                        for a in e.args:
                            if not any(isinstance(x, tuple) and x[0] == 'handle' for x in a.atoms()):
                                continue
                            c.require(decide(p.facts, 'eq', a, K(0)) is False, REL, '%s: %s in %s' % (what, e.name, fn[3:]), key + '/' + e.name,
                                      'macroslib/src/cpp/fclass.rs: %s: %s calls %s with a handle that may be null' % (what, {'mctor': 'move construction', 'cctor': 'copy construction', 'massign': 'move assignment', 'cassign': 'copy assignment', 'dtor': 'destruction'}[fn[3:]], e.name))


def norm_name(f):
    return '%s=>%s' % (tynorm(f.frm), tynorm(f.to)) if f.frm is not None else f.name


def run():
    c = Check('P17', 'dominating null checks on the MIR paths of generated and built-in glue and the LLVM IR paths of the C++ class')
    P17(c)
    return c.finish(['the JNI environment pointer given by the virtual machine is valid', 'classes are represented by eight kinds of self type and samples of each kind of method'])
