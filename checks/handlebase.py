"""Rust glue of a sample class for every kind of self type, compiled and read as paths (for the checks of object handles)."""
import re
from concurrent.futures import ThreadPoolExecutor
import rast, rown, cppglue, jniglue, rustcls
from rown import show, strip_path, Unsupported

CPP_TRAIT = '''
#[macro_export]
macro_rules! swig_c_str { ($e:expr) => { concat!($e,"\\0") as *const str as *const ::std::os::raw::c_char } }
'''
STAND = ('vf_conv', 'vf_self', 'vf_arg', 'vf_selfarg', 'vf_none')
norm = lambda t: re.sub(r'\s+', '', t)
KEEPW = r'\b(?:mut|const|dyn|impl)\b\s*'


def tynorm(t):
    """type with module paths, lifetimes and spaces removed"""
    t = re.sub(r"'\w+\s*", '', t)
    t = re.sub(r'\b(?:\w+\s*::\s*)+(?=\w)', '', t)
    t = re.sub(r'\s+', ' ', t).strip()
    return re.sub(r'\s*([<>,&*:])\s*', r'\1', t)


def pointee(t):
    t = tynorm(t)
    m = re.match(r'(?:\*(?:const|mut) |&(?:mut )?)(.*)$', t)
    return m.group(1) if m else None


class Fn:
    def __init__(self, name, role, where, f, paths, frm=None, to=None):
        self.name, self.role, self.where, self.f, self.paths, self.frm, self.to = name, role, where, f, paths, frm, to


class Conf:
    """one self type with one set of derives in one backend"""

    def __init__(self, src, lang, this, slf, derive, base):
        self.lang, self.this, self.slf, self.derive = lang, this, slf, derive
        self.label = '%s, class of %s%s' % ({'cpp': 'C++', 'java': 'Java'}[lang], this, ' with derive(%s)' % ', '.join(derive) if derive else '')
        self.key = '%s/%s/%s' % (lang, norm(this), '+'.join(derive))
        self.cls = c = rustcls.Cls(src, this, slf, lang, derive)
        pt = rustcls.ptr_of(this)[1]
        ms = [('m0', 'Constructor', dict(arg='VfOther')), ('m1', 'Method', dict(ro=False, arg=this, ret=this)),
              ('m2', 'StaticMethod', dict(arg="&'static " + pt, ret="&'static " + pt)), ('m3', 'Method', {})]
        if lang == 'cpp':
            ms.append(('m4', 'Constructor', {}))
        alts, self.model = c.rust(ms)
        rt, meta = c.rule_fns()
        self.meta = {n: (f, t) for n, f, t in meta}
        self.fns, self.msg = [], None
        for n, (cond, ts) in enumerate(alts):
            g, msg = rown.compile_mir(base + '\n'.join(ts) + rt + (jniglue.globals_of(''.join(ts)) if lang == 'java' else ''), name='h_%s' % re.sub(r'\W', '_', self.key), extra=jniglue.flags() if lang == 'java' else ())
            if g is None:
                self.msg = msg
                return
            self.read(g, base)

    def read(self, g, base):
        start = base.count('\n')
        it = rown.Interp(g, inline=lambda h: not rown.last_seg(h.name).startswith('vf_'))
        for name, f in sorted(g.fns.items()):
            last = rown.last_seg(name)
            if last in STAND or '{closure' in name:
                continue
            m = re.search(r'<impl at [^:]*:(\d+)', name)
            if m and int(m.group(1)) <= start or not m and not re.match(r'(?:private_)?Foo_|Java_|vf_rule', last):
                continue
            if m and ' SwigForeignClass ' not in g.lines[int(m.group(1)) - 1].replace('for', ' for'):
                continue
            frm, to = self.meta.get(last, (None, None))
            role = self.role(last, frm, to)
            if role is None:
                continue
            where = 'the conversion of %s to %s' % (frm, to) if frm else {'box_object': 'box_object', 'unbox_object': 'unbox_object'}.get(last, last)
            try:
                ps = it.run(f)
            except Unsupported as e:
                ps = str(e)
            self.fns.append(Fn(last, role, where, f, ps, frm, to))

    def role(self, last, frm, to):
        if frm is not None:
            h = lambda t: norm(t) == 'jlong' or norm(t).endswith('c_void')
            if norm(to) == norm(self.this) and (h(frm) or pointee(frm)):
                clone = 'Copy' in self.derive or 'SmartPtrCopy' in self.derive
                return 'clone' if self.lang == 'java' and clone else 'take'
            if norm(frm) == norm(self.this) and h(to):
                return 'give'
            if norm(frm) == norm(self.this) and norm(to) == 'jobject':
                return 'object'
            return 'borrow'
        if last == 'box_object':
            return 'give'
        if last == 'unbox_object':
            return 'take'
        if last == 'to_pointer':
            return 'borrow'
        if last.endswith('_delete') or last.endswith('_do_delete'):
            return 'free'
        if last.startswith('private_') and last.endswith('_clone'):
            return 'clone'
        if last in ('Foo_n_m0', 'Foo_n_m4', 'Java_init'):
            return 'give'
        if re.search(r'_m[123]$', last):
            return 'method'
        return None


def confs(src, langs=('cpp', 'java')):
    cg = cppglue.plain_items(open(src.root + '/cpp/cpp-include.rs').read()) if 'cpp' in langs else ''
    bases = {}
    if 'cpp' in langs:
        bases['cpp'] = rustcls.PRELUDE + CPP_TRAIT + cg
    if 'java' in langs:
        bases['java'] = jniglue.JniGlue(src).base + rustcls.PRELUDE[rustcls.PRELUDE.index('#[derive'):]
    todo = []
    for lang in langs:
        for this, slf in rustcls.THIS:
            sp = rustcls.ptr_of(this)[0]
            ds = [()] + ([('SmartPtrCopy',)] if sp else [('Clone', 'Copy')] if this == slf else [])
            if lang == 'cpp' and sp == 'Box':
                ds = [()]       # such a C++ class does not compile: Box::from_raw needs a mutable pointer
            if lang == 'java' and not sp and this == slf:
                ds.append(('Clone', 'SmartPtrCopy'))
            todo += [(lang, this, slf, d) for d in ds]
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(lambda t: Conf(src, *t, bases[t[0]]), todo))
