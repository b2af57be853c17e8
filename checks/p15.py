"""P15: buffers handed across the C++ border are rebuilt from the same parts once."""
import re
from core import Check
from cppbase import *
import tmacro
import rast, cppglue, rown
from rown import show, Unsupported, strip_path

APART = 'parts describe the buffer they were taken from'
KEEP = 'a buffer handed out is kept alive (forgotten once, never freed)'
BUILD = 'a buffer is rebuilt from pointer, length and capacity of one object'
ELEM = 'element type and stride are those of the declared type'
ONCE = 'a rebuilt buffer is freed, returned or given back exactly once'
ROLE = 'the function does what its C++ caller relies on'
NULL = 'no buffer is rebuilt from the null pointer of an empty C++ object'
CUR = 'after an in-place change the stored parts are the current ones'

OWNING = ('Vec', 'String')
EMPTY = {'Vec::new', 'String::new', 'std::vec::Vec::new', 'std::string::String::new', '<Vec as Default>::default', '<String as Default>::default'}


def parts_struct(g, name):
    d = g.defs.get(name)
    return d and d[0] == 'Struct' and {'data', 'len'} <= set(d[1]) and set(d[1]) <= {'data', 'len', 'capacity', 'step'}


def aggs(g, v, out):
    if isinstance(v, tuple):
        if len(v) == 4 and v[0] == 'agg' and parts_struct(g, v[1]):
            out.append(v)
            return out
        for x in v:
            aggs(g, x, out)
    return out


def root(v):
    """object a value describes, seen through in-place changes"""
    while v[0] == 'mut':
        v = v[3]
    return v


def versions(v):
    out = [v]
    while v[0] == 'mut':
        v = v[3]
        out.append(v)
    return out


class P15:
    def __init__(self, c):
        self.c = c
        self.src = rast.Source()
        self.glue = cppglue.CppGlue(self.src)
        self.g, msg = rown.compile_mir(self.glue.text, name='p15')
        if self.g is None:
            c.violation('compile', 'cpp-include.rs', 'the Rust half of cpp-include.rs does not compile with stand-in types: ' + msg[:1500])
            return
        self.rules = {r.name: r for r in self.glue.rules}
        n = 0
        for name, f in sorted(self.g.fns.items()):
            last = rown.last_seg(name)
            if last.startswith('vf_') and last not in self.rules or '{closure' in name or '>::clone' in name and '<impl' in name:
                continue
            n += 1
            self.fn(name, f)
        c.analysed('functions and conversion rules of the Rust half', n)
        self.hpp()
        c.floor(APART, 12)
        c.floor(BUILD, 14)
        c.floor(KEEP, 6)
        c.floor(ONCE, 9)
        c.floor(CUR, 2)
        c.floor(ROLE, 5)

    def where(self, name):
        last = rown.last_seg(name)
        r = self.rules.get(last)
        if r:
            return 'the conversion of %s to %s (cpp-include.rs:%d)' % (r.frm, r.to, r.rule.line), '%s %s %s' % (re.sub(r'\s+', '', r.frm), '=>', re.sub(r'\s+', '', r.to))
        n = re.sub(r'<impl at [^>]*>', '', name).strip(':')
        m = re.search(r'<impl at [^:]*:(\d+)', name)
        if m:
            line = self.g.lines[int(m.group(1)) - 1]
            n = re.sub(r'.*\bimpl\b(<[^>]*>)?\s*', '', line).split('{')[0].strip() + '::' + rown.last_seg(name)
        return '%s (cpp-include.rs)' % n, n

    def fn(self, name, f):
        text = '\n'.join(map(str, [t.text for _, t in f.blocks.values()])) if False else ''
        c = self.c
        where, key = self.where(name)
        it = rown.Interp(self.g, inline=lambda h: not rown.last_seg(h.name).startswith('vf_'))
        try:
            ps = it.run(f)
        except Unsupported as e:
            if self.relevant(f):
                c.violation('analysis', key, '%s cannot be analysed: %s' % (where, e))
            return
        r = self.rules.get(rown.last_seg(name))
        for p in ps:
            self.path(where, key, f, r, p)

    def relevant(self, f):
        for ss, t in f.blocks.values():
            if t.kind == 'call' and re.search(r'from_raw_parts|forget|into_raw|ManuallyDrop', t.callee or ''):
                return True
        return False

    def ptypes(self, f):
        return [f.types.get(l, '?') for l in f.params]

    def path(self, where, key, f, r, p):
        c = self.c
        pt = [strip_path(t) for t in self.ptypes(f)]
        ret_ty = strip_path(f.types.get(0, '?'))
        if r:
            pt, ret_ty = [strip_path(r.frm)], strip_path(r.to)
        ev = p.events
        forgot = [e[1] for e in ev if e[0] == 'forget']
        drops = [e[1] for e in ev if e[0] == 'drop']
        sinks = [e[2][0] for e in ev if e[0] == 'call' and e[1] == 'vf_sink'] if r else [p.ret]
        built = [e for e in ev if e[0] == 'from_parts']
        cond = '' if not p.facts else ' when ' + ', '.join('%s = %s' % (show(k), v) for k, v in p.facts.items() if isinstance(v, int))[:200]
        # ---- parts made here
        made = []
        for v in sinks:
            aggs(self.g, v, made)
        stored = {}
        for e in ev:
            if e[0] != 'store':
                continue
            ptr, path, v = e[1:4]
            if len(path) == 1 and path[0] in ('data', 'len', 'capacity', 'step'):
                stored.setdefault(ptr, {})[path[0]] = v
            elif not path and v[0] == 'agg' and parts_struct(self.g, v[1]):
                stored[ptr] = dict(v[3])
        for a in made:
            self.apart(where, key, dict(a[3]), self.g.defs[a[1]][1], p, forgot, drops, pt, r, cond, a[1])
        # ---- in-place change of parts behind a pointer
        for ptr, fs in stored.items():
            src = {root(e[3][0][1][1])[1] if False else e for e in ()}
            self.inplace(where, key, ptr, fs, p, built, forgot, drops, cond)
        # ---- buffers rebuilt here
        for e in built:
            kind, ty, args, facts = e[1], e[2], e[3], e[4]
            names = ('data', 'len', 'capacity') if kind in OWNING else ('data', 'len')
            objs = []
            bad = None
            for n, a in zip(names, args):
                if a[0] == 'fld' and a[2] == n:
                    objs.append(a[1])
                else:
                    bad = (n, a)
            ok = bad is None and len(args) == len(names) and all(o == objs[0] for o in objs)
            c.require(ok, BUILD, key, key, '%s: %s rebuilds a %s from %s; it must use data, len%s of the same object' % (
                where, e[5], kind, ', '.join(show(a) for a in args), ' and capacity' if kind in OWNING else ''))
            v = ('parts', kind) + tuple(args)
            ety = strip_path(re.sub(r"'\w+\s*,?\s*", '', ty or ''))
            want = self.elem(r, f, pt, ret_ty)
            if kind != 'String' and want is not None:
                c.require(ety == want, ELEM, key, key + '/built', '%s: the buffer is rebuilt with element type %s although its elements are %s' % (where, ety, want))
            role_free = not r and ret_ty in ('()', '') and len(pt) == 1
            ptr = args[0]
            if not role_free and not (kind == 'Vec' and self.dangling(pt, r)):
                okn = facts.get(('fn', 'is_null', ptr)) == 0 or (len(args) > 1 and (facts.get(args[1]) not in (None, 0) or facts.get(rown.eq(('c', '0'), args[1])) == 0
                                                                 or '0' in facts.get(('not', args[1]), ())))
                c.require(okn, NULL, key, key, '%s rebuilds a %s although the pointer may be null with length 0 (empty C++ object): %s' % (where, kind, show(v)))
            if kind in OWNING:
                vs = [x for x in forgot if root(x) == v]
                dr = [x for x in drops if root(x) == v]
                out = [x for x in sinks if self.contains_owned(x, v)]
                n = len(vs) + len(dr) + len(out)
                c.require(n == 1, ONCE, key, key, '%s: the %s rebuilt from the parts is %s%s' % (
                    where, kind, 'never freed, returned or given back' if n == 0 else 'disposed of %d times (%d freed, %d given back, %d returned)' % (n, len(dr), len(vs), len(out)), cond))
                if role_free:
                    c.require(len(dr) == 1, ROLE, key, key, '%s must free the buffer, but %s' % (where, 'gives it back' if vs else 'does not' + cond))
                elif r:
                    c.require(len(out) == 1, ROLE, key, key, '%s must pass the rebuilt buffer on%s' % (where, cond))
                elif len(vs) == 1 and not stored and not made:
                    c.violation(ROLE, key, '%s rebuilds a buffer only to forget it%s' % (where, cond))
                elif pt and pt[0] == ret_ty:
                    # clone: the argument stays valid, the result is a buffer of its own
                    own = [a for a in made if dict(a[3]).get('data', ('',))[0] == 'fn']
                    c.require(len(vs) == 1 and own, ROLE, key, key, '%s must leave its argument alone and return parts of a new buffer%s' % (where, cond))
        if not r and pt and pt[0] == ret_ty and parts_struct(self.g, ret_ty) and not built:
            self.c.require(made or any(k[:2] == ('fn', 'is_null') and v == 1 for k, v in p.facts.items()), ROLE, key, key,
                           '%s returns its own argument as if it were a new buffer%s' % (where, cond))
        self.objects(where, key, f, pt, ret_ty, p, built, cond)

    def objects(self, where, key, f, pt, ret_ty, p, built, cond):
        """element handles going in and out of a vector of objects"""
        ev = [e for e in p.events if e[0] == 'call']
        ub = [e for e in ev if e[1].endswith('unbox_object')]
        bx = [e for e in ev if e[1].endswith('box_object') and not e[1].endswith('unbox_object')]
        if not built or not (ub or bx or any(t.startswith('*mut') for t in pt)):
            return
        name = rown.last_seg(f.name)
        elemp = [('p', f.debug.get(l)) for l, t in zip(f.params, pt) if t.replace(' ', '') == '*mutc_void']
        if not elemp:
            self.c.require(not ub, ROLE, key, key + '/none', '%s takes an object out of a handle it was not given%s' % (where, cond))
        if elemp:
            ok = len(ub) == 1 and ub[0][2] == (elemp[0],)
            grown = [e for e in ev if any(root(a)[0] == 'parts' for a in e[2]) and ub and any(a[0] == 'call' and a[2].endswith('unbox_object') for a in e[2])]
            self.c.require(ok and len(grown) == 1, ROLE, key, key + '/in', '%s must take the object out of the handle it was given once and put it into the vector (%d unboxings, %d insertions)%s' % (
                where, len(ub), len(grown), cond))
        if ret_ty.replace(' ', '') == '*mutc_void':
            ok = len(bx) == 1 and bx[0][2][0][0] == 'call' and any(root(a)[0] == 'parts' for a in bx[0][2][0][3]) and p.ret[0] == 'call' and p.ret[2].endswith('box_object')
            self.c.require(ok, ROLE, key, key + '/out', '%s must return a handle of the object it took out of the vector, once%s' % (where, cond))

    def contains_owned(self, x, v):
        if root(x) == v if isinstance(x, tuple) and x else False:
            return True
        if isinstance(x, tuple) and x and x[0] == 'agg':
            return any(self.contains_owned(y, v) for _, y in x[3])
        return False

    def dangling(self, pt, r):
        t = pt[0] if pt else ''
        return re.search(r'CRustForeignVec|CRustVec(?!Access)', t) is not None

    def elem(self, r, f, pt, ret_ty):
        if r:
            t = strip_path(r.frm if r.rule.dir == '=>' else r.to)
            m = re.search(r"(?:Vec<|\[)(\w+)[>\]]", t)
            return m.group(1) if m else 'u8' if 'str' in t else None
        m = re.search(r"(?:Vec<|\[)(\w+)[>\]]", ret_ty) or re.search(r"(?:Vec<|\[)(\w+)[>\]]", ' '.join(pt))
        if m:
            return m.group(1)
        if '<' not in f.name and not self.g.gens.get(rown.last_seg(f.name)):
            # functions of define_c_type: declared for the stand-in element types
            n = rown.last_seg(f.name)
            return 'VfElem' if 'VfElem' in n else 'VfFoo' if 'Foo' in n else None
        gens = self.g.gens.get(rown.last_seg(f.name))
        return gens[0] if gens else None

    def apart(self, where, key, a, fields, p, forgot, drops, pt, r, cond, name):
        c = self.c
        owner = 'capacity' in fields
        d = a.get('data')
        if d is None:
            return
        if all(v[0] == 'fld' for v in a.values()):
            same = {repr(v[1]) for v in a.values()}
            c.require(len(same) == 1 and all(v[2] == k for k, v in a.items()), APART, key, key, '%s mixes parts: %s' % (where, {k: show(v) for k, v in a.items()}))
            return
        v = d[2] if d[0] == 'fn' and d[1] == 'ptr' else None
        want = {'data': ('fn', 'ptr', v), 'len': ('fn', 'len', v), 'capacity': ('fn', 'capacity', v)}
        bad = [k for k in fields if k in want and a.get(k) != want[k]] if v is not None else ['data']
        c.require(not bad, APART, key, key, '%s: %s of %s %s %s instead of the %s of the buffer%s' % (
            where, '/'.join(bad), name, 'is', ', '.join(show(a.get(k)) for k in bad if a.get(k)), '/'.join(dict(data='pointer').get(k, k) for k in bad), cond))
        if 'step' in fields:
            s = a.get('step')
            w = self.elem(r, None, pt, '') if r else None
            c.require(s and s[0] == 'fn' and s[1] == 'size_of' and (w is None or strip_path(s[2]) == w), ELEM, key, key + '/step',
                      '%s: the stride of %s is %s instead of the size of one %s' % (where, name, show(s) if s else '?', w))
        if owner and v is not None:
            vs = versions(v)
            n = sum(1 for x in forgot if x == v)
            dr = sum(1 for x in drops if x in vs)
            c.require(n == 1 and dr == 0, KEEP, key, key, '%s hands out the parts of a buffer that is %s%s' % (
                where, 'freed at the end of the conversion' if dr else 'never forgotten' if n == 0 else 'forgotten %d times' % n, cond))

    def inplace(self, where, key, ptr, fs, p, built, forgot, drops, cond):
        c = self.c
        last = [x for x in forgot if root(x)[0] == 'parts']
        if len(last) != 1:
            c.violation(CUR, key, '%s changes stored parts but keeps %d rebuilt buffers alive%s' % (where, len(last), cond))
            return
        v = last[0]
        o = root(v)
        obj = o[2][1] if o[2][0] == 'fld' else None
        c.require(obj == ('deref', ptr), CUR, key, key + '/object', '%s stores parts into %s but rebuilt the buffer from %s%s' % (where, show(ptr), show(obj or o), cond))
        names = ['data', 'len'] + (['capacity'] if len(o) > 4 else [])
        want = {'data': ('fn', 'ptr', v), 'len': ('fn', 'len', v), 'capacity': ('fn', 'capacity', v)}
        for k in names:
            c.require(fs.get(k) == want[k], CUR, '%s %s' % (key, k), key + '/' + k, '%s leaves %s in the C++ object as %s instead of the %s after the change%s' % (
                where, k, show(fs[k]) if k in fs else 'the old value', dict(data='pointer').get(k, k), cond))

    def hpp(self):
        """C++ side: the vectors rebuilt without a null check never carry the null pointer; the string frees only non-null data"""
        from p14 import Unit, ad
        c = self.c
        mods = cstructs()
        files = dict(headers())
        for m in ('rust_slice.h', 'rust_slice_mut.h', 'rust_vec.h'):
            files[m] = guard('\n'.join(t for b, i, t in mods.get(m, [])))
        inst, extra = insts()
        M = maps()
        ref = '''
namespace vfns { struct vf_val { void *p; explicit vf_val(void *q) noexcept : p(q) {} void *release() noexcept { return p; } };
struct vf_ref { using CForeignType = vf_elem; using value_type = vf_val; const vf_elem *p; explicit vf_ref(const vf_elem *q) noexcept : p(q) {} }; }
'''
        for alias, using, file, parts in (('CRustVec', 'CppRustVec', 'rust_vec_impl.hpp', None), ('CForeignVecModule', 'CForeignVecModule', 'rust_foreign_vec_impl.hpp', 'CRustForeignVec')):
            b = [x for x in M.blocks if alias in x.aliases][0]
            decl = [t for m, l in mods.items() for bb, _, t in l if bb is b][0]
            cls = 'vfns::' + M.alias(b, using, inst)
            pt = parts or M.alias(b, alias, inst)
            text = '#include "rust_slice.h"\n#include "rust_slice_mut.h"\n#include "rust_vec.h"\n' + PRE + ref + decl + '\n'.join(M.cpp(b, x['text'], inst) for x in b.code)
            text += '''
typedef %(c)s C; typedef %(p)s R;
extern "C" {
void t_fresh(R *r) { C a; R x = a.release(); r->data = x.data; }
void t_moved(R *r, const R &o) { C a(o); C b(std::move(a)); R x = a.release(); r->data = x.data; b.release(); }
void t_released(R *r, const R &o) { C a(o); a.release(); R x = a.release(); r->data = x.data; }
void t_cleared(R *r, const R &o) { C a(o); a.clear(); R x = a.release(); r->data = x.data; }
void t_assigned(R *r, const R &o) { C a(o); C b; b = std::move(a); R x = a.release(); r->data = x.data; b.release(); }
}
''' % dict(c=cls, p=pt)
            u = Unit(c, cls, file, '#include <utility>\n' + text, files, ())
            for fn in ('fresh', 'moved', 'released', 'cleared', 'assigned'):
                vals = [ad('r')] + ([ad('o')] if fn != 'fresh' else [])
                n = 0
                for nd, p in u.paths('t_' + fn, {'r': {}, 'o': {0: A('data'), 8: A('len'), 16: A('capacity')}}, vals):
                    if p.end != 'ret':
                        continue
                    n += 1
                    v = p.mem['r'].get(0, (8, None))[1]
                    k = v.const() if hasattr(v, 'const') else None
                    c.require(k not in (None, 0), NULL, '%s %s' % (file, fn), '%s/%s' % (file, fn), '%s: the data pointer of a %s vector is %s, and Rust rebuilds a Vec from it without a check' % (file, fn, v))
                if u.mod and not n:
                    c.violation(NULL, '%s/%s/none' % (file, fn), '%s: no path' % file)


def run():
    c = Check('P15', 'ownership and provenance dataflow over the MIR of every Rust conversion rule and helper of the built-in C++ type map')
    P15(c)
    return c.finish(['the conversion rules are compiled one by one with stand-in types for their type parameters',
                     'std: String/Vec from_raw_parts, as_ptr, len, capacity, mem::forget and drop do what their documentation says',
                     'functions given by users in their own type maps are not covered'])
