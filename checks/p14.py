"""P14: C++ containers address elements exactly within their bounds."""
from core import Check
from cppbase import *
from cppown import DRIVER

ADDR = 'element address is base + index * stride'
BOUND = 'index-checked access asserts the bound'
SIZE = 'size and emptiness are those of the parts'
ITER = 'iterator operation agrees with the random access laws'
PASS = 'element access goes through the declared functions with the same parts and index'


def ad(o):
    return A(('addr', o))


class Unit:
    def __init__(self, c, name, file, text, extra, flags, std='c++17'):
        self.c, self.name, self.file = c, name, file
        f = dict(extra)
        f['main.cc'] = DRIVER + text
        self.mod = {}
        self.flags = flags
        self.files = f
        self.std = std
        for nd in ('-UNDEBUG', '-DNDEBUG'):
            try:
                self.mod[nd] = Module(compile_ir('p14', f, FLAGS + [nd] + list(flags), std))
            except CompileError as e:
                c.violation('compile', name, '%s: an instantiation of %s that uses every operation does not compile: %s' % (file, name, str(e)[:1200]))

    def paths(self, fn, mem, vals, facts=()):
        for nd, m in self.mod.items():
            s = State()
            for o, cells in mem.items():
                s.mem[o] = {k: (8, v) for k, v in cells.items()}
                s.mode[o] = 'uninit'
            s.facts = list(facts)
            try:
                for p in Interp(m).run(fn, s, vals):
                    yield nd, p
            except Unknown as e:
                self.c.violation('analysis', '%s/%s' % (self.name, fn), '%s: %s cannot be analysed: %s' % (self.file, fn, e))

    def value(self, rule, op, fn, mem, vals, want, what, bound=None, facts=(), get=None):
        """every returning path yields `want`; with assertions on, only under `bound` (index < len)"""
        n = 0
        for nd, p in self.paths(fn, mem, vals, facts):
            mode = ' (NDEBUG)' if nd == '-DNDEBUG' else ''
            if p.end != 'ret':
                if p.end == 'unreachable':
                    self.c.violation(rule, '%s/%s/undefined' % (self.name, op), '%s: %s%s has undefined behaviour when %s' % (self.file, what, mode, p.facts))
                continue
            n += 1
            got = get(p) if get else p.ret
            w = want(p) if callable(want) else want
            self.c.ok(rule, '%s: %s%s' % (self.name, op, mode))
            if got != w:
                self.c.violation(rule, '%s/%s' % (self.name, op), '%s: %s%s yields %s instead of %s%s' % (
                    self.file, what, mode, got, w, ' when %s' % [f for f in p.facts if f not in facts] if p.facts else ''))
            if bound is not None and nd == '-UNDEBUG':
                i, ln = bound
                self.c.ok(BOUND, '%s: %s' % (self.name, op))
                if decide(p.facts, 'ult', i, ln) is not True:
                    self.c.violation(BOUND, '%s/%s' % (self.name, op), '%s: %s reaches the element without asserting that the index is below the length' % (self.file, what))
        if self.mod and not n:
            self.c.violation(rule, '%s/%s/never' % (self.name, op), '%s: %s never returns a value' % (self.file, what))
        # with assertions on an index below the length must pass
        if bound is not None:
            i, ln = bound
            ends = {p.end for nd, p in self.paths(fn, mem, vals, [('ult', i, ln, True)])}
            if ends - {'ret'}:
                self.c.violation(BOUND, '%s/%s/valid' % (self.name, op), '%s: %s fails for an index below the length' % (self.file, what))


def run():
    c = Check('P14', 'every element access and iterator operation of the C++ support headers is instantiated with an element of 12 bytes, '
              'compiled to LLVM IR and evaluated over polynomials in base, index, length and stride; the resulting address or '
              'comparison must be identical to the specified one on every path, with assertions and without')
    mods = cstructs()
    files = dict(headers())
    for m in ('rust_slice.h', 'rust_slice_mut.h', 'rust_vec.h'):
        files[m] = guard('\n'.join(t for b, i, t in mods.get(m, [])))
    data, ln, cap, step, i, n, es = [A(x) for x in ('data', 'len', 'capacity', 'step', 'i', 'n', 'ELEM_SIZE')]
    E = K(ELEM)

    # ------------------------------------------------ typed slices and vectors
    inst, extra = insts()
    M = maps()
    vb = [b for b in M.blocks if 'CRustVec' in b.aliases][0]
    decl = [t for m, l in mods.items() for bb, _, t in l if bb is vb][0]
    using = '\n'.join(M.cpp(vb, x['text'], inst) for x in vb.code)
    for name, file, cls, pre, mem in (
            ('RustVec', 'rust_vec_impl.hpp', 'vfns::' + M.alias(vb, 'CppRustVec', inst), decl + using, None),
            ('RustSlice', 'rust_slice_tmpl.hpp', 'vfns::RustSlice<vf_elem>', '', None)):
        text = '#include "%s"\n' % file + PRE + pre + '''
typedef %s C;
template <class D, class = void> struct has_mut_index : std::false_type {};
extern "C" {
const vf_elem *t_index(const C &a, size_t i) { return &a[i]; }
const vf_elem *t_index_mut(C &a, size_t i) { return &a[i]; }
const vf_elem *t_begin(const C &a) { return &*a.begin(); }
const vf_elem *t_begin_mut(C &a) { return &*a.begin(); }
const vf_elem *t_end(const C &a) { return &*a.end(); }
const vf_elem *t_end_mut(C &a) { return &*a.end(); }
size_t t_size(const C &a) { return a.size(); }
uintptr_t t_empty(const C &a) { return a.empty(); }
}
''' % cls
        if name == 'RustVec':
            text += 'extern "C" void t_make(void *p, const %s &o) { new (p) C(o); }\n' % M.alias(vb, 'CRustVec', inst)
            raw = {0: data, 8: ln, 16: cap}
            args = lambda: [ad('a'), ad('raw')]
        else:
            text += 'extern "C" void t_make(void *p, vf_elem *d, size_t n) { new (p) C(d, n); }\n'
            raw = None
            args = lambda: [ad('a'), data, ln]
        u = Unit(c, name, file, text, files, ())
        m = made(u, 't_make', args(), raw)
        if m is None:
            continue
        for op in ('t_index', 't_index_mut'):
            u.value(ADDR, op[2:], op, {'a': m}, [ad('a'), i], data + i * E, 'operator[](i)')
        for op in ('t_begin', 't_begin_mut'):
            u.value(ADDR, op[2:], op, {'a': m}, [ad('a')], data, 'begin()')
        for op in ('t_end', 't_end_mut'):
            u.value(ADDR, op[2:], op, {'a': m}, [ad('a')], data + ln * E, 'end()')
        sizes(u, m, ln)

    # ------------------------------------------------ slices and vectors of objects
    ref = '''
namespace vfns { struct vf_val { void *p; explicit vf_val(void *q) noexcept : p(q) {} vf_val(vf_val &&o) noexcept : p(o.p) { o.p = nullptr; } vf_val(const vf_val &) = delete; void *release() noexcept { void *r = p; p = nullptr; return r; } };
struct vf_ref { using CForeignType = vf_elem; using value_type = vf_val; const vf_elem *p; explicit vf_ref(const vf_elem *q) noexcept : p(q) {} }; }
'''
    fb = [b for b in M.blocks if 'CForeignVecModule' in b.aliases][0]
    fdecl = [t for m, l in mods.items() for bb, _, t in l if bb is fb][0]
    fusing = '\n'.join(M.cpp(fb, x['text'], inst) for x in fb.code)
    es_name = M.alias(fb, 'CForeignVecElemSize', inst)
    ops = '''
extern "C" {
const vf_elem *t_index(const C &a, size_t i) { return a[i].p; }
const vf_elem *t_begin(const C &a) { return (*a.begin()).p; }
const vf_elem *t_begin_mut(C &a) { return (*a.begin()).p; }
const vf_elem *t_end(const C &a) { return (*a.end()).p; }
const vf_elem *t_end_mut(C &a) { return (*a.end()).p; }
const vf_elem *t_next(const C &a) { auto it = a.begin(); ++it; return (*it).p; }
const vf_elem *t_next_mut(C &a) { auto it = a.begin(); ++it; return (*it).p; }
const vf_elem *t_prev(const C &a) { auto it = a.end(); --it; return (*it).p; }
const vf_elem *t_prev_mut(C &a) { auto it = a.end(); --it; return (*it).p; }
size_t t_size(const C &a) { return a.size(); }
uintptr_t t_empty(const C &a) { return a.empty(); }
}
'''
    for name, file, cls, parts, stride in (
            ('RustForeignSlice', 'rust_foreign_slice_impl.hpp', 'vfns::RustForeignSlice<vfns::vf_ref, CRustObjectSlice>', 'CRustObjectSlice', step),
            ('RustForeignSlice (mutable)', 'rust_foreign_slice_impl.hpp', 'vfns::RustForeignSlice<vfns::vf_ref, CRustObjectMutSlice>', 'CRustObjectMutSlice', step),
            ('RustForeignVec', 'rust_foreign_vec_impl.hpp', 'vfns::' + M.alias(fb, 'CForeignVecModule', inst), 'CRustForeignVec', es)):
        text = '#include "rust_slice.h"\n#include "rust_slice_mut.h"\n#include "rust_vec.h"\n' + PRE + ref
        if name == 'RustForeignVec':
            text += fdecl + fusing
        else:
            text += '#include "%s"\n' % file
        text += 'typedef %s C;\n' % cls + ops + 'extern "C" void t_make(void *p, const %s &o) { new (p) C(o); }\n' % parts
        if name == 'RustForeignVec':
            text += '''
extern "C" void t_as_slice(CRustObjectSlice *r, const C &a) { auto s = a.as_slice(); r->data = s.data; r->len = s.len; r->step = s.step; }
extern "C" void t_as_slice_mut(CRustObjectMutSlice *r, C &a) { auto s = a.as_slice_mut(); r->data = s.data; r->len = s.len; r->step = s.step; }
extern "C" void t_push(C &a, vfns::vf_val &o) { a.push(std::move(o)); }
extern "C" void *t_remove(C &a, size_t i) { return a.remove(i).p; }
'''
        u = Unit(c, name, file, text, files, ())
        m = made(u, 't_make', [ad('a'), ad('raw')], {0: data, 8: ln, 16: cap if name == 'RustForeignVec' else step})
        if m is None:
            continue

        def glob(p):
            """the element size constant of the C side is one value"""
            return p
        g = A(('global', '@' + es_name, 0))
        st = g if name == 'RustForeignVec' else stride
        u.value(ADDR, 'index', 't_index', {'a': m}, [ad('a'), i], data + i * st, 'operator[](i)', bound=(i, ln))
        for s in ('', '_mut'):
            u.value(ADDR, 'begin' + s, 't_begin' + s, {'a': m}, [ad('a')], data, 'begin()')
            u.value(ADDR, 'end' + s, 't_end' + s, {'a': m}, [ad('a')], data + ln * st, 'end()')
            u.value(ITER, 'next' + s, 't_next' + s, {'a': m}, [ad('a')], data + st, '++begin()')
            u.value(ITER, 'prev' + s, 't_prev' + s, {'a': m}, [ad('a')], data + ln * st - st, '--end()')
        sizes(u, m, ln)
        if name == 'RustForeignVec':
            for op in ('as_slice', 'as_slice_mut'):
                u.value(ADDR, op, 't_' + op, {'a': m, 'r': {}}, [ad('r'), ad('a')], [data, ln, g], op + '()',
                        get=lambda p: [p.mem['r'].get(o, (8, UNDEF))[1] for o in (0, 8, 16)])
            h = A('handle')
            push, rem = M.alias(fb, 'CForeignVecPush', inst), M.alias(fb, 'CForeignVecRemove', inst)
            for nd, p in u.paths('t_push', {'a': m, 'o': {0: h}}, [ad('a'), ad('o')]):
                ev = [e for e in p.events if e.kind == 'call']
                c.ok(PASS, 'push')
                if [(e.name, e.args) for e in ev] != [(push, [ad('a'), h])]:
                    c.violation(PASS, 'RustForeignVec/push', '%s: push(o) does %s instead of one call of the push function with this vector and the handle released from o' % (file, ev))
                if p.mem['o'].get(0, (8, h))[1] == h:
                    c.violation(PASS, 'RustForeignVec/push/owner', '%s: push(o) leaves the pushed object owned by o' % file)
            for nd, p in u.paths('t_remove', {'a': m}, [ad('a'), i]):
                if p.end != 'ret':
                    continue
                ev = [e for e in p.events if e.kind == 'call']
                c.ok(PASS, 'remove')
                if [(e.name, e.args) for e in ev] != [(rem, [ad('a'), i])] or p.ret != ev[0].ret:
                    c.violation(PASS, 'RustForeignVec/remove', '%s: remove(i) does %s and returns %s instead of one call of the remove function with this vector and i and its result' % (file, ev, p.ret))
        # the stand-in functions of the other two

    # ------------------------------------------------ access through functions
    trait = '''
extern "C" void vf_free(CRustVecAccess);
extern "C" vf_elem *vf_index(CRustVecAccess, uintptr_t);
extern "C" vf_elem *vf_sindex(CRustSliceAccess, uintptr_t);
struct vf_trait { using ElemType = vf_elem *; static ElemType index(CRustVecAccess v, uintptr_t i) { return vf_index(v, i); } static void free(CRustVecAccess v) { vf_free(v); } };
struct vf_ia { using ReturnType = vf_elem *; static ReturnType index(CRustSliceAccess v, uintptr_t i) { return vf_sindex(v, i); } };
'''
    for name, file, cls, parts, np, fn, bound in (
            ('RustVecAccess', 'rust_vec_access.hpp', 'vfns::RustVecAccess<vf_trait, CRustVecAccess>', 'CRustVecAccess', 3, 'vf_index', None),
            ('RustSliceAccess', 'rust_slice_access.hpp', 'vfns::RustSliceAccess<vf_ia>', 'CRustSliceAccess', 2, 'vf_sindex', (i, ln))):
        text = '#include "rust_slice.h"\n#include "rust_vec.h"\n#include "%s"\n' % file + PRE + trait + '''
typedef %s C;
extern "C" {
const vf_elem *t_index(const C &a, size_t i) { return a[i]; }
size_t t_size(const C &a) { return a.size(); }
uintptr_t t_empty(const C &a) { return a.empty(); }
void t_make(void *p, const %s &o) { new (p) C(o); }
}
''' % (cls, parts)
        u = Unit(c, name, file, text, files, ())
        raw = dict(zip((0, 8, 16), (data, ln, cap)[:np]))
        m = made(u, 't_make', [ad('a'), ad('raw')], raw)
        if m is None:
            continue
        u.value(PASS, 'index', 't_index', {'a': m}, [ad('a'), i], lambda p: p.events[0].ret if p.events else None, 'operator[](i)', bound=bound)
        for nd, p in u.paths('t_index', {'a': m}, [ad('a'), i]):
            if p.end == 'ret':
                ev = [e for e in p.events if e.kind == 'call']
                flat = [x for e in ev for a in e.args for x in (a if isinstance(a, list) else [a])]
                c.require([e.name for e in ev] == [fn] and flat == [data, ln, cap][:np] + [i], PASS, name + ': parts', name + '/parts',
                          '%s: operator[](i) calls %s with %s instead of the parts of the object and i' % (file, [e.name for e in ev], flat))
        sizes(u, m, ln)

    # ------------------------------------------------ the iterator itself
    file = 'rust_foreign_slice_iter.hpp'
    text = PRE + ref + '#include "%s"\n' % file + '''
typedef RustForeignSliceIterator<vfns::vf_ref> I;
extern "C" {
void t_make(void *p, const void *d, size_t s) { new (p) I(d, s); }
const vf_elem *t_deref(const I &a) { return (*a).p; }
void t_inc(I &a) { ++a; }
void t_dec(I &a) { --a; }
const I *t_inc_ret(I &a) { return &++a; }
const I *t_dec_ret(I &a) { return &--a; }
void t_add_assign(I &a, ptrdiff_t n) { a += n; }
void t_sub_assign(I &a, ptrdiff_t n) { a -= n; }
const I *t_add_assign_ret(I &a, ptrdiff_t n) { return &(a += n); }
const I *t_sub_assign_ret(I &a, ptrdiff_t n) { return &(a -= n); }
void t_add(void *r, const I &a, ptrdiff_t n) { new (r) I(a + n); }
void t_sub(void *r, const I &a, ptrdiff_t n) { new (r) I(a - n); }
const vf_elem *t_index(const I &a, ptrdiff_t n) { return a[n].p; }
ptrdiff_t t_diff(const I &a, const I &b) { return a - b; }
uintptr_t t_eq(const I &a, const I &b) { return a == b; }
uintptr_t t_ne(const I &a, const I &b) { return a != b; }
uintptr_t t_lt(const I &a, const I &b) { return a < b; }
uintptr_t t_gt(const I &a, const I &b) { return a > b; }
uintptr_t t_le(const I &a, const I &b) { return a <= b; }
uintptr_t t_ge(const I &a, const I &b) { return a >= b; }
}
'''
    u = Unit(c, 'iterator', file, text, files, ())
    p_ = A('ptr')
    m = made(u, 't_make', [ad('a'), p_, step], None)
    if m is not None:
        def at(q):
            return made(u, 't_make', [ad('a'), q, step], None)
        state = lambda o: (lambda p: canon_cells(p.mem[o]))
        want = lambda q: canon_cells({k: (8, v) for k, v in at(q).items()})
        u.value(ITER, 'dereference', 't_deref', {'a': m}, [ad('a')], p_, '*it')
        for op, q, what in (('inc', p_ + step, '++it'), ('dec', p_ - step, '--it')):
            u.value(ITER, op, 't_' + op, {'a': m}, [ad('a')], want(q), what, get=state('a'))
            u.value(ITER, op + ' result', 't_%s_ret' % op, {'a': m}, [ad('a')], ad('a'), 'the result of ' + what)
        for op, q, what in (('add', p_ + n * step, 'it + n'), ('sub', p_ - n * step, 'it - n')):
            u.value(ITER, op, 't_' + op, {'a': m, 'r': {}}, [ad('r'), ad('a'), n], want(q), what, get=state('r'))
            u.value(ITER, op + ' source', 't_' + op, {'a': m, 'r': {}}, [ad('r'), ad('a'), n], want(p_), 'the source of ' + what, get=state('a'))
            u.value(ITER, op + ' assign', 't_%s_assign' % op, {'a': m}, [ad('a'), n], want(q), what.replace(' ', ' ', 1).replace('+', '+=').replace('-', '-='), get=state('a'))
            u.value(ITER, op + ' assign result', 't_%s_assign_ret' % op, {'a': m}, [ad('a'), n], ad('a'), 'the result of the assignment')
        u.value(ITER, 'index', 't_index', {'a': m}, [ad('a'), n], p_ + n * step, 'it[n]')
        q_ = A('ptr2')
        m2 = at(q_)
        # difference
        for nd, p in u.paths('t_diff', {'a': m, 'b': m2}, [ad('a'), ad('b')]):
            if p.end != 'ret':
                continue
            c.ok(ITER, 'difference')
            d = p_ - q_
            z = decide(p.facts, 'eq', p_, q_)
            a = p.ret.atom()
            good = (z is True and p.ret.const() == 0) or (isinstance(a, tuple) and a[0] == 'op' and a[1] in ('sdiv', 'sdiv.exact') and a[2] == d and a[3] == step)
            if not good:
                c.violation(ITER, 'iterator/difference', '%s: it - it2 is %s on the path %s; the signed quotient of the distance and the stride is expected' % (file, p.ret, p.facts))
            if isinstance(a, tuple) and z is not False:
                c.violation(ITER, 'iterator/difference/zero', '%s: it - it2 divides by the stride even if both are equal, when the stride of an empty view is 0' % file)
        # comparisons: the result is decided by the order of the two pointers
        for op, pred in (('eq', 'eq'), ('ne', 'ne'), ('lt', 'ult'), ('gt', 'ugt'), ('le', 'ule'), ('ge', 'uge')):
            k = 0
            for nd, p in u.paths('t_' + op, {'a': m, 'b': m2}, [ad('a'), ad('b')]):
                if p.end != 'ret':
                    continue
                k += 1
                c.ok(ITER, 'comparison ' + op)
                if isinstance(p.ret, tuple):
                    r = p.ret
                    neg = False
                    while r[0] == 'not':
                        neg, r = not neg, r[1]
                    ok = r[0] == 'cmp' and ((r[1] if not neg else PRED_NEG[r[1]]) == pred and r[2] == p_ and r[3] == q_ or
                                            (PRED_SWAP[r[1]] if not neg else PRED_NEG[PRED_SWAP[r[1]]]) == pred and r[2] == q_ and r[3] == p_)
                else:
                    ok = p.ret.const() is not None and decide(p.facts, pred, p_, q_) is bool(p.ret.const())
                if not ok:
                    c.violation(ITER, 'iterator/' + op, '%s: comparison %s of two iterators is %s on the path %s' % (file, op, p.ret, p.facts))
            if not k:
                c.violation(ITER, 'iterator/%s/never' % op, '%s: comparison %s never returns' % (file, op))
            same = {p.end for nd, p in u.paths('t_' + op, {'a': m, 'b': m2}, [ad('a'), ad('b')])}
            if same - {'ret'}:
                c.violation(ITER, 'iterator/%s/assert' % op, '%s: comparison %s of two iterators of one view fails an assertion' % (file, op))
    for r, k in ((ADDR, 36), (BOUND, 4), (SIZE, 16), (ITER, 60), (PASS, 8)):
        c.floor(r, k)
    return c.finish(assumptions=['indices and lengths are such that base + index * stride does not wrap',
                                 'the parts handed to the views describe an existing Rust sequence (P15)'])


def canon_cells(cells):
    return tuple(sorted(((o, v) for o, (z, v) in cells.items()), key=repr))


def made(u, fn, vals, raw):
    """memory of object `a` after its construction from raw parts"""
    res = []
    for nd, p in u.paths(fn, {'a': {}, **({'raw': raw} if raw else {})}, vals):
        if p.end == 'ret':
            res.append(canon_cells(p.mem['a']))
    if not res or len(set(res)) != 1:
        u.c.violation('construction', u.name, '%s: construction from raw parts does not give one state (%s)' % (u.file, set(res)))
        return None
    return dict(res[0])


def sizes(u, m, ln):
    u.value(SIZE, 'size', 't_size', {'a': m}, [ad('a')], ln, 'size()')
    for nd, p in u.paths('t_empty', {'a': m}, [ad('a')]):
        if p.end != 'ret':
            continue
        u.c.ok(SIZE, u.name + ': empty')
        r, neg = p.ret, False
        if isinstance(r, tuple):
            while r[0] == 'not':
                neg, r = not neg, r[1]
            ok = r[0] == 'cmp' and {r[2], r[3]} == {ln, K(0)} and r[1] == ('ne' if neg else 'eq')
        else:
            ok = r.const() is not None and decide(p.facts, 'eq', ln, K(0)) is bool(r.const())
        if not ok:
            u.c.violation(SIZE, u.name + '/empty', '%s: empty() is %s on the path %s' % (u.file, p.ret, p.facts))
