"""P13: C++ handles release the Rust object they own exactly once."""
from core import Check
from cppbase import *
import re
from cppown import *
import clsmodel

RULE = 'every sequence of operations keeps allocations owned once'


def run():
    c = Check('P13', 'the C++ support headers, the C++ text of RustString and the class wrapper text assembled from the generator are '
              'instantiated with stand-in types and compiled to LLVM IR by clang; an abstract interpreter computes the fixpoint of '
              'object states under all constructors, copies, moves, assignments (also to itself), release, clear and destruction and '
              'checks that each allocation token is freed once, owned once and never used afterwards')
    mods = cstructs()
    hdrs = headers()
    files = dict(hdrs)
    for m in ('rust_slice.h', 'rust_slice_mut.h', 'rust_vec.h'):
        files[m] = guard('\n'.join(t for b, i, t in mods.get(m, [])))
    total = 0

    def unit(name, text, prefix, cls, parts, res, file, must, extra_files=None, from_parts='%(cls)s(o)', defs=(), offsets=None, std='c++17', without=()):
        nonlocal total
        f = dict(files)
        f.update(extra_files or {})
        f['main.cc'] = DRIVER + text + driver(prefix, cls, parts, from_parts, without=without)
        for nd in (('-UNDEBUG',), ('-DNDEBUG',)):
            label = name + (' (NDEBUG)' if nd[0].startswith('-D') else '')
            try:
                mod = Module(compile_ir('p13', f, FLAGS + list(nd) + list(defs), std))
            except CompileError as e:
                c.violation(RULE, name + '/compile', '%s: the instantiation does not compile: %s' % (file, str(e)[:1500]))
                return
            # offsets of the parts: from the C struct type used by the release operation
            off = offsets or [(8 * k, 8) for k in range(res.nparts)]
            x = Explorer(c, RULE, name, mod, prefix, res, file, off)
            x.explore(must)
            total += x.applied
            c.ok(RULE, label)
            for op in sorted(x.have):
                c.ok('operation of an owning or borrowing C++ type', '%s: %s' % (label, op))
            c.analysed('states of ' + label, len(x.states))

    # --- vectors of values
    inst, extra = insts()
    M = maps()
    b = [b for b in M.blocks if 'CRustVec' in b.aliases][0]
    cv = M.alias(b, 'CRustVec', inst)
    fr = M.alias(b, 'CRustVecFree', inst)
    decl = [t for m, l in mods.items() for bb, i, t in l if bb is b][0]
    using = '\n'.join(M.cpp(b, x['text'], inst) for x in b.code)
    unit('RustVec', '#include "rust_vec_impl.hpp"\n' + PRE + decl + using + '\nusing namespace vfns;\n', 'rv',
         'vfns::' + M.alias(b, 'CppRustVec', inst), cv, Resource(fr), 'rust_vec_impl.hpp',
         ('from', 'dflt', 'mctor', 'massign', 'dtor', 'clear', 'release', 'size'))
    # --- vector with element access through functions
    trait = '''
extern "C" void vf_free(CRustVecAccess);
extern "C" vf_elem *vf_index(CRustVecAccess, uintptr_t);
struct vf_trait { using ElemType = vf_elem *; static ElemType index(CRustVecAccess v, uintptr_t i) { return vf_index(v, i); } static void free(CRustVecAccess v) { vf_free(v); } };
'''
    unit('RustVecAccess', '#include "rust_vec.h"\n#include "rust_vec_access.hpp"\n' + PRE + trait, 'va', 'vfns::RustVecAccess<vf_trait, CRustVecAccess>',
         'CRustVecAccess', Resource('vf_free'), 'rust_vec_access.hpp', ('from', 'dflt', 'mctor', 'massign', 'dtor', 'size'))
    # --- vector of objects
    b = [b for b in M.blocks if 'CForeignVecModule' in b.aliases][0]
    decl = [t for m, l in mods.items() for bb, i, t in l if bb is b][0]
    using = '\n'.join(M.cpp(b, x['text'], inst) for x in b.code)
    ref = '''
namespace vfns { struct vf_val { void *p; explicit vf_val(void *q) : p(q) {} void *release() { void *r = p; p = nullptr; return r; } };
struct vf_ref { using CForeignType = vf_elem; using value_type = vf_val; const void *p; explicit vf_ref(const vf_elem *q) : p(q) {} }; }
'''
    fv = M.alias(b, 'CForeignVecFree', inst)
    # the elem pointer type of push/remove is void * on the C side
    unit('RustForeignVec', '#include "rust_vec.h"\n#include "rust_slice.h"\n#include "rust_slice_mut.h"\n' + PRE + ref + decl + using, 'rf',
         'vfns::' + M.alias(b, 'CForeignVecModule', inst), 'CRustForeignVec', Resource(fv), 'rust_foreign_vec_impl.hpp',
         ('from', 'dflt', 'mctor', 'massign', 'dtor', 'clear', 'release', 'size'))
    # --- borrowed views never free
    for nm, inc, cls, parts, frm, n in (
            ('RustForeignSlice', 'rust_foreign_slice_impl.hpp', 'vfns::RustForeignSlice<vfns::vf_ref, CRustObjectSlice>', 'CRustObjectSlice', '%(cls)s(o)', 3),
            ('RustForeignSlice (mutable)', 'rust_foreign_slice_impl.hpp', 'vfns::RustForeignSlice<vfns::vf_ref, CRustObjectMutSlice>', 'CRustObjectMutSlice', '%(cls)s(o)', 3),
            ('RustSliceAccess', 'rust_slice_access.hpp', 'vfns::RustSliceAccess<vf_ia>', 'CRustSliceAccess', '%(cls)s(o)', 2),
            ('RustSlice', 'rust_slice_tmpl.hpp', 'vfns::RustSlice<vf_elem>', 'CRustSliceAccess', '%(cls)s(static_cast<vf_elem *>(const_cast<void *>(static_cast<const void *>(o.data))), o.len)', 2)):
        unit(nm, '#include "rust_slice.h"\n#include "rust_slice_mut.h"\n' + PRE + ref + 'struct vf_ia { using ReturnType = int; };\n#include "%s"\n' % inc, 'sl', cls, parts,
             Resource('vf_never', nparts=n, owning=False), inc, ('from', 'mctor', 'massign', 'size'), from_parts=frm)
    # --- RustString, for each string view library
    sb = [b for b in M.blocks if any('class RustString' in x['text'] for x in b.code)]
    c.require(len(sb) == 1, 'RustString text', 'one block', 'block', 'the C++ text of RustString was not found in %s' % M.file)
    for opt in ((), ('CppStrView::Std17',), ('CppStrView::Boost',)):
        text = tmacro.module_text(M.with_module('rust_str.h'), 'rust_str.h', opt)
        text = text.replace('$RUST_SWIG_USER_NAMESPACE', 'vfns')
        decls = '\n'.join(t for bb, i, t in mods['rust_str.h'])
        unit('RustString' + ''.join(' ' + o for o in opt), decls + text, 'st', 'vfns::RustString', 'CRustString',
             Resource('crust_string_free', 'crust_string_clone'), M.file, ('from', 'dflt', 'mctor', 'massign', 'cctor', 'cassign', 'dtor', 'size'))
    # --- class wrappers
    ctor, clone = ('m0', 'Constructor', 'new', {}), ('m1', 'Method', 'clone', dict(out_c='FooOpaque *', out_cpp='Foo'))
    dummy = ('m0', 'Constructor', 'new', dict(dummy=True, access='Private'))
    for derive, ms in (([], [ctor]), (['Copy'], [ctor, clone]), (['SmartPtrCopy'], [ctor]), (['PlainClass'], [ctor]), (['PlainClass', 'Copy'], [ctor, clone]),
                       (['PlainClass', 'SmartPtrCopy'], [ctor]), ([], [dummy])):
        for separate in (False, True):
            what = 'class wrapper (%s%s%s)' % (' '.join(derive) or 'no derive', ', dummy constructor' if ms[0][3].get('dummy') else '', ', separate headers' if separate else '')
            fs, model = clsmodel.files(source(), derive, ms, separate=separate)
            for k in list(model.unknown_holes) + sorted(model.unknown_items):
                c.require(False, 'text of the class wrapper', what, 'wrapper/%s' % k, 'macroslib/src/cpp/fclass.rs: the generated class text depends on %s, which is not known for a plain class' % k)
            if separate and derive != ['Copy']:
                continue
            variants = {}
            for path, text, asg in fs:
                variants.setdefault(tuple(sorted(asg.items())), {})[path] = text
            common = variants.pop((), {})
            for asg, part in (variants or {(): {}}).items():
                fmap = dict(common, **part)
                ch = [t for n, t in fmap.items() if n.endswith('.h')]
                fns = re.findall(r'^[ \t]*(void|FooOpaque ?\*)\s*(\w+)\((.*?)\);', ''.join(ch), re.M | re.S)
                free = [n for r, n, a in fns if r == 'void' and 'FooOpaque' in a and ',' not in a]
                copy = [n for r, n, a in fns if r != 'void' and 'FooOpaque' in a]
                make = [n for r, n, a in fns if r != 'void' and not a.strip()]
                c.require(len(free) == 1, 'text of the class wrapper', what + ': release function', what + '/free', 'macroslib/src/cpp/fclass.rs: %s declares %s as functions that release an object in its C header (one expected)' % (what, free or 'none'))
                if len(free) != 1:
                    continue
                main = '#include "Foo.hpp"\n' + ('#include "Foo_impl.hpp"\n' if 'Foo_impl.hpp' in fmap else '') + PRE
                unit(what + ''.join(' %s=%s' % a for a in asg), main, 'cw', 'vfns::Foo', 'FooOpaque *', Resource(free[0], copy[0] if copy else None, nparts=1, cappart=None, make=make),
                     'macroslib/src/cpp/fclass.rs', ('from', 'mctor', 'massign', 'dtor', 'release') + (() if 'dummy' in what else ('dflt',)) + (('cctor', 'cassign') if 'Copy' in what else ()), extra_files=fmap)
                if 'PlainClass' not in derive:
                    unit(what + ' reference', main, 'cr', 'vfns::FooRef', 'FooOpaque const *', Resource(free[0], copy[0] if copy else None, nparts=1, cappart=None, owning=False, lend=make),
                         'macroslib/src/cpp/fclass.rs', ('from', 'mctor', 'dtor'), extra_files=fmap, without=('release', 'cctor', 'cassign'))
                    rref(c, what, main, fmap, compile_ir, files)
    c.analysed('operations interpreted on abstract states', total)
    c.floor(RULE, 20)
    return c.finish(assumptions=[
        'the external functions declared by the generated C headers (free, clone, push, remove) do what P15 decides of their Rust side',
        'a part triple handed to a constructor describes one allocation that nobody else owns (P15)'])


def rref(c, what, main, fmap, comp, files):
    """as_rref() lends the same object and leaves the owner as it was; as_cref() is the object itself"""
    f = dict(files)
    f.update(fmap)
    f['main.cc'] = DRIVER + main + '''
extern "C" { void rr_ref(void *r, const vfns::Foo &a) { new (r) vfns::FooRef(a.as_rref()); }
const void *rr_cref(const vfns::FooRef &a) { return static_cast<const void *>(&a.as_cref()); }
void rr_raw(const void **r, const vfns::Foo &a) { *r = static_cast<const void *>(static_cast<vfns::Foo::SelfType>(a)); } }
'''
    try:
        mod = Module(comp('p13', f, FLAGS + ['-UNDEBUG'], 'c++17'))
    except CompileError as e:
        c.violation(RULE, what + '/as_rref/compile', 'macroslib/src/cpp/fclass.rs: %s: as_rref(), as_cref() or the conversion to the raw handle does not compile: %s' % (what, str(e)[:800]))
        return
    I = Interp(mod)
    tok = A(('part_of', 'A', 0))
    ad = lambda o: A(('addr', o))
    for fn, vals, good in (('rr_ref', [ad('r'), ad('a')], lambda p: [v for z, v in p.mem['r'].values()] == [tok]),
                           ('rr_raw', [ad('r'), ad('a')], lambda p: [v for z, v in p.mem['r'].values()] == [tok]),
                           ('rr_cref', [ad('a')], lambda p: p.ret == ad('a'))):
        s = State()
        s.mem['a'] = {0: (8, tok)}
        s.mem['r'] = {}
        s.mode['a'] = s.mode['r'] = 'uninit'
        try:
            ps = [p for p in I.run(fn, s, vals) if p.end == 'ret']
        except Unknown as e:
            c.violation(RULE, what + '/' + fn, '%s: %s cannot be analysed: %s' % (what, fn[3:], e))
            continue
        c.require(bool(ps) and all(good(p) and not p.events and [v for z, v in p.mem['a'].values()] == [tok] for p in ps), 'lending leaves ownership alone', '%s: %s' % (what, fn[3:]),
                  what + '/' + fn, 'macroslib/src/cpp/fclass.rs: %s: %s does not lend the owned object unchanged' % (what, {'rr_ref': 'as_rref()', 'rr_raw': 'conversion to the raw handle', 'rr_cref': 'as_cref()'}[fn]))
