"""P18: a callback implemented in C++ is called through a table whose two mirrors agree, and is released exactly once."""
import re
from core import Check
import rast, rown, cbmodel
from tyeval import *
from llvmir import compile_ir, Module, State, Interp, A, CompileError, Unknown, show as irshow
from cppbase import FLAGS
from cppown import DRIVER
import handlebase

TABLE = 'the table has the same entries, in the same places with the same types, in C and in Rust'
ENTRY = 'each entry calls the declared method with its arguments in order and gives back its result'
RELEASE = 'the release entry destroys the object exactly once'
LENT = 'an object that is only lent is not released'
GIVE = 'giving an object to Rust fills the table and leaves nothing to destroy on the C++ side'
CALL = 'a Rust call goes through the entry of the method, with the arguments in order and the object last'
DROP = 'dropping the Rust side calls the release entry of the object exactly once'
RULE = 'the Rust object is built from the table that came, once'

TYPES = 'arguments of a callback are mapped as values that leave Rust, its result as one that enters'

SAMPLES = [
    ('mixed', [('m0', 'first', 'r_first', '&self', [('x', 'int32_t', 'int32_t', 'i32', 'i32'), ('y', 'uint64_t', 'X64', 'u64', 'VfA')], ('int16_t', 'int16_t', 'i16', 'i16')),
               ('m1', 'second', 'r_second', '&mut self', [], None),
               ('m2', 'third', 'r_third', '&self', [('z', 'uint8_t', 'uint8_t', 'u8', 'u8')], ('uint32_t', 'XR', 'u32', 'VfB'))]),
    ('none', []),
    ('one', [('m0', 'only', 'r_only', '&self', [], None)]),
    ('getter', [('m0', 'get', 'r_get', '&mut self', [], ('double', 'double', 'f64', 'f64'))]),
    ('alike', [('m%d' % i, n, 'r_' + n, s, [('p', 'int32_t', 'int32_t', 'i32', 'i32'), ('q', 'int32_t', 'int32_t', 'i32', 'i32')], None)
               for i, (n, s) in enumerate((('zeta', '&self'), ('alpha', '&mut self'), ('mid', '&self'), ('beta', '&self'), ('omega', '&mut self')))]),
    ('long', [('m0', 'many', 'r_many', '&self', [('a', 'int64_t', 'int64_t', 'i64', 'i64'), ('b', 'int64_t', 'int64_t', 'i64', 'i64'), ('c', 'uint64_t', 'X64', 'u64', 'VfA'),
                                                 ('d', 'uint64_t', 'X64', 'u64', 'VfA'), ('e', 'uint8_t', 'uint8_t', 'u8', 'u8'), ('f', 'int64_t', 'int64_t', 'i64', 'i64')], None),
              ('m1', 'conv', 'r_conv', '&self', [('v', 'uint64_t', 'X64', 'u64', 'VfA')], ('uint32_t', 'XR', 'u32', 'VfB'))]),
]
CTY = {'i32': 'int32_t', 'u64': 'uint64_t', 'i16': 'int16_t', 'u8': 'uint8_t', 'u32': 'uint32_t', 'f64': 'double', 'i64': 'int64_t', '()': 'void', '': 'void'}
PRELUDE = '''#![allow(warnings)]
pub struct VfA { x: String } pub struct VfB { x: String }
#[inline(never)] pub fn vf_conv<A, B>(a: A) -> B { loop {} }
'''


def tynorm(t):
    return handlebase.tynorm(re.sub(r'(^|\b(?:const|mut|dyn)\s|[(<,&]|->)\s*::\s*', r'\1 ', t)).replace('* ', '*')


def cmembers(text, struct):
    m = re.search(r'struct\s+%s\s*\{(.*?)\}\s*;' % struct, re.sub(r'//[^\n]*|/\*.*?\*/', '', text, flags=re.S), re.S)
    if not m:
        return None
    out = []
    for d in m.group(1).split(';'):
        if d.strip():
            n = re.search(r'\(\s*\*\s*(?:const\s+)?(\w+)\s*\)', d) or re.search(r'(\w+)\s*(?:\[[^\]]*\])?\s*$', d)
            out.append(n.group(1) if n else None)
    return out


def canon(events, ret, ren=()):
    """events and result with the names of call results replaced by their rank"""
    out, names = [], {}
    for e in events:
        if e.name in ('*load', '*store'):
            continue
        if e.ret is not None:
            names.setdefault(repr(e.ret), 'R%d' % len(names))

    def s(x):
        t = repr(x) if not isinstance(x, str) else x
        t = re.sub(r'ret\.[^\s,()\[\]]+', lambda m: next((names[k] for k in names if k.startswith(m.group(0)) or m.group(0).startswith(k)), m.group(0)), t)
        return t
    for e in events:
        if e.name in ('*load', '*store'):
            continue
        tg = getattr(e, 'target', None)
        nm = 'indirect' if tg is not None else e.name
        out.append((nm, s(tg) if tg is not None else None, tuple(s(a) for a in e.args)))
    return out, s(ret) if ret is not None else None


class P18:
    def __init__(self, c):
        self.c = c
        self.src = rast.Source()
        for label, ms in SAMPLES:
            try:
                cb = cbmodel.Callback(self.src, ms)
            except Exception as e:
                c.violation('analysis', label, 'the templates of a callback with %d methods cannot be evaluated: %s: %s' % (len(ms), type(e).__name__, str(e)[:300]))
                continue
            self.sample(label, ms, cb)
        self.directions()
        c.analysed('callback declarations rendered', len(SAMPLES))
        for r, n in ((TABLE, 20), (ENTRY, 12), (RELEASE, 4), (LENT, 4), (GIVE, 8), (CALL, 12), (DROP, 5), (RULE, 5), (TYPES, 2)):
            c.floor(r, n)

    def directions(self):
        """the types of the arguments of a callback go out, its result comes in"""
        c = self.c
        got = []

        def rec(ev, a):
            got.append([keyof(x) for x in a])
            return var('Ok', Sym('map_type'))
        over = {'map_type': rec}
        try:
            TEval(self.src, inline_files=lambda x: x.startswith('cpp/'), overrides=over).run(self.src.fn('generate_interface', 'cpp/finterface.rs'))
        except Exception as e:
            c.violation('analysis', 'directions', 'the choice of types of a callback cannot be evaluated: %s' % str(e)[:200])
            return
        for what, pat, want in (('argument', r'\.fn_decl\.inputs\b', 'Outgoing'), ('result', r'\.fn_decl\.output\b', 'Incoming')):
            seen = sorted({d for a in got for d in a if d in ('Outgoing', 'Incoming') and any(re.search(pat, x) for x in a)})
            c.require(seen == [want], TYPES, 'direction of the %ss' % what, 'directions/' + what, 'the C++ types of the %ss of a callback are chosen for the direction %s; they travel as %s' % (what, seen, want))

    def sample(self, label, ms, cb):
        c = self.c
        where = 'callback with %s' % ('methods ' + ', '.join('%s/%d' % (m[1], len(m[4])) for m in ms) if ms else 'no method')
        cfile = {n: t for n, t, a in cb.files}
        if len(cb.rust) != 1:
            c.violation('analysis', label, '%s: the generated Rust depends on undecided conditions %s' % (where, [str(x[0])[:120] for x in cb.rust][:3]))
            return
        rust = '\n'.join(cb.rust[0][1])
        try:
            d = rast.dump_text(rust)
        except Exception as e:
            c.violation('analysis', label, '%s: generated Rust does not parse: %s' % (where, str(e)[:300]))
            return
        fields = None
        reprc = False
        for i in d['items']:
            if i['k'] == 'Struct' and i['name'] == 'C_Cb':
                fields = [(f['name'], f['ty']) for f in i['fields']]
                reprc = any(re.sub(r'\s', '', a) == '#[repr(C)]' for a in i['attrs'])
        head = next((t for n, t in cfile.items() if re.search(r'struct\s+C_Cb\s*\{', t)), None)
        members = cmembers(head, 'C_Cb') if head else None
        if fields is None or members is None:
            c.violation(TABLE, label, '%s: table struct not found (C: %s, Rust: %s)' % (where, members is not None, fields is not None))
            return
        c.require(reprc, TABLE, '%s: repr' % where, label + '/repr', '%s: the Rust table C_Cb is not #[repr(C)], its layout is unspecified' % where)
        c.require(len(fields) == len(members) == len(ms) + 2, TABLE, '%s: number of entries' % where, label + '/count',
                  '%s: the C table has %d members (%s), the Rust table %d (%s), the declaration %d methods' % (where, len(members), members, len(fields), [f for f, _ in fields], len(ms)))
        if len(fields) != len(members):
            return
        role = self.rust(label, ms, rust, fields, where, cb)
        if role is not None:
            self.cpp(label, ms, cfile, fields, members, where, cb, role)

    # ---- C++ side
    def fnptr(self, ty):
        m = re.match(r'(?:unsafe )?extern "C" fn ?\(([^()]*)\) ?(?:-> ?(.*))?$', ty.strip(), re.S)
        if not m:
            return None
        args = []
        for a in [x for x in m.group(1).split(',') if x.strip()]:
            t = tynorm(a.split(':', 1)[1]) if re.match(r'\s*\w+\s*:(?!:)', a) else tynorm(a)
            args.append('void *' if t in ('*const c_void', '*mut c_void') else CTY.get(t))
        ret = CTY.get(tynorm(m.group(2) or '()'))
        if ret is None or None in args:
            return None
        return ret, args

    def cpp(self, label, ms, cfile, fields, members, where, cb, role):
        c = self.c
        main = ["struct X64{uint64_t v;}; struct XR{uint32_t v;}; X64 cv_in(uint64_t v) noexcept; uint32_t cv_out(XR v) noexcept;"]
        main += ['#include "%s"' % n for n in cfile if n.endswith('.hpp')]
        main += ['using vfns::Cb; extern "C" {', 'void k_to(C_Cb *r, Cb *p) { *r = Cb::to_c_interface(std::unique_ptr<Cb>(p)); }',
                 'void k_ref(C_Cb *r, Cb &p) { *r = Cb::reference_to_c_interface(p); }', 'void k_del(Cb *p) { delete p; }',
                 'uint64_t k_size() { return sizeof(C_Cb); }']
        for i, ((fn, ft), m) in enumerate(zip(fields, members)):
            main.append('uint64_t k_off%d() { return __builtin_offsetof(C_Cb, %s); }' % (i, m))
            s = self.fnptr(ft)
            if s:
                main.append('bool k_ty%d() { return std::is_same<std::remove_cv<decltype(C_Cb::%s)>::type, %s (*)(%s)>::value; }' % (i, m, s[0], ', '.join(s[1])))
            elif tynorm(ft) in ('*const c_void', '*mut c_void'):
                main.append('bool k_ty%d() { return std::is_same<decltype(C_Cb::%s), void *>::value || std::is_same<decltype(C_Cb::%s), const void *>::value; }' % (i, m, m))
            else:
                c.violation(TABLE, '%s/type%d' % (label, i), '%s: field %s of the Rust table has the type %s, which is neither the object nor a C function of the declared types' % (where, fn, ft))
        for i, m in enumerate(ms):
            args = ''.join(', %s v%d' % (a[1], j) for j, a in enumerate(m[4]))
            vals = ', '.join('v%d' % j if a[1] == a[2] else 'cv_in(v%d)' % j for j, a in enumerate(m[4]))
            call = 'p->%s(%s)' % (m[1], vals)
            if m[5] and m[5][0] != m[5][1]:
                call = 'cv_out(%s)' % call
            main.append('bool k_const%d() { return std::is_invocable<decltype(&Cb::%s), const Cb &%s>::value; }' % (i, m[1], ''.join(', ' + a[2] for a in m[4])))
            main.append('%s k_m%d(Cb *p%s) { %s%s; }' % (m[5][0] if m[5] else 'void', i, args, 'return ' if m[5] else '', call))
        conv = self.uptr(cb)
        if conv is None:
            c.violation(GIVE, label + '/ftype', '%s: no foreign type std::unique_ptr<Cb> that goes into Rust through the table' % where)
        else:
            x = conv.replace('{from_var}', 'vx').replace('{to_var_type}', 'const struct C_Cb * const vo').replace('{to_var}', 'vo').replace('$tmp', 'vt')
            main.append('void vf_sink(%s) noexcept;' % ', '.join('const void *' for _ in members))
            main.append('void k_conv(Cb *p) { std::unique_ptr<Cb> vx(p); %s vf_sink(%s); }' % (x, ', '.join('(const void *)vo->%s' % m for m in members)))
        main.append('}')
        f = dict(cfile)
        f['main.cc'] = DRIVER + '#include <type_traits>\n' + '\n'.join(main)
        try:
            mod = Module(compile_ir('p18' + label, f, FLAGS + ['-UNDEBUG'], 'c++17'))
        except CompileError as e:
            c.violation(TABLE, label + '/compile', '%s: the generated C++ does not compile with the types of the Rust side: %s' % (where, str(e)[-600:]))
            return
        I = Interp(mod)

        def const(fn):
            ps = I.run(fn, State(), [])
            return ps[0].ret.const() if len(ps) == 1 and ps[0].ret is not None else None
        ok = True
        for i, ((fn, ft), m) in enumerate(zip(fields, members)):
            o = const('k_off%d' % i)
            c.require(o == 8 * i, TABLE, '%s: offset of entry %d' % (where, i), '%s/offset%d' % (label, i), '%s: entry %d of the Rust table (%s) is at offset %d, member %s of the C table at %s' % (where, i, fn, 8 * i, m, o))
            ok = ok and o == 8 * i
            if 'k_ty%d' % i in mod.fns:
                c.require(const('k_ty%d' % i) == 1, TABLE, '%s: type of entry %d' % (where, i), '%s/type%d' % (label, i),
                          '%s: member %s of the C table does not have the type of field %s of the Rust table: %s' % (where, m, fn, re.sub(r'\s+', ' ', ft)))
        c.require(const('k_size') == 8 * len(fields), TABLE, '%s: size' % where, label + '/size', '%s: the C table takes %s bytes, the Rust table %d' % (where, const('k_size'), 8 * len(fields)))
        for i, m in enumerate(ms):
            ro = 'mut' not in m[3]
            c.require(const('k_const%d' % i) == int(ro), ENTRY, '%s: constness of %s' % (where, m[1]), '%s/const/%s' % (label, m[1]),
                      '%s: the C++ method %s of the declaration with %s %s callable on a const object' % (where, m[1], m[3], 'is not' if ro else 'is'))
        if not ok:
            return
        try:
            self.fill(label, ms, I, mod, fields, where, role)
            if conv is not None:
                self.giving(label, I, len(members), where)
        except Unknown as e:
            c.violation('analysis', label + '/cpp', '%s: the generated C++ uses a construct outside the analysis: %s' % (where, e))

    def uptr(self, cb):
        for r in cb.ft:
            if cb.R.text(r.f['name']).replace(' ', '') == 'std::unique_ptr<Cb>':
                v = r.f['from_into_rust']
                if getattr(v, 'name', None) != 'Some':
                    return None
                im = v.f['0'].f['intermediate']
                if getattr(im, 'name', None) != 'Some':
                    return None
                return cb.R.text(im.f['0'].f['conv_code']).replace('\\n', '\n')
        return None

    def entries(self, I, mod, fn, label, where, rule):
        """offset -> value in the filled table; events on the way"""
        c = self.c
        s = State()
        s.mem['r'] = {}
        s.mode['r'] = 'uninit'
        res = []
        for p in I.run(fn, s, [A(('addr', 'r')), A(('obj', 1))]):
            if p.end in ('assert', 'abort'):
                continue
            res.append(p)
        if not res:
            c.violation(rule, '%s/%s' % (label, fn), '%s: %s never returns a table' % (where, fn))
        return res

    def live(self, ps, obj):
        """paths other than a failed assertion that the object is not null"""
        return [p for p in ps if not (p.end in ('assert', 'abort') and any(f[0] == 'eq' and f[1] == obj and f[-1] is True for f in p.facts))]

    def fill(self, label, ms, I, mod, fields, where, role):
        c = self.c
        obj = A(('obj', 1))
        n = len(fields)
        dels = [canon(p.events, p.ret) + (sorted(map(str, p.facts)),) for p in I.run('k_del', State(), [obj])]
        for fn, what, rule in (('k_to', 'to_c_interface', GIVE), ('k_ref', 'reference_to_c_interface', LENT)):
            for p in self.entries(I, mod, fn, label, where, rule):
                cells = p.mem['r']
                bad = [e for e in p.events if e.name not in ('*load', '*store')]
                c.require(not bad, rule, '%s: %s has no other effect' % (where, what), '%s/%s/effects' % (label, what), '%s: %s also performs %s: the object is used or destroyed while its table is made' % (where, what, bad[:2]))
                for i, (fname, ft) in enumerate(fields):
                    v = cells.get(8 * i)
                    if v is None or v[0] != 8:
                        c.violation(rule, '%s/%s/entry%d' % (label, what, i), '%s: %s leaves the entry %s of the table uninitialised' % (where, what, fname))
                        continue
                    r = role.get(i)
                    if r == 'object':
                        c.require(v[1] == obj, rule, '%s: object of %s' % (where, what), '%s/%s/object' % (label, what), '%s: %s stores %s as the object instead of the object' % (where, what, v[1]))
                        continue
                    g = re.match(r'&@(.*)$', str(v[1]))
                    if not g or g.group(1) not in mod.fns:
                        c.violation(rule, '%s/%s/entry%d' % (label, what, i), '%s: %s fills the entry %s with %s, not a function of the class' % (where, what, fname, v[1]))
                        continue
                    g = g.group(1)
                    if r == 'release':
                        if fn == 'k_to':
                            got = [canon(q.events, q.ret) + (sorted(map(str, q.facts)),) for q in I.run(g, State(), [obj])]
                            # on a non-null object the effects are those of delete
                            nn = lambda l: sorted(str(x[0]) for x in l if not any("True" in t and "'eq'" in t for t in x[2]))
                            c.require(any(x[0] for x in dels) and all([e[0] for e in x[0]] in ([], ['indirect']) for x in dels), RELEASE, '%s: destructor' % where, '%s/virtual' % label,
                                      '%s: deleting an object through the class does not call the destructor of the subclass: %s' % (where, [x[0] for x in dels][:2]))
                            c.require(nn(got) == nn(dels) and nn(dels), RELEASE, '%s: release entry' % where, '%s/release' % label,
                                      '%s: the release entry that %s fills in does %s instead of deleting the object once (%s)' % (where, what, [x[0] for x in got][:3], [x[0] for x in dels][:3]))
                        else:
                            ev = [e for q in I.run(g, State(), [obj]) for e in q.events if e.name not in ('*load',)]
                            c.require(not ev, LENT, '%s: release entry of a lent object' % where, '%s/lent' % label, '%s: the release entry of a lent object does %s' % (where, ev[:2]))
                        continue
                    if r is None:
                        continue
                    k = ms.index(r)
                    args = [A(('arg', j)) for j in range(len(r[4]))]
                    want = [canon(q.events, q.ret) + (q.end,) for q in I.run('k_m%d' % k, State(), [obj] + args)]
                    got = [canon(q.events, q.ret) + (q.end,) for q in self.live(I.run(g, State(), args + [obj]), obj)]
                    c.require(all(len([e for e in w[0] if e[0] == 'indirect']) == 1 for w in want) and want, ENTRY, '%s: %s is dispatched to the subclass' % (where, r[1]), '%s/%s/virtual' % (label, r[1]),
                              '%s: calling %s on the C++ class does not dispatch to the subclass: %s' % (where, r[1], str(want)[:300]))
                    c.require(sorted(map(str, want)) == sorted(map(str, got)), ENTRY, '%s: %s/%s' % (where, what, r[1]), '%s/%s/%s' % (label, what, r[1]),
                              '%s: the entry %s that %s fills in does not do what p->%s(..) does: %s, expected %s' % (where, fname, what, r[1], str(got)[:400], str(want)[:400]))

    def giving(self, label, I, n, where):
        c = self.c
        obj = A(('obj', 1))
        seen = 0
        for p in I.run('k_conv', State(), [obj]):
            if p.end in ('assert', 'abort'):
                continue
            if any(f[0] == 'eq' and f[1] == obj and f[-1] is True for f in p.facts if isinstance(f, tuple)):
                continue
            seen += 1
            ev = [e for e in p.events if e.name not in ('*load', '*store')]
            c.require([e.name for e in ev] == ['vf_sink'], GIVE, '%s: argument std::unique_ptr<Cb>' % where, label + '/conv/events',
                      '%s: passing a std::unique_ptr to Rust performs %s; expected the call only (the object now belongs to Rust)' % (where, [e.name for e in ev]))
            for e in ev:
                if e.name == 'vf_sink':
                    s = State()
                    s.mem['r'] = {}
                    s.mode['r'] = 'uninit'
                    full = [[q.mem['r'].get(8 * i, (0, None))[1] for i in range(n)] for q in I.run('k_to', s, [A(('addr', 'r')), obj]) if q.end == 'ret']
                    c.require(any(list(e.args) == t for t in full), GIVE, '%s: table passed' % where, label + '/conv/table', '%s: Rust gets the table %s instead of the one of the object' % (where, e.args))
        if not seen:
            c.violation(GIVE, label + '/conv', '%s: passing a std::unique_ptr to Rust never reaches the call' % where)

    # ---- Rust side
    def glue(self, label, ms, rust, cb):
        sig = []
        for m in ms:
            sig.append('fn %s(%s) %s;' % (m[2], ', '.join([m[3]] + ['v%d: %s' % (j, a[4]) for j, a in enumerate(m[4])]), '-> ' + m[5][3] if m[5] else ''))
        rules = ''
        n = 0
        for frm, to, text in cb.conv:
            if 'Box<dyn' in to.replace(' ', '').replace('Boxdyn', 'Box<dyn') or 'Box' in to:
                cv = text.replace('{from_var}', 'vf_from').replace('{to_var}', 'vf_to')
                rules += 'pub fn vf_rule%d(vf_from: *const C_Cb) -> Box<dyn VfTrait> { %s vf_to }\n' % (n, cv)
                n += 1
        g, msg = rown.compile_mir(PRELUDE + 'pub trait VfTrait { %s }\n' % ' '.join(sig) + rust + '\n' + rules, name='p18' + label)
        return g, msg, n

    def rust(self, label, ms, rust, fields, where, cb):
        """who calls which field: method -> field; the release field; and the rules on the Rust side"""
        c = self.c
        role = {}
        g, msg, nrules = self.glue(label, ms, rust, cb)
        if g is None:
            c.violation('analysis', label + '/rust', '%s: the generated Rust does not compile with stand-in types: %s' % (where, (msg or '')[:600]))
            return None
        names = [f for f, _ in fields]
        it = rown.Interp(g, inline=lambda h: not rown.last_seg(h.name).startswith('vf_'))
        me = ('deref', ('p', 'self'))
        isobj = lambda v: isinstance(v, tuple) and v[0] == 'fld' and v[1] == me and v[2] in names and tynorm(dict(fields)[v[2]]) in ('*const c_void', '*mut c_void')
        by = {}
        for n, f in g.fns.items():
            by.setdefault(rown.last_seg(n), []).append(f)
        objs = set()

        def indirect(p):
            return [e for e in p.events if e[0] == 'call' and e[2] and isinstance(e[2][0], tuple) and e[2][0][:1] == ('fld',) and e[2][0][1] == me and not e[1].startswith('vf_')]
        for m in ms:
            fs = by.get(m[2], [])
            key = '%s/%s' % (label, m[2])
            if len(fs) != 1:
                c.violation(CALL, key, '%s: the table does not implement %s' % (where, m[2]))
                continue
            try:
                ps = it.run(fs[0])
            except Exception as e:
                c.violation('analysis', key, '%s: %s cannot be analysed: %s' % (where, m[2], str(e)[:300]))
                continue
            if not ps:
                c.violation(CALL, key, '%s: %s never returns' % (where, m[2]))
            for p in ps:
                calls = {e[4]: e for e in p.events if e[0] == 'call'}
                ind = indirect(p)
                other = [e for e in p.events if e[0] not in ('call',) or (e not in ind and rown.last_seg(e[1]) != 'vf_conv')]
                c.require(len(ind) == 1 and not other, CALL, '%s: %s calls once' % (where, m[2]), key + '/once',
                          '%s: %s makes %d calls through the table and also %s; expected one call and nothing else' % (where, m[2], len(ind), other[:2]))
                if len(ind) != 1:
                    continue
                e = ind[0]
                fld = e[2][0][2]
                i = names.index(fld) if fld in names else None
                if i is not None:
                    if i in role and role[i] is not m:
                        c.violation(CALL, key + '/entry', '%s: %s and %s are called through the same entry %s' % (where, m[2], role[i] if isinstance(role[i], str) else role[i][2], fld))
                    role[i] = m
                args = e[2][1:]
                want = []

                def conv_of(v):
                    """parameter that v is the conversion of"""
                    if isinstance(v, tuple) and v[:1] == ('call',) and rown.last_seg(v[2]) == 'vf_conv' and len(v[3]) == 1:
                        return v[3][0]
                    return v
                params = [fs[0].debug.get(l) or 'arg%d' % i for i, l in enumerate(fs[0].params)][1:]
                c.require([conv_of(a) for a in args[:-1]] == [('p', x) for x in params] and len(args) == len(m[4]) + 1, CALL, '%s: arguments of %s' % (where, m[2]), key + '/args',
                          '%s: %s passes %s to the entry %s; expected the arguments %s converted, in order, then the object' % (where, m[2], [rown.show(a) for a in args], fld, params))
                c.require(bool(args) and isobj(args[-1]), CALL, '%s: object of %s' % (where, m[2]), key + '/object', '%s: %s passes %s as the object' % (where, m[2], rown.show(args[-1]) if args else 'nothing'))
                if args and isobj(args[-1]):
                    objs.add(args[-1][2])
                r = p.ret
                if m[5]:
                    rr = conv_of(r)
                    c.require(isinstance(rr, tuple) and rr[:1] == ('call',) and rr[1] == e[4], CALL, '%s: result of %s' % (where, m[2]), key + '/ret',
                              '%s: %s returns %s instead of the result of the call' % (where, m[2], rown.show(r)[:200]))
        # release
        fs = by.get('drop', [])
        key = label + '/drop'
        if len(fs) != 1:
            c.violation(DROP, key, '%s: the table has %s Drop implementation: the object is never released' % (where, len(fs) or 'no'))
        for f in fs:
            ps = it.run(f)
            for p in ps:
                ind = indirect(p)
                other = [e for e in p.events if e not in ind]
                good = len(ind) == 1 and not other and len(ind[0][2]) == 2 and isobj(ind[0][2][1])
                c.require(good, DROP, '%s: drop' % where, key, '%s: dropping the table does %s; expected one call of the release entry with the object' % (where, [str(e[:3])[:160] for e in p.events][:4]))
                if good:
                    fld = ind[0][2][0][2]
                    i = names.index(fld)
                    if i in role:
                        c.violation(DROP, key + '/entry', '%s: dropping the table calls the entry %s, which is the one of the method %s' % (where, fld, role[i][2]))
                    role[i] = 'release'
                    objs.add(ind[0][2][1][2])
            if not ps:
                c.violation(DROP, key, '%s: drop never returns' % where)
        c.require(len(objs) == 1, CALL, '%s: one object' % where, label + '/objects', '%s: different fields are passed as the object: %s' % (where, sorted(objs)))
        for o in objs:
            role[names.index(o)] = 'object'
        # clone of the table is a copy of its entries
        clones = by.get('clone', [])
        for f in clones:
            for p in it.run(f):
                r = p.ret
                txt = rown.show(r)
                c.require(all(re.search(r'\b%s: (?:clone\(addr\(\*self, \(\'%s\'|\*self\.%s\b|clone\(\*self\.%s)' % (n, n, n, n), txt) for n in names), RULE, '%s: copy of the table' % where, label + '/clone',
                          '%s: the copy of the table is %s' % (where, txt[:300]))
        # the rule that makes the Rust object
        if nrules != 1:
            c.violation(RULE, label + '/rules', '%s: %d conversions from the table to Box<dyn Trait>' % (where, nrules))
        for i in range(nrules):
            for f in by.get('vf_rule%d' % i, []):
                ps = it.run(f)
                if not ps:
                    c.violation(RULE, label + '/rule', '%s: the conversion from the table never returns' % where)
                for p in ps:
                    src = ('p', 'vf_from')
                    v = p.ret
                    made = isinstance(v, tuple) and v[0] == 'box' and (v[1] == ('deref', src) or (isinstance(v[1], tuple) and v[1][0] == 'clone' and v[1][2] in (src, ('deref', src))))
                    made = made or (isinstance(v, tuple) and v[0] == 'box' and rown.show(v[1]).startswith('C_Cb{') and all("vf_from" in x for x in rown.show(v[1])[5:-1].split(', ')[:1]))
                    c.require(made, RULE, '%s: the Rust object' % where, label + '/rule/value', '%s: the Rust object is %s, not a box of the table that came' % (where, rown.show(v)[:200]))
                    bad = [e for e in p.events if e[0] in ('drop', 'freebox', 'forget', 'from_raw', 'into_raw') or (e[0] == 'call' and indirect(p))]
                    c.require(not bad and len([e for e in p.events if e[0] == 'clone']) <= 1, RULE, '%s: made once' % where, label + '/rule/once',
                              '%s: making the Rust object also does %s: the object would be released before its time or twice' % (where, [str(e)[:100] for e in (bad or p.events)][:3]))
                    for e in p.events:
                        if e[0] == 'deref' and e[1] == src:
                            c.require(e[2].get(('fn', 'is_null', src)) == 0, RULE, '%s: null table' % where, label + '/rule/null', '%s: the table pointer is read without having been checked for null' % where)
        return role


def run():
    c = Check('P18', 'agreement of table layout, initialiser and callers over LLVM IR and MIR of generated callback glue')
    P18(c)
    return c.finish([])
