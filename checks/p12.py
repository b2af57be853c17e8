"""P12: optional, result and configuration variants convert with the same meaning."""
import re
from core import Check
import rast, cppglue, cpptm, rown, tmacro
from rast import toks_text
from tmpl import Eval, Render, to_text
from model import Model
from rown import show, Unsupported, strip_path
from llvmir import compile_ir, CompileError, Module, State, Interp, Unknown, K, A, decide

TAG = 'the tag says which variant is sent'
READ = 'the same tag is read back as the same variant'
PAY = 'the payload is that of the variant, converted once, and read under its tag only'
POS = 'members of tuples keep their position'
ALT = 'every alternative of a configuration option is covered'
BOOL = 'true and false keep their meaning'

VARIANTS = dict(Option=('None', 'Some'), Result=('Ok', 'Err'))


def kind(t):
    t = strip_path(t).replace(' ', '')
    if t.startswith('Option<'):
        return 'Option'
    if t.startswith('Result<'):
        return 'Result'
    if t.startswith('('):
        return 'tuple' if t != '()' else None
    if t == 'bool':
        return 'bool'
    if re.match(r"&('\w+)?str$", t):
        return 'str'
    return None


def tag_eval(key, val, const):
    """value of a fact key built over the tag when the tag is `const`: True/False/None(not about the tag)"""
    def ev(k):
        if k == val:
            return const
        if k[0] == 'c':
            try:
                return int(str(k[1]).split('_')[0])
            except ValueError:
                return None
        if k[0] == 'fn' and k[1] == 'eq':
            a, b = ev(k[2]), ev(k[3])
            return None if a is None or b is None else int(a == b)
        if k[0] in ('not',) or k[0] == 'fn' and k[1] == 'not':
            a = ev(k[-1])
            return None if a is None else int(not a)
        if k[0] == 'fn' and k[1] in ('lt', 'le', 'gt', 'ge', 'ne'):
            a, b = ev(k[2]), ev(k[3])
            if a is None or b is None:
                return None
            return int(dict(lt=a < b, le=a <= b, gt=a > b, ge=a >= b, ne=a != b)[k[1]])
        if k[0] == 'fn' and len(k) == 3 and k[1] in ('as', 'numcast'):
            return ev(k[2])
        return None
    return ev(key)


def consistent(facts, tagv, const):
    for k, v in facts.items():
        if k[0] == 'not':
            x = tag_eval(k[1], tagv, const)
            if x is not None and isinstance(v, (set, frozenset)) and str(x) in {str(y) for y in v}:
                return False
        else:
            x = tag_eval(k, tagv, const)
            if x is not None and isinstance(v, int) and x != v:
                return False
    return True


def fold(x):
    """a comparison of constants, left unevaluated by the evaluator"""
    if isinstance(x, tuple) and x and x[0] == 'not':
        y = fold(x[1])
        return K(1 - y.const()) if hasattr(y, 'const') and y.const() in (0, 1) else x
    if isinstance(x, tuple) and x and x[0] == 'cmp':
        r = decide([], x[1], x[2], x[3])
        return x if r is None else K(int(r))
    return x


def contains(v, pred):
    if isinstance(v, tuple):
        if pred(v):
            return True
        return any(contains(x, pred) for x in v)
    return False


class Conv:
    """what the Rust side of one block says about its tag"""

    def __init__(self):
        self.send = {}      # variant -> (tag const, payload member)
        self.read = {}      # tag const -> variant
        self.tagpath = None
        self.null = False   # pointer null stands for None


class P12:
    def __init__(self, c):
        self.c = c
        self.src = rast.Source()
        self.glue = cppglue.CppGlue(self.src)
        self.g, msg = rown.compile_mir(self.glue.text, name='p12')
        if self.g is None:
            c.violation('compile', 'cpp-include.rs', 'the Rust half of cpp-include.rs does not compile with stand-in types: ' + msg[:1500])
            return
        self.conv = {}
        n = 0
        for pas in (0, 1):
            for r in self.glue.rules:
                fr, to = strip_path(r.frm), strip_path(r.to)
                if r.rule.dir == '=>':
                    k, other = kind(fr), to
                else:
                    k, other = kind(to), fr
                if k is None or k == 'str' or kind(other) is not None:
                    continue
                # senders first: readers are judged against what is sent
                if (r.rule.dir == '=>') != (pas == 0):
                    continue
                n += 1
                self.rust(k, r)
        c.analysed('Rust conversion rules', n)
        self.cpp()
        self.options()
        c.floor(TAG, 10)
        c.floor(READ, 10)
        c.floor(PAY, 18)
        c.floor(POS, 8)
        c.floor(BOOL, 6)

    def name(self, r):
        return 'the conversion of %s to %s (cpp-include.rs:%d)' % (r.frm, r.to, r.rule.line), '%s=>%s' % (re.sub(r'\s+', '', r.frm), re.sub(r'\s+', '', r.to))

    def paths(self, r):
        f = self.g.fns.get(r.name)
        if f is None:
            self.c.violation('analysis', r.name, 'no MIR for rule at cpp-include.rs:%d' % r.rule.line)
            return
        it = rown.Interp(self.g, inline=lambda h: not rown.last_seg(h.name).startswith('vf_'))
        try:
            ps = it.run(f)
        except Unsupported as e:
            self.c.violation('analysis', self.name(r)[1], '%s cannot be analysed: %s' % (self.name(r)[0], e))
            return
        for p in ps:
            s = [e[2][0] for e in p.events if e[0] == 'call' and e[1] == 'vf_sink']
            if len(s) == 1:
                yield p, s[0]

    def calls(self, p, pre):
        return [(rown.last_seg(e[1]), e[2][0]) for e in p.events if e[0] == 'call' and rown.last_seg(e[1]).startswith(pre)]

    def rust(self, k, r):
        where, key = self.name(r)
        cv = self.conv.setdefault(id(r.block), Conv())
        {'Option': self.opt, 'Result': self.opt, 'tuple': self.tup, 'bool': self.boolean}[k](k, r, where, key, cv)

    # ------------------------------------------------ tagged unions on the Rust side
    def opt(self, k, r, where, key, cv):
        c = self.c
        P = ('p', 'p')
        if r.rule.dir == '=>':
            for p, out in self.paths(r):
                d = [(kk, v) for kk, v in p.facts.items() if kk[0] == 'discr' or kk[:2] == ('fn', 'discr')]
                var = self.variant(k, p.facts, P)
                if var is None:
                    c.violation(TAG, key, '%s produces a value before it looks at the variant' % where)
                    continue
                if out[0] != 'agg':
                    c.violation('analysis', key, '%s: the value %s is not a C struct' % (where, show(out)))
                    continue
                fs = dict(out[3])
                tags = [(n, v) for n, v in fs.items() if v[0] == 'c']
                un = [(n, v) for n, v in fs.items() if v[0] == 'agg']
                if len(tags) != 1 or len(fs) != 2:
                    c.violation('analysis', key, '%s: the tag of %s is not a constant member' % (where, show(out)))
                    continue
                tag = int(str(tags[0][1][1]).split('_')[0])
                member = un[0][1][3][0] if un and un[0][1][3] else None
                pay = self.payload_ty(k, var, r.frm)
                calls = self.calls(p, 'vf_to_i_')
                if pay:
                    want = ('fld', ('as', P, var), 0)
                    ok = member and len(calls) == 1 and member[1] == [e for e in p.events if e[0] == 'call' and rown.last_seg(e[1]).startswith('vf_to_i_')][0][2:3] or (
                        member and len(calls) == 1 and member[1][0] == 'call' and member[1][3] == (want,))
                    c.require(bool(ok), PAY, key + ' ' + var, key + '/' + var, '%s: under %s the payload is %s instead of the converted value of %s' % (where, var, show(out), var))
                else:
                    c.require(not calls, PAY, key + ' ' + var, key + '/' + var, '%s: converts a value although the variant is %s' % (where, var))
                old = cv.send.get(var)
                if old and old[0] != tag:
                    c.violation(TAG, key, '%s: %s is sent with tag %d on one path and %d on another' % (where, var, old[0], tag))
                cv.send[var] = (tag, member[0] if member and pay else None)
                cv.tagpath = tags[0][0]
                cv.structname = out[1]
            a, b = VARIANTS[k]
            ok = a in cv.send and b in cv.send and cv.send[a][0] != cv.send[b][0]
            c.require(ok, TAG, key, key, '%s: both variants must be sent, with different tags (found %s)' % (where, {v: t for v, (t, _) in cv.send.items()}))
            if k == 'Result' and cv.send.get('Ok', (0, 0))[1] and cv.send.get('Err', (0, 0))[1]:
                c.require(cv.send['Ok'][1] != cv.send['Err'][1], PAY, key + ' members', key + '/members', '%s: Ok and Err are stored in the same union member with different types' % where)
            return
        # C -> Rust
        ps = list(self.paths(r))
        if cv.tagpath is None:
            # a struct of one pointer: null is None
            for p, out in ps:
                nul = [(kk, v) for kk, v in p.facts.items() if kk[:2] == ('fn', 'is_null') and isinstance(v, int)]
                calls = self.calls(p, 'vf_from_i_')
                var = out[2] if out[0] == 'agg' and out[1] in ('Option', 'Result') else None
                ok = len(nul) == 1 and var == ('None' if nul[0][1] else 'Some')
                c.require(ok, READ, key, key, '%s: yields %s when %s' % (where, show(out), ', '.join('%s = %s' % (show(a), b) for a, b in nul) or 'the pointer was not tested'))
                cv.null = True
                if var == 'Some' and nul:
                    c.require(len(calls) == 1 and calls[0][1] == nul[0][0][2] and out[3][0][1][0] == 'call', PAY, key, key, '%s: the object of Some is %s and not the one behind the tested pointer' % (where, show(out)))
                elif var == 'None':
                    c.require(not calls, PAY, key, key, '%s: converts a null pointer' % where)
            return
        tv = ('fld', P, cv.tagpath)
        for var, (tag, member) in cv.send.items():
            m = [(p, out) for p, out in ps if consistent(p.facts, tv, tag)]
            if not m:
                c.violation(READ, key + '/' + var, '%s: no path for tag %d' % (where, tag))
            for p, out in m:
                got = out[2] if out[0] == 'agg' and out[1] in ('Option', 'Result') else None
                c.require(got == var, READ, '%s %s' % (key, var), key + '/' + var, '%s: tag %d, sent for %s, is read as %s' % (where, tag, var, got or show(out)))
                cv.read[tag] = got
                calls = self.calls(p, 'vf_from_i_')
                if member is None:
                    c.require(not calls, PAY, '%s %s' % (key, var), key + '/' + var, '%s: reads a payload that %s does not have' % (where, var))
                    continue
                src = calls[0][1] if len(calls) == 1 else None
                ok = src is not None and src[0] == 'fld' and src[2] == member and contains(out, lambda v: v and v[0] == 'call' and rown.last_seg(str(v[2])).startswith('vf_from_i_') if len(v) > 2 else False)
                c.require(ok, PAY, '%s %s' % (key, var), key + '/' + var, '%s: the payload of %s was stored in member `%s` but %s is read' % (where, var, member, show(src) if src else '%d values' % len(calls)))
        cv.pathsets = ps
        cv.readfn = lambda t: {out[2] if out[0] == 'agg' else None for p, out in ps if consistent(p.facts, tv, t)}

    def payload_ty(self, k, var, ty):
        if var == 'None':
            return False
        if var == 'Ok' and re.match(r'Result<\(\),', strip_path(ty).replace(' ', '')):
            return False
        return True

    def variant(self, k, facts, P):
        for kk, v in facts.items():
            if kk[0] == 'fn' and kk[1] == 'discr' and kk[2] == P and isinstance(v, int):
                return VARIANTS[k][v]
            if kk[0] == 'discr' and kk[1] == P and isinstance(v, int):
                return VARIANTS[k][v]
        for kk, v in facts.items():
            if kk[0] == 'fn' and kk[1] in ('is_some', 'is_none', 'is_ok', 'is_err') and kk[2] == P and isinstance(v, int):
                t = dict(is_some='Some', is_none='None', is_ok='Ok', is_err='Err')[kk[1]]
                a, b = VARIANTS[k]
                return t if v else (b if t == a else a)
        return None

    # ------------------------------------------------ tuples
    def tup(self, k, r, where, key, cv):
        c = self.c
        for p, out in self.paths(r):
            if out[0] != 'agg':
                c.violation(POS, key, '%s yields %s' % (where, show(out)))
                continue
            if r.rule.dir == '=>':
                order = [f for f in self.g.defs[out[1]][1]]
                vals = dict(out[3])
                for i, f in enumerate(order):
                    v = vals.get(f)
                    ok = v and v[0] == 'call' and v[3] == (('fld', ('p', 'p'), i),)
                    c.require(bool(ok), POS, '%s %d' % (key, i), '%s/%d' % (key, i), '%s: member %d `%s` is %s and not the converted member %d of the tuple' % (where, i, f, show(v) if v else 'missing', i))
                cv.order = order
            else:
                order = self.g.defs[strip_path(r.frm).split('<')[0]][1]
                for i, v in out[3]:
                    ok = v[0] == 'call' and v[3] == (('fld', ('p', 'p'), order[i]),)
                    c.require(bool(ok), POS, '%s %d' % (key, i), '%s/%d' % (key, i), '%s: member %d is %s and not the converted member `%s`' % (where, i, show(v), order[i]))

    # ------------------------------------------------ bool
    def boolean(self, k, r, where, key, cv):
        c = self.c
        P = ('p', 'p')
        if r.rule.dir == '=>':
            got = {}
            for p, out in self.paths(r):
                if out[0] == 'c' and str(out[1]).split('_')[0].lstrip('-').isdigit():
                    n = int(str(out[1]).split('_')[0])
                    for b in (0, 1):
                        if consistent(p.facts, P, b):
                            got.setdefault(b, set()).add(n)
                else:
                    for b in (0, 1):
                        if consistent(p.facts, P, b):
                            x = tag_eval(out, P, b) if out != P else b
                            while x is None and out[0] in ('as', 'cast') and len(out) > 1 and isinstance(out[1], tuple):
                                out = out[1]
                                x = tag_eval(out, P, b)
                            got.setdefault(b, set()).add(x)
            ok = all(len(got.get(b, ())) == 1 for b in (0, 1)) and got[0] == {0} and got[1] not in ({0}, {None})
            c.require(ok, BOOL, key, key, '%s: false becomes %s and true becomes %s' % (where, got.get(0), got.get(1)))
            if ok:
                cv.send = {'false': (0, None), 'true': (list(got[1])[0], None)}
            return
        ps = list(self.paths(r))
        for n, want in sorted({0: 0, **{t: int(v == 'true') for v, (t, _) in cv.send.items()}, 1: 1}.items()):
            res = set()
            for p, out in ps:
                if consistent(p.facts, P, n):
                    x = tag_eval(out, P, n)
                    if x is None and out[0] == 'c':
                        x = int(str(out[1]) in ('true', '1'))
                    res.add(x)
            c.require(res == {want}, BOOL, '%s %d' % (key, n), '%s/%d' % (key, n), '%s: %d becomes %s' % (where, n, res))

    # ------------------------------------------------ the C++ side
    def cpp(self):
        c = self.c
        M = self.glue.maps
        out = []
        drv = []
        fns = []
        seen = set()
        extra = {}
        for i in (1, 2, 3):
            extra['VfI%d' % i] = 'VfI%d' % i
        extra['*mut ::std::os::raw::c_void'.replace(' ', '')] = 'VfFooOpaque *'
        for b, mod, items, inst in self.glue.ctypes:
            for it in items:
                if it['k'] in ('Struct', 'Union') and it['name'] not in seen and it.get('fields'):
                    try:
                        out.append(M.cdecl([it], dict(extra, VfElem='VfElem')))
                        seen.add(it['name'])
                    except ValueError:
                        pass
        for b in M.blocks:
            gen = next((r.generics for r in b.rules if r.generics), [])
            inst = cppglue.insts(gen)
            rts = {'=>': None, '<=': None}
            for r in b.rules:
                if r.kind == 'r_type' and r.dir:
                    rts[r.dir] = r
            for n, r in enumerate(b.rules):
                if r.kind != 'f_type':
                    continue
                dirs = [r.dir] if r.dir else ['=>', '<=']
                for d in dirs:
                    rr = rts.get(d)
                    rk = None
                    if rr is not None:
                        rk = kind(self.glue.ty(M.rust(b, rr.left, inst), {k: v.rust for k, v in inst.items()}))
                    if rk is None:
                        if r.option:
                            c.violation(ALT, 'cpp-include.rs %s' % (r.ftype,), 'cpp-include.rs:%d: the alternative "%s" for option %s is a conversion whose meaning is not known to the check' % (r.line, r.ftype, r.option[1]))
                        continue
                    if not r.code:
                        if r.option:
                            c.violation(ALT, 'cpp-include.rs %s' % (r.ftype,), 'cpp-include.rs:%d: alternative without code' % r.line)
                        continue
                    cty = self.glue.ty(M.rust(b, rr.right, inst), {k: v.rust for k, v in inst.items()})
                    fty = vfx(M.cpp(b, r.ftype, inst))
                    cc = 'char' if rk == 'bool' else cty.replace(' ', '')
                    code = M.cpp(b, r.code, inst, r.var, out='vf_out', pre='p')
                    code = re.sub(r'/\*.*?\*/', '', vfx(code), flags=re.S)
                    code = re.sub(r'swig_f_type!\((\w+)\)', r'\1', code)
                    fn = 't_%d_%s' % (r.line, 'to' if d == '=>' else 'from')
                    A_, B_ = (cc, fty) if d == '=>' else (fty, cc)
                    body = 'static inline %s %s_c(%s p) { %s }' % (
                        B_, fn, A_, ('%s vf_out; %s; return vf_out;' % (B_, re.sub(r'vf_out\s*=\s*', 'vf_out = ', code, 1))) if 'vf_out' in code else 'return %s;' % code)
                    if d == '=>':
                        drv.append(body + '\nextern "C" void %s(const %s *in, Obs *o) { %s p = *in; vfx::observe(%s_c(p), *o); }' % (fn, cc, cc, fn))
                    else:
                        drv.append(body + '\nextern "C" void %s(const Obs *in, %s *o) { %s p = vfx::make<%s>(*in); *o = %s_c(static_cast<%s &&>(p)); }' % (fn, cc, fty, fty, fn, fty))
                    fns.append((fn, b, r, d, rk, cc, fty))
        text = STD + '\n'.join(out) + STUBS + '\n'.join(drv)
        try:
            m = Module(compile_ir('p12', {'main.cc': text}, ['-DRUST_SWIG_USER_NAMESPACE=vfns']))
        except CompileError as e:
            c.violation('compile', 'cpp-include.rs', 'the C++ half of the conversions does not compile with stand-in types: %s' % str(e)[:1500])
            return
        self.m = m
        for fn, b, r, d, rk, cc, fty in fns:
            self.one(fn, b, r, d, rk, cc, fty)
        c.analysed('C++ conversion alternatives', len(fns))

    def layout(self, b, name):
        """{member: (offset, size)} of a C struct; unions as one member"""
        sz = {}
        items = {it['name']: it for bb, mod, its, inst in self.glue.ctypes for it in its if it['k'] in ('Struct', 'Union')}

        def size(t):
            t = cpptm.norm_ty(t)
            if t.startswith('*') or t in ('usize',):
                return 8
            if t.startswith('VfI'):
                return 8
            if t in items:
                it = items[t]
                s = [size(f['ty']) for f in it['fields']]
                if it['k'] == 'Union':
                    return max(s)
                o = 0
                for x in s:
                    a = min(x, 8)
                    o = (o + a - 1) // a * a + x
                return (o + 7) // 8 * 8 if max(min(x, 8) for x in s) == 8 else o
            return {'u8': 1, 'i8': 1, 'u32': 4, 'i32': 4, 'u64': 8, 'i64': 8, 'u16': 2}[t]
        it = items[name]
        o = 0
        r = {}
        for f in it['fields']:
            x = size(f['ty'])
            a = 8 if x >= 8 else x
            o = (o + a - 1) // a * a
            r[f['name']] = (o, x)
            o += x
        return r

    def run(self, fn, mem):
        s = State()
        for o, cells in mem.items():
            s.mem[o] = dict(cells)
            s.mode[o] = 'uninit'
        return Interp(self.m).run(fn, s, [A(('addr', 'in')), A(('addr', 'out'))])

    def one(self, fn, b, r, d, rk, cc, fty):
        c = self.c
        fk = re.sub(r'\s+', '', r.ftype)
        key = '%s %s %s' % (fk, d, r.option[1] if r.option else '')
        where = 'cpp-include.rs:%d: the C++ conversion %s "%s"' % (r.line, 'to' if d == '=>' else 'from', r.ftype)
        c.ok(ALT, key)
        cv = self.conv.get(id(b)) or Conv()
        v = [A(('v%d' % i,)) for i in range(3)]
        cases = []      # (name, in cells, {offset: (size, expected)}, notes expected)
        C = K(1000)

        def obs(tag, *vals):
            r = {0: (8, K(tag))}
            for i, x in enumerate(vals):
                r[8 + 8 * i] = (8, x)
            return r
        if rk == 'bool':
            for n, t in ((0, 0), (1, 1)):
                if d == '=>':
                    k = 0 if not n else (cv.send.get('true') or (1,))[0]
                    cases.append(('%d' % k, {0: (1, K(k))}, {0: (8, K(t))}, []))
                else:
                    cases.append(('%s' % bool(n), {0: (8, K(n))}, {0: (1, K(n))}, []))
        elif rk == 'str':
            L = self.layout(b, cc)
            cs = {L['data'][0]: (8, v[0]), L['len'][0]: (8, v[1])}
            if d == '=>':
                cases.append(('view', cs, {8: (8, v[0]), 16: (8, v[1])}, []))
            else:
                cases.append(('view', obs(0, v[0], v[1]), cs, []))
        elif rk == 'tuple':
            L = list(self.layout(b, cc).values())
            if d == '=>':
                cases.append(('tuple', {o: (8, v[i]) for i, (o, s) in enumerate(L)}, {8 + 8 * i: (8, v[i] + K(1000 * (i + 1))) for i in range(len(L))}, [11 + i for i in range(len(L))]))
            else:
                cases.append(('tuple', obs(0, *v[:len(L)]), {o: (8, v[i] + K(1000 * (i + 1))) for i, (o, s) in enumerate(L)}, [21 + i for i in range(len(L))]))
        elif cv.null or (rk == 'Option' and cv.tagpath is None):
            cases.append(('null', {0: (8, K(0)), 8: (8, v[0])}, {0: (8, K(0))}, []))
            cases.append(('object', {0: (8, K(1)), 8: (8, v[0])}, {0: (8, A(('self', 'of', 'v0')))}, []))
        else:
            L = self.layout(b, cc)
            un = [o for n, (o, s) in L.items() if n != cv.tagpath][0]
            to, ts = L[cv.tagpath]
            a, bb = VARIANTS[rk]
            void = 'Ok' if rk == 'Result' and cv.send.get('Ok', (0, None))[1] is None else None
            for var in (a, bb):
                if var not in cv.send:
                    return
                tag = cv.send[var][0]
                # position of the variant in the C++ type: None/Some -> 0/1; Result<(), E> is an optional error; variant<Ok, Err> -> 0/1
                pos = (a, bb).index(var)
                pay = self.payload_ty(rk, var, 'Result<(),' if void else '')
                n = 2 if rk == 'Result' and not void and var == 'Err' else 1
                if d == '=>':
                    cases.append((var, {un: (8, v[0]), to: (ts, K(tag))}, {0: (8, K(pos)), **({8: (8, v[0] + K(1000 * n))} if pay else {})}, [10 + n] if pay else []))
                else:
                    cases.append((var, obs(pos, v[0]), {to: (ts, ('reads', var)), **({un: (8, v[0] + K(1000 * n))} if pay else {})}, [20 + n] if pay else []))
        rule = {'bool': BOOL, 'tuple': POS, 'str': PAY}.get(rk)
        for name, inp, want, notes in cases:
            mem = {'in': inp, 'out': {}}
            if name == 'object':
                mem = {'in': inp, 'out': {}}
            try:
                ps = self.run(fn, mem)
            except Unknown as e:
                c.violation('analysis', key, '%s cannot be analysed: %s' % (where, e))
                return
            ret = [p for p in ps if p.end == 'ret']
            if not ret:
                c.violation(rule or READ, '%s/%s' % (key, name), '%s never returns for %s (%s)' % (where, name, {p.end for p in ps}))
            for p in ret:
                ub = [e for e in p.events if e.name == 'vf_ub']
                if ub:
                    c.violation(rule or PAY, '%s/%s/empty' % (key, name), '%s: reads a value that is not there when it is given %s' % (where, name))
                got = [e.args[0].const() for e in p.events if e.name == 'vf_note']
                c.require(sorted(got) == sorted(notes), rule or PAY, '%s %s' % (key, name), '%s/%s/converted' % (key, name), '%s: for %s %d payload conversions are done instead of %d' % (where, name, len(got), len(notes)))
                for o, (s, w) in want.items():
                    cell = p.mem['out'].get(o)
                    x = fold(cell[1]) if cell else None
                    if isinstance(w, tuple):
                        k = x.const() if x is not None and hasattr(x, 'const') else None
                        rd = cv.readfn(k % (1 << (8 * s))) if k is not None and hasattr(cv, 'readfn') else ({n for n, (t, _) in cv.send.items() if t == k} if k is not None else set())
                        c.require(rd == {w[1]}, TAG, '%s %s' % (key, name), '%s/%s' % (key, name), '%s: %s is sent with tag %s, which the Rust side reads as %s' % (where, name, x, '/'.join(map(str, rd)) or 'nothing'))
                        continue
                    if isinstance(w.const(), int) is False and any(isinstance(a, tuple) and a[0] == 'self' for a in w.atoms()):
                        c.require(x is not None and x == A(('v0',)), PAY, '%s %s' % (key, name), '%s/%s' % (key, name), '%s: the pointer of the object is sent as %s' % (where, x))
                        continue
                    c.require(x is not None and x == w, rule or (READ if o == 0 and d == '=>' else PAY), '%s %s %d' % (key, name, o), '%s/%s/%d' % (key, name, o), '%s: given %s it yields %s where %s is expected' % (where, name, x, w))

    # ------------------------------------------------ configuration values
    def options(self):
        """the value of a configuration enum selects the option of the same name"""
        c = self.c
        names = {n for b in self.glue.maps.blocks for r in b.rules if r.option for n in r.option[0]}
        names |= {n for b in self.glue.maps.blocks for x in b.code if x['option'] for n in x['option'][0]}
        found = set()
        for it in self.src.files['lib.rs'] + [x for f in ('cpp/mod.rs', 'java_jni/mod.rs') for x in self.src.files.get(f, [])]:
            if not (it.get('k') == 'Impl' and re.match(r'From\b', str(it.get('tr'))) and re.search(r'\bstr\b', str(it.get('ty')))):
                continue
            en = re.sub(r'.*<\s*(\w+)\s*>.*', r'\1', it['tr'])
            fn = next((f for f in it['items'] if f.get('name') == 'from'), None)
            vs = [v for e in self.src.enums.get(en, []) for v in e['variants']]
            if fn is None or not vs:
                continue
            r = Eval(self.src).run(fn)
            par = fn['sig']['inputs'][0]['pat'].get('n')
            for v in vs:
                m = Model({par: ('variant', v['name'])})
                got = Render(m.decide, m.hole, m.items).text(to_text(r))
                found.add(got)
                c.require(got == '%s::%s' % (en, v['name']), ALT, 'option %s::%s' % (en, v['name']), 'option/%s::%s' % (en, v['name']),
                          'lib.rs: the configuration value %s::%s selects option %s' % (en, v['name'], got))
        for n in sorted(n for n in names if '::' in n):
            c.require(not found or n in found, ALT, 'option name ' + n, 'option-name/' + n, 'cpp-include.rs uses option %s, which no configuration value selects' % n)


def vfx(s):
    return re.sub(r'\b(std|boost)::(optional|nullopt|none|variant|get|get_if|holds_alternative|make_optional|in_place|string_view|make_tuple|tuple|make_pair|pair)\b',
                  lambda m: 'vfx::' + {'none': 'nullopt'}.get(m.group(2), m.group(2)), s)


STD = r'''
#include <cstdint>
#include <cstddef>
#include <cstdlib>
#include <cassert>
#include <utility>
#include <type_traits>
#include <tuple>
#include <new>
extern "C" void vf_note(uint64_t);
extern "C" void vf_ub();
struct Obs { uint64_t tag; uint64_t v[3]; };
struct VfI1 { uint64_t a; }; struct VfI2 { uint64_t a; }; struct VfI3 { uint64_t a; };
struct VfElem { uint64_t a; uint8_t b; };
struct VfFooOpaque; typedef VfFooOpaque FooOpaque;
#define VF_T(n) namespace vf { struct T##n { uint64_t a; explicit T##n(uint64_t x) noexcept : a(x) {} }; }
VF_T(1) VF_T(2) VF_T(3)
namespace vfx {
struct nullopt_t { explicit constexpr nullopt_t(int) {} };
static constexpr nullopt_t nullopt{0};
struct in_place_t { };
static constexpr in_place_t in_place{};
template <class T> struct optional {
    bool set; union { char none_; T val; };
    optional() noexcept : set(false), none_(0) {}
    optional(nullopt_t) noexcept : set(false), none_(0) {}
    optional(T x) noexcept : set(true), val(x) {}
    template <class... U> explicit optional(in_place_t, U &&... u) : set(true), val(static_cast<U &&>(u)...) {}
    optional(const optional &o) noexcept : set(o.set), none_(0) { if (set) new (&val) T(o.val); }
    optional &operator=(const optional &o) noexcept { set = o.set; if (set) new (&val) T(o.val); return *this; }
    explicit operator bool() const noexcept { return set; }
    bool operator!() const noexcept { return !set; }
    bool has_value() const noexcept { return set; }
    bool is_initialized() const noexcept { return set; }
    void chk() const { if (!set) vf_ub(); }
    T &operator*() & { chk(); return val; }
    const T &operator*() const & { chk(); return val; }
    T &&operator*() && { chk(); return static_cast<T &&>(val); }
    T *operator->() { chk(); return &val; }
    const T *operator->() const { chk(); return &val; }
    T &value() & { chk(); return val; }
    const T &value() const & { chk(); return val; }
    T &&value() && { chk(); return static_cast<T &&>(val); }
    T &get() { chk(); return val; }
    T *get_ptr() { return set ? &val : nullptr; }
    template <class... U> T &emplace(U &&... u) { new (&val) T(static_cast<U &&>(u)...); set = true; return val; }
    void reset() { set = false; }
    friend bool operator==(const optional &o, nullopt_t) { return !o.set; }
    friend bool operator!=(const optional &o, nullopt_t) { return o.set; }
};
template <class T> optional<typename std::decay<T>::type> make_optional(T &&x) { return optional<typename std::decay<T>::type>(static_cast<T &&>(x)); }
template <class P, class Q> struct variant {
    uint64_t idx; union { P p; Q q; };
    variant(P x) noexcept : idx(0), p(x) {}
    variant(Q x) noexcept : idx(1), q(x) {}
    variant(const variant &o) noexcept : idx(o.idx), p(0) { if (idx) new (&q) Q(o.q); else new (&p) P(o.p); }
    variant &operator=(const variant &o) noexcept { idx = o.idx; if (idx) new (&q) Q(o.q); else new (&p) P(o.p); return *this; }
    size_t index() const noexcept { return idx; }
    int which() const noexcept { return int(idx); }
};
template <class T, class P, class Q> struct pick;
template <class P, class Q> struct pick<P, P, Q> { static constexpr uint64_t n = 0; static P *at(variant<P, Q> &v) { return &v.p; } };
template <class P, class Q> struct pick<Q, P, Q> { static constexpr uint64_t n = 1; static Q *at(variant<P, Q> &v) { return &v.q; } };
template <class T, class P, class Q> T *get_if(variant<P, Q> *v) { return v->idx == pick<T, P, Q>::n ? pick<T, P, Q>::at(*v) : nullptr; }
template <class T, class P, class Q> T *get(variant<P, Q> *v) { return get_if<T>(v); }
template <class T, class P, class Q> T &get(variant<P, Q> &v) { if (v.idx != pick<T, P, Q>::n) vf_ub(); return *pick<T, P, Q>::at(v); }
template <class T, class P, class Q> T &&get(variant<P, Q> &&v) { if (v.idx != pick<T, P, Q>::n) vf_ub(); return static_cast<T &&>(*pick<T, P, Q>::at(v)); }
template <size_t N, class P, class Q> auto &get(variant<P, Q> &v) { if (v.idx != N) vf_ub(); if constexpr (N == 0) return v.p; else return v.q; }
template <size_t N, class P, class Q> auto &&get(variant<P, Q> &&v) { if (v.idx != N) vf_ub(); if constexpr (N == 0) return static_cast<P &&>(v.p); else return static_cast<Q &&>(v.q); }
template <class T, class P, class Q> bool holds_alternative(const variant<P, Q> &v) { return v.idx == pick<T, P, Q>::n; }
struct string_view {
    const char *d; size_t n;
    string_view() noexcept : d(nullptr), n(0) {}
    string_view(const char *p, size_t l) noexcept : d(p), n(l) {}
    const char *data() const noexcept { return d; }
    size_t size() const noexcept { return n; }
    size_t length() const noexcept { return n; }
    bool empty() const noexcept { return n == 0; }
    const char *begin() const noexcept { return d; }
    const char *end() const noexcept { return d + n; }
};
using std::get; using std::tuple; using std::make_tuple; using std::pair; using std::make_pair;
'''
STUBS = r'''
}
'''
STD, STUBS = STD + '}\n', r'''
#define VF_C(n) static inline vf::T##n vf_from_VfI##n(VfI##n x) { vf_note(10 + n); return vf::T##n(x.a + 1000 * n); } \
    static inline VfI##n vf_to_VfI##n(const vf::T##n &x) { vf_note(20 + n); VfI##n r; r.a = x.a + 1000 * n; return r; }
VF_C(1) VF_C(2) VF_C(3)
struct Foo { FooOpaque *self_; explicit operator FooOpaque *() const noexcept { return self_; } };
typedef Foo FooRef;
namespace vfx {
template <class T> struct Mk;
template <class T> struct Mk<optional<T>> { static optional<T> m(const Obs &o) { if (o.tag) return optional<T>(T(o.v[0])); return optional<T>(); } };
template <class P, class Q> struct Mk<variant<P, Q>> { static variant<P, Q> m(const Obs &o) { if (o.tag) return variant<P, Q>(Q(o.v[0])); return variant<P, Q>(P(o.v[0])); } };
template <class P, class Q> struct Mk<std::pair<P, Q>> { static std::pair<P, Q> m(const Obs &o) { return std::pair<P, Q>(P(o.v[0]), Q(o.v[1])); } };
template <class P, class Q, class R> struct Mk<std::tuple<P, Q, R>> { static std::tuple<P, Q, R> m(const Obs &o) { return std::tuple<P, Q, R>(P(o.v[0]), Q(o.v[1]), R(o.v[2])); } };
template <> struct Mk<bool> { static bool m(const Obs &o) { return o.tag != 0; } };
template <> struct Mk<string_view> { static string_view m(const Obs &o) { return string_view(reinterpret_cast<const char *>(o.v[0]), o.v[1]); } };
template <> struct Mk<const Foo *> { static const Foo *m(const Obs &o) { return o.tag ? reinterpret_cast<const Foo *>(&o.v[0]) : nullptr; } };
template <> struct Mk<Foo *> { static Foo *m(const Obs &o) { return o.tag ? const_cast<Foo *>(reinterpret_cast<const Foo *>(&o.v[0])) : nullptr; } };
template <class T> static inline T make(const Obs &o) { return Mk<T>::m(o); }
template <class T> static inline void observe(optional<T> x, Obs &o) { o.tag = x.set; if (x.set) o.v[0] = x.val.a; }
template <class P, class Q> static inline void observe(variant<P, Q> x, Obs &o) { o.tag = x.idx; if (x.idx) o.v[0] = x.q.a; else o.v[0] = x.p.a; }
template <class P, class Q> static inline void observe(std::pair<P, Q> x, Obs &o) { o.v[0] = x.first.a; o.v[1] = x.second.a; }
template <class P, class Q, class R> static inline void observe(std::tuple<P, Q, R> x, Obs &o) { o.v[0] = std::get<0>(x).a; o.v[1] = std::get<1>(x).a; o.v[2] = std::get<2>(x).a; }
static inline void observe(bool x, Obs &o) { if (x) o.tag = 1; else o.tag = 0; }
static inline void observe(string_view x, Obs &o) { o.v[0] = reinterpret_cast<uint64_t>(x.d); o.v[1] = x.n; }
}
'''


def run():
    c = Check('P12', 'every Rust conversion rule of optional, result, tuple and bool types is evaluated over its MIR, and every C++ '
              'alternative of it (Std17, Boost) is compiled to LLVM IR against reference models of optional, variant and string_view '
              'and evaluated for each variant; tags and payloads of all of them must agree')
    P12(c)
    return c.finish(['std:: and boost:: optional, variant, string_view, pair and tuple do what their documentation says (boost 1.6x, C++17)',
                     'conversions given by users in their own type maps are not covered'])
