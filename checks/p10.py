"""P10: numbers that cross the border arrive unchanged or the conversion fails visibly."""
import importlib, os, re, subprocess
import rast, rown, jnispec, llvmir, javabc, javacb, jniglue, jnibase
from rown import show
import core
from core import Check

IDENT = 'a conversion rule between numbers passes the same number on'
OPT = 'a number inside an optional value or a Java box is passed on as it is'
CAST = 'no cast of the Rust glue can change the number'
ARITH = 'no number is computed with where it could wrap'
CPP = 'the C++ glue does not narrow or change the sign of a number'
JAVA = 'the Java glue does not narrow a number'
NUM = r'(?:[iu](?:8|16|32|64|size)|f32|f64)'
BITS = {'8': 8, '16': 16, '32': 32, '64': 64, '128': 128, 'size': 64}
MANT = {'f32': 24, 'f64': 53}
SIZES = {'GetArrayLength', 'GetStringLength', 'GetStringUTFLength'}
LOSSY = re.compile(r'(wrapping_|saturating_|overflowing_|unchecked_|unwrap_or|to_int_unchecked|to_bits|from_bits|clamp|rotate_|swap_bytes|reverse_bits|to_be|to_le|'
                   r'\b(abs|min|max|trunc|round|floor|ceil|fract|rem_euclid|div_euclid|pow|powi|signum|to_radians|ilog\w*|isqrt|sqrt|midpoint|abs_diff)\b)')
ARITHOPS = {'Add', 'Sub', 'Mul', 'Div', 'Rem', 'Shl', 'Shr', 'BitXor', 'BitAnd', 'BitOr', 'Neg', 'Not', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked', 'ShlUnchecked', 'ShrUnchecked'}


def ity(t):
    m = re.fullmatch(r'([iu])(8|16|32|64|128|size)', t or '')
    return (m.group(1) == 'i', BITS[m.group(2)]) if m else None


def lossless(a, b):
    if a == b or a == 'bool':
        return True
    if a == 'char':
        a = 'u32'
    x, y = ity(a), ity(b)
    if x and y:
        return y[1] >= x[1] if x[0] == y[0] else (not x[0] and y[1] > x[1])
    if x and b in MANT:
        return x[1] - (1 if x[0] else 0) <= MANT[b]
    return a == 'f32' and b == 'f64'


def isconst(v):
    """value built of constants only"""
    if not isinstance(v, tuple):
        return True
    if v[:1] == ('c',):
        return True
    if v[:1] == ('call',):
        return rown.last_seg(v[2]) in ('max_value', 'min_value') or bool(re.search(r'\bsize_of\b|\balign_of\b', v[2]))
    if v[:1] == ('fn',):
        return all(isconst(x) for x in v[2:])
    if v[:1] in (('deref',), ('p',), ('fld',), ('as',), ('mut',), ('parts',)):
        return False
    return all(isconst(x) for x in v[1:])


def base(v):
    """the number v carries unchanged"""
    while isinstance(v, tuple):
        if v[:2] == ('fn', 'cast') and lossless(v[2], v[3]):
            v = v[4]
        elif v[:1] == ('fld',) and v[1][:1] == ('as',) and v[1][2] == 'Ok' and v[1][1][:2] == ('fn', 'try_from'):
            v = v[1][1][4]
        elif v[:1] == ('call',) and re.fullmatch(r'<%s as (From|Into|SwigFrom|SwigInto)(<.*>)?>::(from|into)|<bool as .*' % NUM, v[2]) and v[3]:
            v = v[3][0]
        else:
            break
    return v


def subterms(v):
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            yield x
            st += [y for y in x if isinstance(y, tuple)]


def truth(k, v):
    """(condition, True or False) of a fact, negations removed"""
    if isinstance(k, tuple) and k[:1] == ('not',):
        # a set of values it does not have
        k = k[1]
        if not isinstance(v, frozenset) or {str(x) for x in v} != {'0'}:
            return None
        t = True
    elif isinstance(v, frozenset):
        return None
    else:
        t = str(v) not in ('0', 'False', 'false')
    while isinstance(k, tuple) and k[:2] == ('fn', 'not'):
        k, t = k[-1], not t
    return k, t


def bound(v, facts, to):
    """v (or its length) is known to fit into the type `to`"""
    for k, x in facts.items():
        if isinstance(k, tuple) and k[:2] == ('fn', 'discr') and k[2][:2] == ('fn', 'try_from') and str(x) == '0':
            if base(k[2][4]) == v and lossless(k[2][3], to):
                return True
        if isinstance(k, tuple) and k[:1] == ('not',) and k[1][:2] == ('fn', 'discr') and k[1][2][:2] == ('fn', 'try_from') and isinstance(x, frozenset) and '1' in {str(y) for y in x}:
            if base(k[1][2][4]) == v and lossless(k[1][2][3], to):
                return True
        t = truth(k, x)
        if not t or not isinstance(t[0], tuple) or t[0][:2] != ('fn', 'lt') or len(t[0]) != 4:
            continue
        a, b = t[0][2], t[0][3]
        # not (max < v), or v < max
        hi, val = (a, b) if not t[1] else (b, a)
        if base(val) == v and limit(hi, to):
            return True
    return False


def limit(v, to):
    """v is a constant not above the maximum of `to`"""
    y = ity(to)
    if not y:
        return False
    mx = 2 ** (y[1] - (1 if y[0] else 0)) - 1
    n = None
    f = None
    while isinstance(v, tuple) and v[:2] == ('fn', 'cast'):
        f, v = v[2], v[4]
    if isinstance(v, tuple) and v[:1] == ('call',) and rown.last_seg(v[2]) == 'max_value':
        m = re.search(r'impl (\w+)', v[2])
        f = m.group(1) if m else f
        i = ity(f)
        n = 2 ** (i[1] - (1 if i[0] else 0)) - 1 if i else None
    elif isinstance(v, tuple) and v[:1] == ('c',):
        m = re.search(r'(?:impl |^|::)([iu](?:8|16|32|64|128|size))>?::MAX$', str(v[1]))
        if m:
            i = ity(m.group(1))
            n = 2 ** (i[1] - (1 if i[0] else 0)) - 1
        elif re.fullmatch(r'-?\d+', str(v[1])):
            n = int(v[1])
    return n is not None and n <= mx


def safe(ev, facts, jn):
    """the cast `ev` cannot change its operand"""
    v, frm, to = ev[1], ev[2], ev[3]
    if lossless(frm, to) or isconst(v):
        return True
    b = base(v)
    x, y = ity(frm), ity(to)
    if x and y and b[:1] == ('call',) and jn.get(b[1]) in SIZES and y[1] >= 31:
        return True
    if bound(b, facts, to):
        return True
    if b[:2] == ('fn', 'BitAnd') and any(limit(z, to) for z in b[2:]):
        return False
    # index of a traversal of something whose length was checked
    if re.search(r'Enumerate|Range|Zip', show(b)) and b[:1] == ('fld',):
        for k, f in facts.items():
            for s in subterms(k):
                if s[:2] == ('fn', 'len') and s[2] in set(subterms(b)) and bound(s, facts, to):
                    return True
        for s in subterms(b):
            if s[:2] == ('fn', 'len') and bound(s, facts, to):
                return True
    return False


def jnames(events):
    out = {}
    for e in events:
        j = jnispec.jni_call(e)
        if j:
            out[e[4]] = j[0].name
    return out


class P10:
    def __init__(self, c):
        self.c = c
        self.src = rast.Source()
        m, msg = jnibase.load(self.src)
        if m is None:
            c.violation('compile', 'jni-include', 'the Java glue does not compile: ' + str(msg)[-500:])
            return
        self.m = m
        self.numbers()
        self.glue(m, 'jni-include.rs')
        self.others()
        self.cpp()
        self.java()
        c.floor(IDENT, 20)
        c.floor(OPT, 10)
        c.floor(CAST, 25)
        c.floor(ARITH, 100)
        c.floor(CPP, 12)
        c.floor(JAVA, 5)

    # ---------------------------------------------------------------- rules between numbers
    def label(self, f):
        t = [re.sub(r"std::sync::|jni_sys::|'\w+ ", '', str(f.f.types.get(p))) for p in f.f.params]
        return '%s(%s)' % ('rule' if f.short.startswith('vf_rule') else f.short, ', '.join(x for x in t if 'JNINative' not in x))

    def outs(self, f, p):
        """values that leave the glue on a path, with what they are"""
        for e in p.evs:
            if e.kind in ('sink', 'jni'):
                for a in e.args:
                    yield e.name or 'result', a
        if not f.short.startswith('vf_rule'):
            yield 'result', p.ret

    def numbers(self):
        c = self.c
        for f in self.m.fns:
            if f.err or not f.f.params:
                continue
            rule = f.short.startswith('vf_rule')
            t0 = str(f.f.types.get(f.f.params[0]))
            nm = f.f.debug.get(f.f.params[0]) if hasattr(f.f, 'debug') else None
            where = 'macroslib/src/java_jni/jni-include.rs: %s' % self.label(f)
            if re.fullmatch(NUM + '|bool', t0) and (rule or re.fullmatch(NUM, f.f.ret or '')) and not re.fullmatch(r'(as_|from_)jint|box_object|unbox_object|jlong_to_pointer|to_pointer', f.short):
                pv = ('p', nm or 'p')
                for p in f.paths:
                    got = [a for e in p.evs if e.kind == 'sink' for a in e.args[:1]] if rule else [p.ret]
                    for v in got:
                        if re.search(r'from_jint|unbox_object|to_pointer|Option::', show(v)):
                            continue
                        b = base(v)
                        if t0 == 'bool':
                            t = {truth(k, x) for k, x in p.facts.items()}
                            on = (pv, True) in t
                            off = (pv, False) in t
                            ok = b == pv or b == ('c', '1') and on or b == ('c', '0') and off
                        elif self.boolean(b, pv):
                            ok = True
                        else:
                            ok = b == pv
                        c.require(ok, IDENT, '%s %s' % (where, f.short), self.label(f), '%s passes on %s for the number %s' % (where, show(v)[:160], nm or 'p'))
            elif re.fullmatch(r'(?:[\w:]*::)?Option<%s>' % NUM, t0) or any(re.fullmatch(r'(?:[\w:]*::)?Option<%s>' % NUM, str(f.f.types.get(q))) for q in f.f.params):
                for p in f.paths:
                    for what, v in self.outs(f, p):
                        for s in subterms(v):
                            if s[:1] == ('fld',) and s[1][:1] == ('as',) and s[1][2] == 'Some' and s[1][1][:1] == ('p',) and s[1][1] != ('p', 'env'):
                                c.require(what == 'result' and v[:1] == ('call',) or base(v) == s, OPT, '%s %s' % (where, what), self.label(f),
                                          '%s passes %s to %s instead of the number itself' % (where, show(v)[:120], what))
            if re.fullmatch(r'(?:[\w:]*::)?Option<%s>' % NUM, f.f.ret or '') or rule:
                self.unboxed(f, where)

    def boolean(self, b, pv):
        """b says whether pv is not zero"""
        n = 0
        while isinstance(b, tuple) and b[:2] == ('fn', 'not'):
            b, n = b[2], n + 1
        if b[:2] == ('fn', 'eq') and len(b) == 4:
            x = set(b[2:])
            return x == {('c', '0'), pv} and n % 2 == 1 or x == {('c', '1'), pv} and n % 2 == 0
        if b[:2] == ('fn', 'lt'):
            return b[2:] == (('c', '0'), pv) and n % 2 == 0
        return False

    def unboxed(self, f, where):
        """Some(x) for a number x that a Java call has given"""
        for p in f.paths:
            jn = {e.id: e.name for e in p.evs if e.kind == 'jni'}
            vs = [p.ret] if not f.short.startswith('vf_rule') else [a for e in p.evs if e.kind == 'sink' for a in e.args[:1]]
            for v in vs:
                if v[:1] == ('agg',) and v[1] == 'Option' and v[2] == 'Some':
                    x = v[3][0][1]
                    calls = [s for s in subterms(x) if s[:1] == ('call',) and re.fullmatch(r'Call(Byte|Short|Int|Long|Float|Double|Char)Method[AV]?', jn.get(s[1]) or '')]
                    if calls:
                        b = base(x)
                        self.c.require(b in calls, OPT, '%s from %s' % (where, jn.get(calls[0][1])), self.label(f) + '/unbox',
                                       '%s makes %s of the number Java gave' % (where, show(x)[:150]))

    # ---------------------------------------------------------------- casts and arithmetic
    def glue(self, m, what):
        """all functions of a jnibase Model"""
        for f in m.fns:
            self.func(f.short, f.f, self.label(f) if what == 'jni-include.rs' else f.short, what,
                      [(p.p.events, p.ret, {e.id: e.name for e in p.evs if e.kind == 'jni'}, p.facts, list(self.outs(f, p))) for p in f.paths], f.err)

    def func(self, short, f, label, what, paths, err):
        c = self.c
        numeric = [s for b in f.blocks.values() for s in b[0] if s.rv is not None and (s.rv.kind == 'cast' and re.search(r'\((IntToInt|FloatToInt|IntToFloat|FloatToFloat)\)', s.rv.name or ''))]
        ar = [s for b in f.blocks.values() for s in b[0] if s.rv is not None and s.rv.kind == 'bin' and re.sub('WithOverflow|Unchecked', '', s.rv.name) in ARITHOPS]
        where = '%s: %s' % (what, label)
        c.ok(ARITH, where)
        if err:
            if numeric or ar:
                c.violation('analysis', where, '%s casts or computes numbers and cannot be analysed: %s' % (where, err))
            return
        done = set()
        for events, ret, jn, facts, outs in paths:
            for e in events:
                if e[0] != 'numcast':
                    continue
                ok = safe(e, facts, jn)
                key = '%s: %s as %s' % (label, e[2], e[3])
                if (key, ok) not in done:
                    done.add((key, ok))
                    c.require(ok, CAST, '%s: %s as %s of %s' % (where, e[2], e[3], show(e[1])[:60]), key,
                              '%s: `%s as %s` of %s, which nothing keeps within %s: the number can change silently' % (where, e[2], e[3], show(e[1])[:120], e[3]))
            for n, v in outs:
                for s in subterms(v):
                    if s[:1] == ('fn',) and s[1] in ARITHOPS and len(s) > 2 and not isconst(s) and not (s[1] in ('BitAnd', 'BitOr') and self.bools(s)):
                        key = '%s: %s' % (label[label.find('('):], s[1])
                        if key not in done:
                            done.add(key)
                            c.violation(ARITH, key, '%s: %s goes to %s, and the computation can wrap silently' % (where, show(s)[:160], n))
                    elif s[:1] == ('call',) and LOSSY.search(s[2]) and re.search(r'core::num|core::f(32|64)|std::f(32|64)|Result|<[iuf]\d|<impl [iuf]\d|Ord|cmp::', s[2]) and not isconst(s):
                        key = '%s: %s' % (label, rown.last_seg(s[2]))
                        if key not in done:
                            done.add(key)
                            c.violation(ARITH, key, '%s: the number that goes to %s has been through %s' % (where, n, s[2]))

    def bools(self, s):
        return any(isinstance(x, tuple) and x[:1] == ('fn',) and x[1] in ('eq', 'lt', 'not', 'is_null') for x in s[2:])

    # ---------------------------------------------------------------- generated glue and C++ glue
    def others(self):
        c = self.c
        old = core.Check.finish
        core.Check.finish = lambda self, *a, **k: 0
        self.failed = []
        try:
            for p in ('p12', 'p13', 'p14', 'p17', 'p18', 'p20', 'p22', 'p24', 'p25'):
                try:
                    importlib.import_module(p).run()
                except Exception as e:
                    self.failed.append((p, repr(e)[:200]))
        finally:
            core.Check.finish = old
        c.notes += ['units of %s were not built: %s' % x for x in self.failed]
        n = 0
        models = {id(m.g): m for m, _ in jnibase._cache.values() if m is not None}
        seen = set()
        for g in sorted(rown.SEEN, key=lambda g: g is not self.m.g):
            for name, f in sorted(g.fns.items()):
                l = rown.last_seg(name)
                num = [s for b in f.blocks.values() for s in b[0] if s.rv is not None and (
                    s.rv.kind == 'cast' and re.search(r'\((IntToInt|FloatToInt|IntToFloat|FloatToFloat)\)', s.rv.name or '')
                    or s.rv.kind == 'bin' and re.sub('WithOverflow|Unchecked', '', s.rv.name) in ARITHOPS)]
                sig = (re.sub(r'#\d+$|^vf_rule_\d+', '', l), tuple(f.types.get(p) for p in f.params), tuple(re.sub(r'_\d+|bb\d+|//.*', '', s.text) for s in num))
                if sig in seen:
                    continue
                seen.add(sig)
                if g is self.m.g:
                    continue        # decided above
                n += 1
                if not num:
                    c.ok(ARITH, 'generated or C++ glue: %s%s' % (l, sig[1]))
                    continue
                if id(g) in models:
                    fs = [x for x in models[id(g)].fns if x.f is f]
                    if fs:
                        x = fs[0]
                        self.func(l, f, l, 'generated Java glue', [(p.p.events, p.ret, {e.id: e.name for e in p.evs if e.kind == 'jni'}, p.facts, list(self.outs(x, p))) for p in x.paths], x.err)
                    continue
                it = rown.Interp(g, inline=lambda h: not rown.last_seg(h.name).startswith('vf_'), unroll=2)
                try:
                    ps, err = it.run(f), None
                except rown.Unsupported as e:
                    ps, err = [], str(e)
                self.func(l, f, l, 'Rust glue', [(p.events, p.ret, jnames(p.events), p.facts, [('result', p.ret)] + [
                    ('vf_sink', a) for e in p.events if e[0] == 'call' and rown.last_seg(e[1]).startswith('vf_') for a in e[2]]) for p in ps], err)
        c.analysed('functions of generated and C++ glue', n)

    # ---------------------------------------------------------------- C++
    QUERY = ('match castExpr(anyOf(hasCastKind("CK_IntegralCast"),hasCastKind("CK_FloatingToIntegral"),hasCastKind("CK_IntegralToFloating"),hasCastKind("CK_FloatingCast")),'
             'unless(isExpansionInSystemHeader()),unless(hasSourceExpression(integerLiteral())),unless(hasSourceExpression(characterLiteral())),unless(hasSourceExpression(unaryExprOrTypeTraitExpr())),'
             'unless(hasSourceExpression(conditionalOperator(hasTrueExpression(integerLiteral()),hasFalseExpression(integerLiteral())))))')
    W = {'bool': (False, 1), 'char': (True, 8), 'signed char': (True, 8), 'unsigned char': (False, 8), 'short': (True, 16), 'unsigned short': (False, 16), 'int': (True, 32),
         'unsigned int': (False, 32), 'long': (True, 64), 'unsigned long': (False, 64), 'long long': (True, 64), 'unsigned long long': (False, 64), 'float': ('f', 24), 'double': ('f', 53),
         'wchar_t': (True, 32), 'char16_t': (False, 16), 'char32_t': (False, 32), 'long double': ('f', 64)}

    def cpp(self):
        c = self.c
        seen = set()
        for i, (files, flags, std) in enumerate(llvmir.SEEN):
            key = (tuple(sorted(files.items())), std)
            if key in seen:
                continue
            seen.add(key)
            d = os.path.join(core.CACHE, 'cpp', 'p10-%d' % os.getpid())
            os.makedirs(d, exist_ok=True)
            try:
                for n, t in files.items():
                    open(os.path.join(d, n), 'w').write(t)
                p = subprocess.run(['clang-query', '-c', 'set output dump', '-c', 'enable output diag', '-c', self.QUERY, 'main.cc', '--', '-std=' + std, '-I.', '-w']
                                   + [x for x in flags if x[:2] in ('-D', '-U')], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=200)
            finally:
                for n in files:
                    os.remove(os.path.join(d, n))
                os.rmdir(d)
            unit = ' '.join(sorted(n for n in files if n != 'main.cc')) or 'conversions'
            if not re.search(r'\d+ match(es)?\.', p.stdout):
                c.notes.append('C++ unit %d (%s) was not parsed: %s' % (i, unit, (p.stdout + p.stderr)[:200]))
                continue
            c.ok(CPP, 'unit %d: %s' % (i, unit))
            for blk in re.split(r'\nMatch #\d+:\n', p.stdout)[1:]:
                where = re.search(r'(?:^|/)([\w.]+):(\d+):\d+: note: "root" binds here\n(.*)', blk)
                m = re.search(r"^(\w*CastExpr|CXXFunctionalCastExpr) .*?'([^']*)'(?::'([^']*)')?.*<(\w+)>.*\n(.*)", blk, re.M)
                if not m or not where:
                    continue
                to = m.group(3) or m.group(2)
                ch = re.search(r"(\w+) 0x\w+ .*?'([^']*)'(?::'([^']*)')?", m.group(5))
                if not ch:
                    continue
                frm = ch.group(3) or ch.group(2)
                if 'enum' in m.group(5).lower() or ch.group(1) == 'ConstantExpr' or re.search(r"EnumConstant", blk):
                    continue
                a, b = self.W.get(frm), self.W.get(to)
                if a is None or b is None:
                    continue        # enums are decided by P25
                f, line, text = where.groups()
                if f == 'main.cc' and not re.search(r't_\d+_\w+_c\(', text):
                    continue        # the driver of another check, no glue
                if a[0] == 'f' or b[0] == 'f':
                    ok = a[0] == b[0] and a[1] <= b[1] or a[0] is not b[0] and a[0] != 'f' and a[1] - (1 if a[0] else 0) <= b[1]
                else:
                    ok = b[1] >= a[1] if a[0] == b[0] else (not a[0] and b[1] > a[1]) or to == 'bool'
                    if not ok and b[1] == a[1] and f.endswith('.hpp'):
                        ok = True       # lengths and steps of Rust buffers are at most isize::MAX; what is made of them is decided by P14
                text = re.sub(r'^\s*\d*\s*\|\s*', '', text).strip()
                c.ok(CPP, '%s: %s to %s: %s' % (f, frm, to, text[:80]))
                if not ok:
                    c.violation(CPP, '%s/%s to %s/%s' % (f, frm, to, text[:60]), 'C++ glue, %s: a value of type %s becomes %s and can change: %s' % (f, frm, to, text[:160]))

    # ---------------------------------------------------------------- Java
    NARROW = {'l2i', 'd2i', 'd2l', 'd2f', 'f2i', 'f2l', 'i2b', 'i2c', 'i2s', 'l2f', 'l2d', 'i2f'}

    def java(self):
        c = self.c
        for cl in javabc.SEEN:
            for k in cl.values():
                bad = [(m, i) for m in k.methods for i in m.code if i[1] in self.NARROW]
                c.ok(JAVA, 'class %s (%d methods)' % (k.name, len(k.methods)))
                for m, i in bad:
                    c.violation(JAVA, '%s.%s/%s' % (k.name, m.name, i[1]), 'generated Java: %s.%s narrows a number (%s)' % (k.name, m.name, i[1]))


def run():
    c = Check('P10', 'the MIR of every Rust conversion rule and helper, and of the glue generated for sample declarations, is evaluated: rules between numbers are the identity, '
              'every `as` cast is lossless by its types or bounded by a check of its operand on the path, and nothing that leaves is computed; the syntax tree of the compiled '
              'C++ glue and the bytecode of the generated Java are searched for narrowing conversions')
    P10(c)
    return c.finish(['64-bit targets (usize and isize have 64 bits)',
                     'sizes the JVM reports (GetArrayLength, GetStringLength) are not negative',
                     'std conversions From, TryFrom are those of their documentation'])
