"""Type-resolved MIR of the generator crate, parsed from rustc's own dump.

The compiler (nightly, -Zunpretty=mir, no MIR optimisation) is run on the
current working tree; the text is parsed into functions, blocks, statements and
terminators with places and operands.  Nothing of the crate is executed.
"""
import os, re, subprocess, sys, pickle, hashlib, time
from functools import lru_cache

OPEN = {'(': ')', '[': ']', '{': '}', '<': '>'}
CLOSE = {v: k for k, v in OPEN.items()}


def skip_quoted(s, i):
    """s[i] is a quote character: return the index after the literal."""
    q = s[i]
    i += 1
    n = len(s)
    while i < n:
        if s[i] == '\\':
            i += 2
            continue
        if s[i] == q:
            return i + 1
        i += 1
    return n


CHARLIT = re.compile(r"'(?:\\(?:u\{[0-9a-fA-F]+\}|x[0-9a-fA-F]{2}|.)|[^'\\])'")


def skip_atom(s, i):
    """step over a string / char literal if there is one at i, else None"""
    c = s[i]
    if c == '"':
        return skip_quoted(s, i)
    if c == "'":
        m = CHARLIT.match(s, i)
        if m:
            return m.end()
    return None


def match_close(s, i):
    """s[i] opens a bracket; index just after its partner (balanced, literals skipped)."""
    st = []
    n = len(s)
    while i < n:
        j = skip_atom(s, i)
        if j is not None:
            i = j
            continue
        c = s[i]
        if c == '-' and i + 1 < n and s[i + 1] == '>':
            i += 2
            continue
        if c in OPEN:
            st.append(c)
        elif c in CLOSE:
            if c == '>' and (not st or st[-1] != '<'):
                i += 1
                continue
            while st and st[-1] != CLOSE[c]:
                st.pop()
            if st:
                st.pop()
            if not st:
                return i + 1
        i += 1
    return n


def split_top(s, sep=','):
    out = []
    st = 0
    i = 0
    n = len(s)
    start = 0
    while i < n:
        j = skip_atom(s, i)
        if j is not None:
            i = j
            continue
        c = s[i]
        if c == '-' and i + 1 < n and s[i + 1] == '>':
            i += 2
            continue
        if c in OPEN:
            k = match_close(s, i)
            i = k
            continue
        if c == sep:
            out.append(s[start:i].strip())
            start = i + 1
        i += 1
    last = s[start:].strip()
    if last:
        out.append(last)
    return out


class Place:
    __slots__ = ('base', 'proj')

    def __init__(self, base, proj=()):
        self.base = base
        self.proj = tuple(proj)

    def __repr__(self):
        r = '_%d' % self.base
        for p in self.proj:
            if p[0] == 'deref':
                r = '(*%s)' % r
            elif p[0] == 'field':
                r = '%s.%d' % (r, p[1])
            elif p[0] == 'variant':
                r = '(%s as %s)' % (r, p[1])
            else:
                r = '%s[%s]' % (r, p[1])
        return r

    def __eq__(self, o):
        return isinstance(o, Place) and self.base == o.base and self.key() == o.key()

    def key(self):
        return tuple(p[:2] if p[0] == 'field' else p for p in self.proj)

    def __hash__(self):
        return hash((self.base, self.key()))


def parse_place(s, i=0):
    """parse a place at s[i:]; returns (Place, next index) or (None, i)"""
    n = len(s)
    if i < n and s[i] == '_' and i + 1 < n and s[i + 1].isdigit():
        m = re.compile(r'_(\d+)').match(s, i)
        p = Place(int(m.group(1)))
        i = m.end()
    elif i < n and s[i] == '(':
        if s.startswith('(*', i):
            p, j = parse_place(s, i + 2)
            if p is None or j >= n or s[j] != ')':
                return None, i
            p = Place(p.base, p.proj + (('deref',),))
            i = j + 1
        else:
            p, j = parse_place(s, i + 1)
            if p is None:
                return None, i
            if s.startswith(' as ', j):
                k = match_close(s, i)
                p = Place(p.base, p.proj + (('variant', s[j + 4:k - 1]),))
                i = k
            elif j < n and s[j] == '.':
                m = re.compile(r'\.(\d+): ').match(s, j)
                if not m:
                    return None, i
                k = match_close(s, i)
                p = Place(p.base, p.proj + (('field', int(m.group(1)), s[m.end():k - 1]),))
                i = k
            else:
                return None, i
    else:
        return None, i
    while i < n and s[i] == '[':
        k = match_close(s, i)
        p = Place(p.base, p.proj + (('index', s[i + 1:k - 1]),))
        i = k
    return p, i


class Op:
    """operand: kind in move, copy, const; or raw place reads (ref, refmut, discr, len)"""
    __slots__ = ('kind', 'place', 'const')

    def __init__(self, kind, place=None, const=None):
        self.kind, self.place, self.const = kind, place, const

    def __repr__(self):
        return '%s %s' % (self.kind, self.place if self.place else self.const)


def parse_operand(s):
    s = s.strip()
    for k in ('move ', 'copy '):
        if s.startswith(k):
            p, j = parse_place(s, len(k))
            if p is not None:
                return Op(k.strip(), p)
    if s.startswith('const '):
        return Op('const', None, s[6:])
    p, j = parse_place(s, 0)
    if p is not None and j == len(s):
        return Op('copy', p)
    return Op('const', None, s)


class RV:
    """rvalue: kind in use, ref, refmut, rawptr, discr, agg, bin, un, cast, len, other"""
    __slots__ = ('kind', 'ops', 'name', 'fields')

    def __init__(self, kind, ops, name=None, fields=None):
        self.kind, self.ops, self.name, self.fields = kind, ops, name, fields

    def __repr__(self):
        return '%s %s %s' % (self.kind, self.name, self.ops)


BINOPS = ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge', 'Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitAnd', 'BitOr', 'BitXor',
          'Shl', 'Shr', 'AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow', 'Cmp', 'Offset', 'AddUnchecked',
          'SubUnchecked', 'MulUnchecked')
RE_FN_OP = re.compile(r'([A-Za-z]\w*)\(')


def parse_rvalue(s):
    s = s.strip()
    if s.startswith('no_retag '):
        s = s[9:]
    if s.startswith('&'):
        for pre, k in (('&mut ', 'refmut'), ('&raw const (fake) ', 'rawptr'), ('&raw const ', 'rawptr'), ('&raw mut ', 'rawptr'), ('&fake shallow ', 'ref'),
                       ('&fake ', 'ref'), ('&two_phase mut ', 'refmut'), ('&', 'ref')):
            if s.startswith(pre):
                p, j = parse_place(s, len(pre))
                if p is not None:
                    return RV(k, [Op('copy', p)])
        return RV('other', [], s)
    if s.startswith(('move ', 'copy ', 'const ')):
        # cast?
        m = None
        if not s.startswith('const '):
            k = s[:5]
            p, j = parse_place(s, 5)
            if p is not None:
                rest = s[j:]
                if rest.startswith(' as '):
                    mm = re.search(r' \((\w[\w, ()]*)\)$', rest)
                    return RV('cast', [Op(k.strip(), p)], rest[4:])
                return RV('use', [Op(k.strip(), p)])
        else:
            mm = re.match(r'const (.*) as (.*) \((IntToInt|PointerCoercion.*|PtrToPtr|Transmute|FloatToInt|IntToFloat|FloatToFloat|FnPtrToPtr|PointerExposeProvenance|PointerWithExposedProvenance)\)$', s)
            if mm:
                return RV('cast', [Op('const', None, mm.group(1))], '%s (%s)' % (mm.group(2), mm.group(3)))
        return RV('use', [parse_operand(s)])
    m = RE_FN_OP.match(s)
    if m and s.endswith(')') and match_close(s, m.end() - 1) == len(s):
        nm = m.group(1)
        inner = s[m.end():-1]
        if nm == 'discriminant':
            p, _ = parse_place(inner)
            return RV('discr', [Op('copy', p)])
        if nm in BINOPS:
            return RV('bin', [parse_operand(x) for x in split_top(inner)], nm)
        if nm in ('Not', 'Neg', 'PtrMetadata'):
            return RV('un', [parse_operand(inner)], nm)
        if nm in ('Len', 'CopyForDeref', 'deref_copy'):
            p, _ = parse_place(inner)
            return RV('len' if nm == 'Len' else 'use', [Op('copy', p)] if p else [], nm)
    if s.startswith('deref_copy '):
        p, _ = parse_place(s, len('deref_copy '))
        return RV('use', [Op('copy', p)])
    if s.startswith('('):
        p, j = parse_place(s, 0)
        if p is not None and j == len(s):
            return RV('use', [Op('copy', p)])
        k = match_close(s, 0)
        if k == len(s):
            return RV('agg', [parse_operand(x) for x in split_top(s[1:-1])], '(tuple)')
    if s.startswith('['):
        inner = s[1:-1]
        parts = split_top(inner, ';')
        if len(parts) == 2:
            return RV('agg', [parse_operand(parts[0])], '[repeat]')
        return RV('agg', [parse_operand(x) for x in split_top(inner)], '[array]')
    if s.startswith('{closure@') or s.startswith('{coroutine@'):
        k = match_close(s, 0)
        name = s[:k]
        rest = s[k:].strip()
        ops = []
        fields = []
        if rest.startswith('{'):
            for x in split_top(rest[1:-1]):
                f, _, v = x.partition(': ')
                fields.append(f)
                ops.append(parse_operand(v))
        return RV('agg', ops, name, fields)
    # struct / enum aggregates
    if s.endswith('}'):
        # Path { a: op, b: op }
        i = s.find(' { ')
        depth = 0
        # find the top-level ' { '
        j = 0
        while j < len(s):
            a = skip_atom(s, j)
            if a is not None:
                j = a
                continue
            if s.startswith(' { ', j):
                name = s[:j]
                inner = s[j + 3:-1]
                ops, fields = [], []
                for x in split_top(inner):
                    f, _, v = x.partition(': ')
                    fields.append(f.strip())
                    ops.append(parse_operand(v))
                return RV('agg', ops, name, fields)
            if s[j] in '<([':
                j = match_close(s, j)
                continue
            j += 1
    if s.endswith(')'):
        # Path::Variant(op, op)
        j = 0
        while j < len(s):
            a = skip_atom(s, j)
            if a is not None:
                j = a
                continue
            if s[j] == '<':
                j = match_close(s, j)
                continue
            if s[j] == '(':
                if match_close(s, j) == len(s):
                    return RV('agg', [parse_operand(x) for x in split_top(s[j + 1:-1])], s[:j])
                j = match_close(s, j)
                continue
            j += 1
    if re.match(r'^[A-Za-z_<][\w:<>, &\'*\[\];()\-@./{}#]*$', s):
        return RV('agg', [], s)
    return RV('other', [], s)


class Stmt:
    __slots__ = ('place', 'rv', 'span', 'text')

    def __init__(self, place, rv, span, text):
        self.place, self.rv, self.span, self.text = place, rv, span, text

    def __repr__(self):
        return self.text


class Term:
    __slots__ = ('kind', 'dest', 'callee', 'args', 'targets', 'op', 'span', 'text', 'place', 'unwind')

    def __init__(self, kind, text, span):
        self.kind, self.text, self.span = kind, text, span
        self.dest = self.callee = self.op = self.place = self.unwind = None
        self.args = []
        self.targets = []   # list of (label, bb)

    def __repr__(self):
        return self.text

    def succ(self):
        return [b for _, b in self.targets]


class Fn:
    def __init__(self, name, params, ret):
        self.name, self.params, self.ret = name, params, ret
        self.types = {0: ret}
        self.debug = {}      # local -> source name
        self.debug_place = []
        self.blocks = {}
        self.file = None
        self.line = None

    def short(self):
        return short_name(self.name)

    def preds(self):
        if not hasattr(self, '_preds'):
            p = {b: [] for b in self.blocks}
            for b, (ss, t) in self.blocks.items():
                for x in t.succ():
                    p.setdefault(x, []).append(b)
            self._preds = p
        return self._preds

    def reachable(self, start=0, avoid=()):
        seen = set()
        st = [start]
        while st:
            b = st.pop()
            if b in seen or b in avoid:
                continue
            seen.add(b)
            st.extend(self.blocks[b][1].succ())
        return seen

    def calls(self):
        for b in self.live():
            t = self.blocks[b][1]
            if t.kind == 'call':
                yield b, t

    def live(self):
        if not hasattr(self, '_live'):
            self._live = self.reachable(0)
        return sorted(self._live)

    def loc(self, span):
        return span_loc(span)


def span_loc(span):
    m = re.match(r'(.*?):(\d+):\d+', span or '')
    return '%s:%s' % (m.group(1), m.group(2)) if m else '?'


IMPLRE = re.compile(r"<impl at ([^>]*?):(\d+):\d+: \d+:\d+>")


def short_name(n):
    n = IMPLRE.sub(lambda m: '<impl>', n)
    return n


HEAD = re.compile(r'^fn (.*)$')
STMT_RE = re.compile(r'^ = ')


def strip_span(line):
    i = line.rfind('// scope ')
    if i < 0:
        i = line.rfind('// in scope ')
    if i < 0:
        i = line.rfind('// return place in scope')
    if i < 0:
        return line.rstrip(), None
    c = line[i:]
    m = re.search(r' at (.*)$', c)
    return line[:i].rstrip(), (m.group(1) if m else None)


def parse_term(s, span):
    s = s.rstrip(';')
    if s.startswith('goto -> '):
        t = Term('goto', s, span)
        t.targets = [('goto', int(s[10:]))]
        return t
    if s.startswith('switchInt('):
        k = match_close(s, 9)
        t = Term('switch', s, span)
        t.op = parse_operand(s[10:k - 1])
        inner = s[s.index('[', k) + 1:-1]
        for x in split_top(inner):
            a, _, b = x.rpartition(': bb')
            t.targets.append((a, int(b)))
        return t
    if s in ('return', 'resume', 'unreachable', 'abort') or s.startswith('terminate') or s.startswith('coroutine_drop'):
        return Term(s.split('(')[0].split(' ')[0], s, span)
    if s.startswith('drop('):
        k = match_close(s, 4)
        t = Term('drop', s, span)
        t.place, _ = parse_place(s, 5)
        m = re.search(r'return: bb(\d+)', s[k:])
        t.targets = [('return', int(m.group(1)))] if m else []
        return t
    if s.startswith('assert('):
        k = match_close(s, 6)
        t = Term('assert', s, span)
        a0 = split_top(s[7:k - 1])[0]
        t.op = parse_operand(a0.lstrip('!'))
        m = re.search(r'success: bb(\d+)', s[k:])
        t.targets = [('success', int(m.group(1)))]
        return t
    if s.startswith('falseEdge') or s.startswith('falseUnwind'):
        t = Term('goto', s, span)
        m = re.search(r'real: bb(\d+)', s)
        t.targets = [('goto', int(m.group(1)))]
        return t
    # call
    i = s.rfind(') -> ')
    if i >= 0:
        t = Term('call', s, span)
        head = s[:i + 1]
        tail = s[i + 5:]
        m = re.search(r'return: bb(\d+)', tail)
        if m:
            t.targets = [('return', int(m.group(1)))]
        else:
            m = re.match(r'bb(\d+)$', tail)
            if m:
                t.targets = [('return', int(m.group(1)))]
        p, j = parse_place(head, 0)
        if p is None or not head.startswith(' = ', j):
            return None
        t.dest = p
        rest = head[j + 3:]
        # args: last balanced group
        k = 0
        start = None
        while k < len(rest):
            a = skip_atom(rest, k)
            if a is not None:
                k = a
                continue
            c = rest[k]
            if c in '<[{':
                k = match_close(rest, k)
                continue
            if c == '(':
                e = match_close(rest, k)
                if e == len(rest):
                    start = k
                    break
                k = e
                continue
            k += 1
        if start is None:
            return None
        t.callee = rest[:start].strip()
        t.args = [parse_operand(x) for x in split_top(rest[start + 1:-1])]
        return t
    return None


def parse_mir(path):
    fns = {}
    cur = None
    bb = None
    stmts = None
    unparsed = []
    consts = {}
    cst = None
    statics = {}
    with open(path, encoding='utf-8', errors='replace') as f:
        for line in f:
            if line.startswith('fn '):
                cst = None
                h, sp = strip_span(line)
                h = h.rstrip('{').strip()[3:]
                # name(params) -> ret
                i = 0
                # find the '(' that starts params: first '(' at depth 0 for which '_1' or ')' follows
                k = 0
                start = None
                while k < len(h):
                    if h[k] == '<' or h[k] == '{' or h[k] == '[':
                        k = match_close(h, k)
                        continue
                    if h[k] == '(':
                        start = k
                        break
                    k += 1
                e = match_close(h, start)
                params = []
                name = h[:start]
                ret = h[e:].strip()
                ret = ret[3:].strip() if ret.startswith('->') else '()'
                cur = Fn(name, [], ret)
                for x in split_top(h[start + 1:e - 1]):
                    m = re.match(r'_(\d+): (.*)$', x, re.S)
                    if m:
                        cur.params.append(int(m.group(1)))
                        cur.types[int(m.group(1))] = m.group(2)
                base = name
                n = 2
                while name in fns:
                    name = '%s#%d' % (base, n)
                    n += 1
                cur.name = name
                fns[name] = cur
                bb = None
                continue
            if line.startswith(('const ', 'static ', 'promoted', 'alloc')):
                cur = None
                cst = None
                m = re.match(r'(alloc\d+) \(static: ([\w:]+),', line)
                if m:
                    statics[m.group(1)] = m.group(2)
                if line.startswith(('const ', 'static ')):
                    h, _ = strip_span(line)
                    m = re.match(r'(?:const|static)(?: mut)? (.*): (.*?) = \{$', h.rstrip())
                    if m:
                        # the name ends at the last ': ' outside brackets
                        hh = re.sub(r'^(const|static)( mut)? ', '', h.rstrip())
                        k = 0
                        while k < len(hh):
                            if hh[k] in '<{[':
                                k = match_close(hh, k)
                                continue
                            if hh.startswith(': ', k):
                                break
                            k += 1
                        cst = []
                        consts[hh[:k]] = cst
                continue
            if cur is None:
                if cst is not None and ' = ' in line and 'const ' in line:
                    s0, _ = strip_span(line.strip())
                    for m in re.finditer(r'const ("(?:[^"\\\\]|\\\\.)*"|[\w:.\-]+)', s0):
                        cst.append(m.group(1))
                elif cst is not None and re.search(r'= (std::ptr::|core::ptr::)?null(_mut)?::<', line):
                    cst.append('%null')
                continue
            if line.startswith('}'):
                cur = None
                continue
            s = line.strip()
            if not s or s.startswith('//'):
                continue
            s, span = strip_span(s)
            if not s:
                continue
            if s.startswith('debug '):
                m = re.match(r'debug (\S+) => (.*);$', s)
                if m:
                    p, j = parse_place(m.group(2))
                    if p is not None:
                        if not p.proj:
                            cur.debug.setdefault(p.base, m.group(1))
                        cur.debug_place.append((m.group(1), p))
                    if cur.line is None and span:
                        mm = re.match(r'(.*?):(\d+)', span)
                        cur.file, cur.line = mm.group(1), int(mm.group(2))
                continue
            if s.startswith('let '):
                m = re.match(r'let (?:mut )?_(\d+): (.*);$', s)
                if m:
                    cur.types[int(m.group(1))] = m.group(2)
                    if cur.line is None and span:
                        mm = re.match(r'(.*?):(\d+)', span)
                        if mm:
                            cur.file, cur.line = mm.group(1), int(mm.group(2))
                continue
            if s.startswith('scope '):
                continue
            m = re.match(r'bb(\d+)(?: \(cleanup\))?: \{$', s)
            if m:
                bb = int(m.group(1))
                stmts = []
                continue
            if bb is None:
                continue
            if s == '}':
                continue
            if s.startswith(('StorageLive', 'StorageDead', 'nop', 'ConstEvalCounter', 'Coverage', 'FakeRead', 'AscribeUserType', 'PlaceMention', 'BackwardIncompatible', 'Retag')):
                continue
            # terminator?
            if ' -> ' in s or s.rstrip(';') in ('return', 'resume', 'unreachable', 'abort') or s.startswith('terminate'):
                t = None
                if s.startswith(('goto', 'switchInt', 'return', 'resume', 'unreachable', 'drop(', 'assert(', 'abort', 'terminate', 'false')) or re.search(r'\) -> (\[|unwind|bb)', s):
                    t = parse_term(s, span)
                if t is not None:
                    cur.blocks[bb] = (stmts, t)
                    bb = None
                    continue
            p, j = parse_place(s, 0)
            if p is not None and s.startswith(' = ', j):
                rv = parse_rvalue(s[j + 3:].rstrip(';'))
                stmts.append(Stmt(p, rv, span, s))
                if rv.kind == 'other':
                    unparsed.append((cur.name, s))
                continue
            if s.startswith('discriminant('):
                continue
            if s.startswith('assume('):
                continue
            unparsed.append((cur.name, s))
    for a, n in statics.items():
        if n in consts:
            consts[a] = consts[n]
    fns['%consts'] = consts
    return fns, unparsed


def callee_key(c):
    """(qualifier, method) of a callee path with generics removed, e.g. ('FileWriteCache','new'),
    ('<A as B>', 'm')."""
    s = strip_generics(c)
    return s


@lru_cache(maxsize=None)
def strip_generics(c):
    """remove ::<...> turbofish groups and generic args; keep '<T as Trait>' head as 'T as Trait'"""
    out = []
    i = 0
    n = len(c)
    while i < n:
        if c[i] == '<':
            j = match_close(c, i)
            if i == 0:
                inner = c[1:j - 1]
                parts = split_as(inner)
                if parts:
                    out.append('<%s as %s>' % (strip_generics(parts[0]), strip_generics(parts[1])))
                else:
                    out.append('<%s>' % strip_generics(inner))
            else:
                # drop; also drop a preceding '::'
                if len(out) >= 2 and out[-1] == ':' and out[-2] == ':':
                    out.pop()
                    out.pop()
            i = j
            continue
        if c[i] in '({[' and i == 0:
            j = match_close(c, i)
            out.append(c[i:j])
            i = j
            continue
        out.append(c[i])
        i += 1
    return ''.join(out)


def split_as(s):
    i = 0
    while i < len(s):
        a = skip_atom(s, i)
        if a is not None:
            i = a
            continue
        if s[i] in '<([{':
            i = match_close(s, i)
            continue
        if s.startswith(' as ', i):
            return s[:i], s[i + 4:]
        i += 1
    return None


def last_seg(path):
    return path.rsplit('::', 1)[-1]


@lru_cache(maxsize=None)
def type_head(t):
    """outermost type constructor, last path segment: '&mut std::vec::Vec<T>' -> 'Vec' (refs stripped)"""
    t = t.strip()
    while True:
        m = re.match(r"&(?:'\w+ )?(?:mut )?|\*const |\*mut ", t)
        if m:
            t = t[m.end():].strip()
            continue
        break
    if t.startswith('{closure@'):
        return t
    if t.startswith('dyn ') or t.startswith('impl '):
        t = t.split(' ', 1)[1]
    return last_seg(strip_generics(t))


def generic_args(t):
    t = t.strip()
    i = t.find('<')
    if i < 0:
        return []
    j = match_close(t, i)
    return split_top(t[i + 1:j - 1])


CLOSURE_RE = re.compile(r'\{closure@([^{}]*?)\}')


class Crate:
    def __init__(self, fns, root):
        self.consts = fns.pop('%consts', {})
        self.fns = fns
        self.root = root
        self.by_last = {}
        self.closures = {}
        self.impl_type = {}
        for n, f in fns.items():
            f.impl = (None, None)
            base = n.split('#')[0] if not n.endswith('}') and '#' in n.rsplit('::', 1)[-1] else n
            if '{closure#' in n:
                if f.params:
                    m = CLOSURE_RE.search(f.types.get(f.params[0], ''))
                    if m:
                        self.closures[m.group(1)] = f
                if n.rsplit('::', 1)[-1].startswith('{closure#'):
                    continue
            self.by_last.setdefault(last_seg(base), []).append(f)
            f.impl = self._impl_of(n)

    def _impl_of(self, n):
        ms = list(IMPLRE.finditer(n))
        if not ms:
            # inherent path module::fn or Type::fn (trait default methods)
            parts = n.split('::')
            return (None, parts[-2] if len(parts) > 1 and parts[-2][:1].isupper() else None)
        m = ms[-1]
        key = (m.group(1), int(m.group(2)))
        if key in self.impl_type:
            return self.impl_type[key]
        txt = ''
        try:
            lines = self._lines(m.group(1))
            txt = ' '.join(l.strip() for l in lines[int(m.group(2)) - 1:int(m.group(2)) + 6])
        except OSError:
            pass
        r = parse_impl_header(txt)
        self.impl_type[key] = r
        return r

    @lru_cache(maxsize=None)
    def _lines(self, rel):
        with open(os.path.join(self.root, rel), encoding='utf-8') as f:
            return f.read().split('\n')

    @staticmethod
    def _impl_path(m):
        # `python::<impl PythonConfig>::f`, `m::<impl Trait for Type>::f`
        x = m.group(1)
        if ' for ' in x:
            tr, ty = x.split(' for ', 1)
            return '<%s as %s>::%s' % (ty, tr, m.group(2))
        return '%s::%s' % (x, m.group(2))

    def resolve(self, callee, argtypes=()):
        """callee path text -> Fn of this crate, or None"""
        callee = re.sub(r'^(?:\w+::)*<impl ([^<>]*(?:<.*>)?)>::(\w+)', self._impl_path, callee)
        c = strip_generics(callee)
        name = last_seg(c)
        cands = self.by_last.get(name)
        if not cands:
            return None
        m = re.match(r'^<(.*) as (.*)>::\w+$', c)
        if m:
            ty, tr = type_head(m.group(1)), last_seg(m.group(2))
            r = [f for f in cands if f.impl[1] == ty and f.impl[0] == tr]
            if len(r) == 1:
                return r[0]
            if not r:
                # default method of the trait
                r = [f for f in cands if f.impl == (None, tr)]
                if len(r) == 1:
                    return r[0]
            return None
        qual = c[:-(len(name) + 2)] if '::' in c else ''
        q = last_seg(qual) if qual else ''
        if q[:1].isupper() or q.startswith('<'):
            r = [f for f in cands if f.impl[1] == q and f.impl[0] is None]
            if not r:
                r = [f for f in cands if f.impl[1] == q]
            if len(r) == 1:
                return r[0]
            return None
        # free function, maybe with (partial) module path
        r = [f for f in cands if f.impl[1] is None and (f.name == c or f.name.endswith('::' + c))]
        if len(r) > 1:
            r2 = [f for f in r if f.name == c]
            r = r2 or r
        if len(r) == 1:
            return r[0]
        return None

    def const_key(self, n):
        m = None
        for m in re.finditer(r'<impl ', n):
            pass
        if m is None:
            return (None, None, n)
        e = match_close(n, m.start())
        inner = n[m.start() + 1:e - 1]
        if inner.startswith('impl at '):
            imp = self._impl_of(n[:e])
        else:
            imp = parse_impl_header(inner + ' {')
        return (n[:m.start()], imp, n[e:])

    def const_values(self, n):
        """literal values inside the named (possibly promoted) constant"""
        if not hasattr(self, '_cv'):
            self._cv = {}
            for k, v in self.consts.items():
                self._cv[self.const_key(k)] = v
        n = n.strip()
        if n in self.consts:
            return self.consts[n]
        try:
            r = self._cv.get(self.const_key(n))
        except Exception:
            r = None
        if r is None:
            c = [v for k, v in self.consts.items() if k.endswith('::' + n)]
            if len(c) == 1:
                r = c[0]
        return r

    def closure_of_type(self, ty):
        m = CLOSURE_RE.search(ty or '')
        return self.closures.get(m.group(1)) if m else None


def parse_impl_header(txt):
    """'impl<T> Trait for Type<..> {' -> (Trait or None, Type)"""
    # attributes such as #[derive(..)] point at the derive: '<impl at file:line>' of a derived trait
    m = re.match(r'(?:unsafe )?impl\b', txt)
    if not m:
        m2 = re.search(r'\b(?:struct|enum|union)\s+(\w+)', txt)
        return ('derive', m2.group(1)) if m2 else (None, None)
    s = txt[m.end():].strip()
    if s.startswith('<'):
        s = s[match_close(s, 0):].strip()
    # up to ' {' or ' where '
    i = 0
    end = len(s)
    forpos = None
    while i < len(s):
        if s[i] in '<([':
            i = match_close(s, i)
            continue
        if s[i] == '{' or s.startswith(' where ', i):
            end = i
            break
        if s.startswith(' for ', i) and forpos is None:
            forpos = i
        i += 1
    if forpos is not None and forpos < end:
        return (type_head(s[:forpos]), type_head(s[forpos + 5:end]))
    return (None, type_head(s[:end]))


def source_hash(repo):
    h = hashlib.sha256()
    for base, dirs, files in os.walk(os.path.join(repo, 'macroslib')):
        dirs[:] = [d for d in sorted(dirs) if d not in ('target', 'tests')]
        for f in sorted(files):
            p = os.path.join(base, f)
            h.update(p.encode())
            with open(p, 'rb') as fh:
                h.update(fh.read())
    with open(__file__, 'rb') as fh:
        h.update(fh.read())
    return h.hexdigest()[:24]


def load(repo, cache):
    os.makedirs(cache, exist_ok=True)
    key = source_hash(repo)
    pk = os.path.join(cache, 'mir-%s.pickle' % key)
    if os.path.exists(pk):
        with open(pk, 'rb') as f:
            fns, unparsed = pickle.load(f)
        return Crate(fns, repo), unparsed
    out = os.path.join(cache, 'out-%d.mir' % os.getpid())
    env = dict(os.environ)
    env['CARGO_TARGET_DIR'] = os.path.join(cache, 'mirtarget')
    env.pop('RUSTUP_TOOLCHAIN', None)
    env.pop('RUSTFLAGS', None)
    # the fingerprint cache would skip the dump on an unchanged tree: a unique cfg forces the run
    cmd = ['cargo', '+nightly', 'rustc', '--offline', '--lib', '--profile', 'check', '--',
           '-Zunpretty=mir', '-Zmir-opt-level=0', '-Zmir-include-spans=on', '-Awarnings',
           '--cfg', 'vprun_%d_%d' % (os.getpid(), int(time.time()))]
    with open(out, 'wb') as o:
        r = subprocess.run(cmd, cwd=os.path.join(repo, 'macroslib'), env=env, stdout=o, stderr=subprocess.PIPE)
    if r.returncode != 0:
        sys.stderr.write(r.stderr.decode(errors='replace')[-3000:])
        raise RuntimeError('MIR dump failed')
    fns, unparsed = parse_mir(out)
    os.remove(out)
    if len(fns) < 800:
        raise RuntimeError('MIR dump incomplete: %d functions' % len(fns))
    sys.setrecursionlimit(10000)
    tmp = pk + '.%d' % os.getpid()
    with open(tmp, 'wb') as f:
        pickle.dump((fns, unparsed), f)
    os.replace(tmp, pk)
    return Crate(fns, repo), unparsed
