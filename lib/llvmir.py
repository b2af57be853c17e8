"""LLVM IR of C++ text, and an abstract interpreter over it.

Values are polynomials over opaque atoms (initial field contents, results of external calls, indices), memory is a
map (object, offset, size) -> value, a branch that the facts of the path do not decide is followed both ways.  Loops
with unknown trip count are not unrolled: they are reported as Unknown."""
import os, re, subprocess, itertools
from core import CACHE

CLANG = 'clang++'


class Unknown(Exception):
    pass


SEEN = []       # translation units compiled by this process: (files, flags, std)


class CompileError(Exception):
    pass


def compile_ir(name, files, flags=(), std='c++17'):
    """files: {relative name: text}; `main.cc` is the translation unit; returns IR text"""
    d = os.path.join(CACHE, 'cpp', name + '-%d' % os.getpid())
    os.makedirs(d, exist_ok=True)
    try:
        for f, t in files.items():
            with open(os.path.join(d, f), 'w') as o:
                o.write(t)
        cmd = [CLANG, '-std=' + std, '-O2', '-fno-exceptions', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops',
               '-fno-delete-null-pointer-checks', '-fno-strict-aliasing', '-gline-tables-only', '-Wno-everything',
               '-fno-optimize-sibling-calls', '-fno-discard-value-names', '-I.', '-S', '-emit-llvm', '-o', '-', 'main.cc'] + list(flags)
        p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
        if p.returncode:
            raise CompileError(p.stderr)
        SEEN.append((dict(files), tuple(flags), std))
        return p.stdout
    finally:
        for f in files:
            try:
                os.remove(os.path.join(d, f))
            except OSError:
                pass
        try:
            os.rmdir(d)
        except OSError:
            pass


# ---------------------------------------------------------------- polynomials
M64 = 1 << 64


def norm(c):
    c %= M64
    return c - M64 if c >= M64 // 2 else c


class P:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = tuple(sorted(((m, norm(c)) for m, c in t if norm(c)), key=repr))

    def __eq__(self, o):
        return isinstance(o, P) and self.t == o.t

    def __hash__(self):
        return hash(self.t)

    def __add__(self, o):
        d = dict(self.t)
        for m, c in o.t:
            d[m] = d.get(m, 0) + c
        return P(d.items())

    def __neg__(self):
        return P([(m, -c) for m, c in self.t])

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        d = {}
        for m, c in self.t:
            for n, e in o.t:
                k = tuple(sorted(m + n, key=repr))
                d[k] = d.get(k, 0) + c * e
        return P(d.items())

    def const(self):
        if not self.t:
            return 0
        if len(self.t) == 1 and self.t[0][0] == ():
            return self.t[0][1]
        return None

    def atom(self):
        if len(self.t) == 1 and self.t[0][1] == 1 and len(self.t[0][0]) == 1:
            return self.t[0][0][0]
        return None

    def atoms(self):
        return {a for m, _ in self.t for a in m}

    def subst(self, f):
        """replace atoms by polynomials (f: atom -> P or None)"""
        r = K(0)
        for m, c in self.t:
            x = K(c)
            for a in m:
                y = f(a)
                x = x * (y if y is not None else A(a))
            r = r + x
        return r

    def __repr__(self):
        if not self.t:
            return '0'
        out = []
        for m, c in self.t:
            s = '*'.join(show(a) for a in m)
            out.append(s if c == 1 and m else (str(c) if not m else '%d*%s' % (c, s)))
        return ' + '.join(out)


def show(a):
    if isinstance(a, tuple):
        if a[0] == 'in':
            return '%s[%d]' % (a[1], a[2])
        if a[0] == 'addr':
            return '&' + str(a[1])
        if a[0] == 'op':
            return '%s(%s)' % (a[1], ', '.join(map(repr, a[2:])))
        return '.'.join(str(x) for x in a)
    return str(a)


def K(n):
    return P([((), n)])


def A(a):
    return P([((a,), 1)])


UNDEF = A('undefined')


# ---------------------------------------------------------------- parsing
def split_top(s, sep=','):
    out, depth, cur, q = [], 0, '', False
    for ch in s:
        if ch == '"':
            q = not q
        if not q:
            if ch in '([{<':
                depth += 1
            elif ch in ')]}>':
                depth -= 1
            elif ch == sep and depth == 0:
                out.append(cur.strip())
                cur = ''
                continue
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class Ins:
    __slots__ = ('res', 'op', 'text', 'dbg')

    def __init__(self, res, op, text, dbg):
        self.res, self.op, self.text, self.dbg = res, op, text, dbg


class Module:
    def __init__(self, text):
        self.types = {}
        self.fns = {}
        self.globals = {}
        self.md = {}
        cur = blk = None
        for line in text.split('\n'):
            if cur is None:
                m = re.match(r'(%[\w.:"$<>, -]+) = type (.*)$', line)
                if m:
                    self.types[m.group(1)] = m.group(2)
                    continue
                m = re.match(r'define .*?@("[^"]*"|[\w.$]+)\((.*)\) .*\{', line) or re.match(r'define .*?@("[^"]*"|[\w.$]+)\((.*)\)[^)]*\{', line)
                if m:
                    sig = self._params(line)
                    cur = dict(name=m.group(1).strip('"'), params=sig, blocks={}, order=[], ret=self._ret(line))
                    blk = None
                    continue
                m = re.match(r'(@[\w.$"]+) = (.*)$', line)
                if m:
                    self.globals[m.group(1)] = m.group(2)
                    continue
                m = re.match(r'(!\d+) = (?:distinct )?(.*)$', line)
                if m:
                    self.md[m.group(1)] = m.group(2)
                continue
            if line == '}':
                self.fns[cur['name']] = cur
                cur = None
                continue
            line = re.sub(r'\s+;.*$', '', line)
            if not line.strip():
                continue
            m = re.match(r'^("?[\w.$-]+"?):', line)
            if m:
                blk = m.group(1).strip('"')
                cur['blocks'][blk] = []
                cur['order'].append(blk)
                continue
            if blk is None:
                blk = 'entry'
                cur['blocks'][blk] = []
                cur['order'].append(blk)
            st = line.strip()
            if cur['blocks'][blk] and cur['blocks'][blk][-1].op == 'switch' and not cur['blocks'][blk][-1].text.rstrip().endswith(']') and ']' not in cur['blocks'][blk][-1].text:
                cur['blocks'][blk][-1].text += ' ' + st
                continue
            dbg = None
            m = re.search(r', !dbg (!\d+)', st)
            if m:
                dbg = m.group(1)
            st2 = re.sub(r', ![\w.]+ !\d+', '', st)
            m = re.match(r'(%[\w.$"-]+) = (.*)$', st2)
            res, body = (m.group(1), m.group(2)) if m else (None, st2)
            op = body.split()[0]
            while op in ('tail', 'musttail', 'notail'):
                body = body[len(op) + 1:]
                op = body.split()[0]
            cur['blocks'][blk].append(Ins(res, op, body, dbg))

    def _params(self, line):
        i = line.index('(', line.index('@'))
        d = 0
        for j in range(i, len(line)):
            if line[j] == '(':
                d += 1
            elif line[j] == ')':
                d -= 1
                if d == 0:
                    break
        out = []
        for p in split_top(line[i + 1:j]):
            m = re.search(r'(%[\w.$"-]+)$', p)
            out.append((p, m.group(1) if m else None))
        return out

    def _ret(self, line):
        return re.split(r'@', line)[0]

    def loc(self, dbg):
        """(file, line, function) chain of a debug location, innermost first"""
        out = []
        while dbg:
            t = self.md.get(dbg, '')
            m = re.search(r'line: (\d+)', t)
            sc = re.search(r'scope: (!\d+)', t)
            ia = re.search(r'inlinedAt: (!\d+)', t)
            fn = fi = None
            s = sc and sc.group(1)
            while s:
                st = self.md.get(s, '')
                if st.startswith('!DISubprogram'):
                    n = re.search(r'name: "([^"]*)"', st)
                    fn = n and n.group(1)
                    f = re.search(r'file: (!\d+)', st)
                    ft = self.md.get(f.group(1), '') if f else ''
                    n = re.search(r'filename: "([^"]*)"', ft)
                    fi = n and os.path.basename(n.group(1))
                    break
                n = re.search(r'scope: (!\d+)', st)
                s = n and n.group(1)
            out.append((fi, int(m.group(1)) if m else 0, fn))
            dbg = ia and ia.group(1)
        return out

    def where(self, dbg):
        for f, l, fn in self.loc(dbg):
            if f and f != 'main.cc':
                return '%s:%d (%s)' % (f, l, fn)
        l = self.loc(dbg)
        return '%s:%d (%s)' % l[0] if l else '?'

    # ---- layout
    def size_align(self, t):
        t = t.strip()
        if t == 'ptr':
            return 8, 8
        m = re.match(r'i(\d+)$', t)
        if m:
            n = max(1, (int(m.group(1)) + 7) // 8)
            return n, n
        if t == 'float':
            return 4, 4
        if t == 'double':
            return 8, 8
        if t.startswith('%'):
            return self.size_align(self.types[t])
        m = re.match(r'\[(\d+) x (.*)\]$', t)
        if m:
            s, a = self.size_align(m.group(2))
            return s * int(m.group(1)), a
        if t.startswith('<{'):
            return sum(self.size_align(x)[0] for x in split_top(t[2:-2])), 1
        if t.startswith('{'):
            off, al = 0, 1
            for x in split_top(t[1:-1]):
                s, a = self.size_align(x)
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        raise Unknown('type ' + t)

    def fields(self, t):
        """flattened scalar cells of a type: [(offset, size)]"""
        t = t.strip()
        if t.startswith('%'):
            return self.fields(self.types[t])
        m = re.match(r'\[(\d+) x (.*)\]$', t)
        if m:
            s, _ = self.size_align(m.group(2))
            return [(i * s + o, z) for i in range(int(m.group(1))) for o, z in self.fields(m.group(2))]
        if t.startswith('{') or t.startswith('<{'):
            packed = t.startswith('<{')
            out, off = [], 0
            for x in split_top(t[2:-2] if packed else t[1:-1]):
                s, a = self.size_align(x)
                if not packed:
                    off = (off + a - 1) // a * a
                out += [(off + o, z) for o, z in self.fields(x)]
                off += s
            return out
        return [(0, self.size_align(t)[0])]

    def field_off(self, t, i):
        t = t.strip()
        if t.startswith('%'):
            return self.field_off(self.types[t], i)
        m = re.match(r'\[(\d+) x (.*)\]$', t)
        if m:
            return self.size_align(m.group(2))[0] * i, m.group(2)
        packed = t.startswith('<{')
        off = 0
        for n, x in enumerate(split_top(t[2:-2] if packed else t[1:-1])):
            s, a = self.size_align(x)
            if not packed:
                off = (off + a - 1) // a * a
            if n == i:
                return off, x
            off += s
        raise Unknown('field %d of %s' % (i, t))


class Event:
    def __init__(self, name, args, where, ret=None, kind='call'):
        self.name, self.args, self.where, self.ret, self.kind = name, args, where, ret, kind

    def __repr__(self):
        return '%s(%s)@%s' % (self.name, self.args, self.where)


class State:
    def __init__(self):
        self.mem = {}        # obj -> {off: (size, value)}
        self.mode = {}       # obj -> 'sym' | 'uninit' | 'zero'
        self.facts = []
        self.events = []
        self.nid = 0
        self.end = None
        self.ret = None

    def copy(self):
        s = State()
        s.mem = {k: dict(v) for k, v in self.mem.items()}
        s.mode = dict(self.mode)
        s.facts = list(self.facts)
        s.events = list(self.events)
        s.nid = self.nid
        return s

    def new(self, pre):
        self.nid += 1
        return '%s#%d' % (pre, self.nid)


def load(s, obj, off, size):
    c = s.mem.setdefault(obj, {})
    if off in c and c[off][0] == size:
        return c[off][1]
    for o, (z, v) in c.items():
        if o < off + size and off < o + z:
            # partly overlapping: known only for zero
            ov = [(o2, z2, v2) for o2, (z2, v2) in c.items() if o2 < off + size and off < o2 + z2]
            if all(v2.const() == 0 for _, _, v2 in ov) and sum(z2 for _, z2, _ in ov) >= size:
                return K(0)
            if o <= off and off + size <= o + z and v.const() is not None:
                return K(((v.const() % (1 << (8 * z))) >> (8 * (off - o))) & ((1 << (8 * size)) - 1))
            return A(('part', obj, off, size))
    m = s.mode.get(obj, 'sym')
    v = K(0) if m == 'zero' else A(('uninit', obj, off)) if m == 'uninit' else A(('in', obj, off, size))
    c[off] = (size, v)
    return v


def store(s, obj, off, size, v):
    c = s.mem.setdefault(obj, {})
    for o in [o for o, (z, _) in c.items() if o < off + size and off < o + z]:
        z, old = c[o]
        if o == off and z == size:
            del c[o]
        elif old.const() == 0:
            del c[o]
            for b in range(o, o + z):
                if not off <= b < off + size:
                    c[b] = (1, K(0))
        else:
            del c[o]
            for b in range(o, o + z):
                if not off <= b < off + size:
                    c[b] = (1, A(('part', obj, b, 1)))
    c[off] = (size, v)


PRED_NEG = dict(eq='ne', ne='eq', ult='uge', uge='ult', ugt='ule', ule='ugt', slt='sge', sge='slt', sgt='sle', sle='sgt')
PRED_SWAP = dict(eq='eq', ne='ne', ult='ugt', ugt='ult', uge='ule', ule='uge', slt='sgt', sgt='slt', sge='sle', sle='sge')


def nonnull(p):
    """is the polynomial certainly an address"""
    a = [x for m, c in p.t for x in m if isinstance(x, tuple) and x[0] == 'addr']
    rest = p
    if len(a) == 1:
        rest = p - A(a[0])
        return rest.const() is not None
    return False


def decide(facts, pred, a, b):
    d = a - b
    ca, cb, cd = a.const(), b.const(), d.const()
    if pred in ('eq', 'ne'):
        r = None
        if cd is not None:
            r = cd == 0
        elif (nonnull(a) and cb == 0) or (nonnull(b) and ca == 0):
            r = False
        else:
            at = {x for x in d.atoms() if isinstance(x, tuple) and x[0] == 'addr'}
            if len(at) == 2 and (d.t and all(len(m) <= 1 for m, _ in d.t)):
                r = False
            for f, x, y, t in facts:
                if f in ('eq', 'ne') and (x - y == d or y - x == d):
                    r = (f == 'eq') == t
        return None if r is None else (r == (pred == 'eq'))
    if cd == 0:
        return pred in ('ule', 'uge', 'sle', 'sge')
    if ca is not None and cb is not None:
        if pred[0] == 'u':
            x, y = ca % M64, cb % M64
        else:
            x, y = ca, cb
        return dict(lt=x < y, gt=x > y, le=x <= y, ge=x >= y)[pred[1:]]
    if cb == 0 and pred == 'ult':
        return False
    if cb == 0 and pred == 'uge':
        return True
    if ca == 0 and pred == 'ugt':
        return False
    for f, x, y, t in facts:
        for q, u, v in ((f, x, y), (PRED_SWAP[f], y, x)):
            if u == a and v == b:
                if q == pred:
                    return t
                if PRED_NEG[q] == pred:
                    return not t
    return None


class Interp:
    def __init__(self, mod, spec=None, max_paths=4096):
        self.m = mod
        self.spec = spec or {}
        self.max_paths = max_paths

    # ---- values
    def val(self, env, t, ty=None):
        t = t.strip()
        if t.startswith('%'):
            return env[t]
        if t in ('null', 'false', 'zeroinitializer'):
            return K(0)
        if t == 'true':
            return K(1)
        if t in ('undef', 'poison'):
            return UNDEF
        if re.match(r'-?\d+$', t):
            return K(int(t))
        m = re.match(r'inttoptr \(i\d+ (-?\d+) to ptr\)$', t)
        if m:
            return K(int(m.group(1)))
        m = re.match(r'ptrtoint \(ptr (.*) to i64\)$', t)
        if m:
            return self.val(env, m.group(1))
        if t.startswith('@'):
            return A(('addr', t))
        m = re.match(r'getelementptr (?:inbounds )?\((.*)\)$', t)
        if m:
            return self.gep(env, m.group(1))
        m = re.match(r'(\w+) \(', t)
        raise Unknown('constant ' + t)

    def typed(self, env, t):
        """'ptr noundef nonnull %x' -> value"""
        t = t.strip()
        m = re.search(r'(%[\w.$"-]+|@[\w.$"]+|null|true|false|undef|poison|zeroinitializer|-?\d+|(?:inttoptr|getelementptr|ptrtoint)(?: inbounds)? \(.*\))$', t)
        if not m:
            raise Unknown('operand ' + t)
        return self.val(env, m.group(1))

    def gep(self, env, body):
        parts = split_top(body)
        ty = parts[0]
        p = self.typed(env, parts[1])
        idx = [self.typed(env, x) for x in parts[2:]]
        s, _ = self.m.size_align(ty)
        p = p + idx[0] * K(s)
        for i in idx[1:]:
            t = ty.strip()
            while t.startswith('%'):
                t = self.m.types[t]
            if t.startswith('['):
                inner = re.match(r'\[\d+ x (.*)\]$', t).group(1)
                p = p + i * K(self.m.size_align(inner)[0])
                ty = inner
            else:
                o, ty = self.m.field_off(ty, i.const())
                p = p + K(o)
        return p

    def addr(self, p):
        """pointer -> (object, offset) or None"""
        a = [x for x in p.atoms() if isinstance(x, tuple) and x[0] == 'addr']
        if len(a) != 1:
            return None
        r = p - A(a[0])
        if r.const() is None:
            return None
        return a[0][1], r.const()

    def rd(self, s, p, ty):
        sz = self.m.size_align(ty)[0]
        a = self.addr(p)
        if a:
            if str(a[0]).startswith('@') and a[0] not in s.mem and a[0] not in s.mode:
                return A(('global', a[0], a[1]))
            if ty.strip().startswith(('{', '%', '[')):
                return [load(s, a[0], a[1] + o, z) for o, z in self.m.fields(ty)]
            return load(s, a[0], a[1], sz)
        s.events.append(Event('*load', [p, sz], None, kind='load'))
        return A(('op', 'load', p, K(sz)))

    def wr(self, s, p, ty, v, where=None):
        a = self.addr(p)
        if a:
            if isinstance(v, list):
                for (o, z), x in zip(self.m.fields(ty), v):
                    store(s, a[0], a[1] + o, z, x)
            else:
                store(s, a[0], a[1], self.m.size_align(ty)[0], v)
        else:
            s.events.append(Event('*store', [p, v], where, kind='store'))

    # ---- execution
    def run(self, name, state, args):
        """all paths of function `name`: list of final States (with .ret, .end in ret/abort)"""
        fn = self.m.fns.get(name)
        if fn is None:
            raise Unknown('function %s has no body in the IR' % name)
        env = {}
        for (txt, v), a in zip(fn['params'], args):
            env[v] = a
        st = state.copy()
        st.events = []
        out = []
        work = [(st, env, fn['order'][0], None, {})]
        while work:
            s, env, b, prev, seen = work.pop()
            if len(out) + len(work) > self.max_paths:
                raise Unknown('too many paths in ' + name)
            n = seen.get(b, 0)
            if n > 8:
                raise Unknown('loop in %s' % name)
            seen = dict(seen)
            seen[b] = n + 1
            self.block(fn, s, env, b, prev, seen, work, out)
        return out

    def block(self, fn, s, env, b, prev, seen, work, out, start=0):
        ins = fn['blocks'][b]
        # phis in parallel
        k = start
        if k == 0:
            upd = {}
            while k < len(ins) and ins[k].op == 'phi':
                m = re.findall(r'\[ (.*?), %("[^"]*"|[\w.$-]+) \]', ins[k].text)
                for v, p in m:
                    if p.strip('"') == prev:
                        upd[ins[k].res] = self.val(env, v)
                k += 1
            env.update(upd)
        while k < len(ins):
            i = ins[k]
            t = i.text
            op = i.op
            if op == 'load':
                m = re.match(r'load (?:volatile )?(.*?), ptr (.*?)(, align \d+)?$', t)
                env[i.res] = self.rd(s, self.val(env, m.group(2)), m.group(1))
            elif op == 'store':
                parts = split_top(re.sub(r'^store (volatile )?', '', t))
                m = re.match(r'(\{.*\}|<.*>|\[.*?\]|\S+) (.*)$', parts[0])
                ty, v = m.group(1), m.group(2)
                pv = re.match(r'ptr (.*)$', parts[1]).group(1)
                self.wr(s, self.val(env, pv), ty, self.val(env, v), self.m.where(i.dbg))
            elif op == 'getelementptr':
                env[i.res] = self.gep(env, re.sub(r'^getelementptr (inbounds )?', '', t))
            elif op == 'alloca':
                m = re.match(r'alloca (.*?)(, align \d+)?$', t)
                o = s.new('local')
                s.mode[o] = 'uninit'
                env[i.res] = A(('addr', o))
            elif op in ('bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'zext', 'sext', 'addrspacecast'):
                m = re.match(r'%s (?:nneg )?(\S+) (.*?)( to (.*))?$' % op, t)
                v = self.val(env, m.group(2))
                if isinstance(v, tuple) and v and v[0] == 'cmp':
                    env[i.res] = v
                elif op in ('zext', 'sext') and m.group(1) not in ('i1',) and v.const() is None:
                    env[i.res] = A(('op', op + m.group(1)[1:], v)) if m.group(1) != 'i64' else v
                else:
                    env[i.res] = v
            elif op == 'trunc':
                m = re.match(r'trunc (\S+) (.*?) to (.*)$', t)
                v = self.val(env, m.group(2))
                w = int(m.group(3)[1:])
                env[i.res] = K(v.const() & ((1 << w) - 1)) if v.const() is not None else A(('op', 'trunc%d' % w, v))
            elif op in ('add', 'sub', 'mul', 'shl', 'sdiv', 'udiv', 'srem', 'urem', 'ashr', 'lshr', 'and', 'or', 'xor'):
                m = re.match(r'%s ((?:nuw |nsw |exact |disjoint )*)(\S+) (.*)$' % op, t)
                x, y = [self.val(env, z) for z in split_top(m.group(3))]
                env[i.res] = self.arith(op, x, y, m.group(2), 'exact' in m.group(1))
            elif op == 'icmp':
                m = re.match(r'icmp (?:samesign )?(\w+) (\S+) (.*)$', t)
                x, y = [self.val(env, z) for z in split_top(m.group(3))]
                env[i.res] = ('cmp', m.group(1), x, y)
            elif op == 'select':
                parts = split_top(t[len('select '):])
                c = self.val(env, parts[0].split(' ', 1)[1])
                vals = [self.typedval(env, p) for p in parts[1:3]]
                r = self.truth(s, c)
                if r is None:
                    s2, e2 = s.copy(), dict(env)
                    self.assume(s2, c, False)
                    e2[i.res] = vals[1]
                    self.block(fn, s2, e2, b, prev, seen, work, out, k + 1)
                    self.assume(s, c, True)
                    env[i.res] = vals[0]
                else:
                    env[i.res] = vals[0] if r else vals[1]
            elif op == 'extractvalue':
                m = re.match(r'extractvalue (.*) (%\S+), (\d+)$', t)
                v = env[m.group(2)]
                env[i.res] = v[int(m.group(3))] if isinstance(v, list) else A(('op', 'ext', v, K(int(m.group(3)))))
            elif op == 'insertvalue':
                parts = split_top(t[len('insertvalue '):])
                m = re.match(r'(\{.*\}|%\S+) (.*)$', parts[0])
                n = len(split_top(m.group(1).strip('{} '))) if m.group(1).startswith('{') else len(self.m.fields(m.group(1)))
                v = self.val(env, m.group(2))
                v = list(v) if isinstance(v, list) else [UNDEF] * n
                v[int(parts[2])] = self.typed(env, parts[1])
                env[i.res] = v
            elif op == 'call':
                r = self.call(fn, s, env, i)
                if r == 'stop':
                    out.append(s)
                    return
            elif op == 'br':
                m = re.match(r'br label %("[^"]*"|[\w.$-]+)$', t)
                if m:
                    work.append((s, env, m.group(1).strip('"'), b, seen))
                    return
                m = re.match(r'br i1 (.*), label %("[^"]*"|[\w.$-]+), label %("[^"]*"|[\w.$-]+)$', t)
                c = self.val(env, m.group(1))
                r = self.truth(s, c)
                for v, lab in ((True, m.group(2)), (False, m.group(3))):
                    if r is None or r == v:
                        s2 = s.copy() if r is None else s
                        if r is None:
                            self.assume(s2, c, v)
                        work.append((s2, dict(env), lab.strip('"'), b, seen))
                return
            elif op == 'switch':
                m = re.match(r'switch (\S+) (.*?), label %(\S+) \[(.*)\]', t)
                v = self.val(env, m.group(2))
                cases = re.findall(r'i\d+ (-?\d+), label %(\S+)', m.group(4))
                left = True
                for n, lab in cases:
                    r = decide(s.facts, 'eq', v, K(int(n)))
                    if r is False:
                        continue
                    s2 = s.copy()
                    s2.facts.append(('eq', v, K(int(n)), True))
                    work.append((s2, dict(env), lab, b, seen))
                    if r is True:
                        left = False
                        break
                    s.facts.append(('eq', v, K(int(n)), False))
                if left:
                    work.append((s, env, m.group(3), b, seen))
                return
            elif op == 'ret':
                t2 = t[4:].strip()
                if t2 != 'void':
                    m = re.match(r'(\{.*\}|\[.*\]|\S+) (.*)$', t2)
                    s.ret = self.val(env, m.group(2))
                s.end = 'ret'
                out.append(s)
                return
            elif op == 'unreachable':
                if s.end is None:
                    s.end = 'unreachable'
                out.append(s)
                return
            else:
                raise Unknown('instruction ' + t)
            k += 1

    def typedval(self, env, t):
        m = re.match(r'(\{.*\}|\S+) (.*)$', t)
        return self.val(env, m.group(2))

    def arith(self, op, x, y, ty, exact):
        if isinstance(x, tuple) or isinstance(y, tuple):
            if op == 'xor' and isinstance(x, tuple) and isinstance(y, P) and y.const() in (1, -1):
                return ('not', x)
            if op in ('and', 'or'):
                return (op, x, y)
            raise Unknown('arithmetic on condition')
        if ty == 'i1':
            if op in ('and', 'or'):
                return (op, x, y)
        if op == 'add':
            return x + y
        if op == 'sub':
            return x - y
        if op == 'mul':
            return x * y
        if op == 'shl' and y.const() is not None:
            return x * K(1 << y.const())
        a, b = x.const(), y.const()
        w = int(ty[1:])
        if a is not None and b is not None:
            ua, ub = a % (1 << w), b % (1 << w)
            if op == 'and':
                return K(ua & ub)
            if op == 'or':
                return K(ua | ub)
            if op == 'xor':
                return K(ua ^ ub)
            if op == 'lshr':
                return K(ua >> ub)
            if op == 'udiv' and ub:
                return K(ua // ub)
        return A(('op', op + ('.exact' if exact else ''), x, y))

    def truth(self, s, c):
        if isinstance(c, P):
            if c.const() is not None:
                return bool(c.const())
            c = ('cmp', 'ne', c, K(0))
        if c[0] == 'cmp':
            if isinstance(c[2], tuple) or isinstance(c[3], tuple):
                x, k = (c[2], c[3]) if isinstance(c[2], tuple) else (c[3], c[2])
                if isinstance(k, P) and k.const() is not None and c[1] in ('eq', 'ne'):
                    r = self.truth(s, x)
                    return None if r is None else ((int(r) == (k.const() & 1)) == (c[1] == 'eq'))
                return None
            return decide(s.facts, c[1], c[2], c[3])
        if c[0] == 'not':
            r = self.truth(s, c[1])
            return None if r is None else not r
        if c[0] in ('and', 'or'):
            a, b = self.truth(s, c[1]), self.truth(s, c[2])
            if c[0] == 'and':
                return False if a is False or b is False else True if a and b else None
            return True if a or b else False if a is False and b is False else None
        raise Unknown('condition %r' % (c,))

    def assume(self, s, c, v):
        if isinstance(c, P):
            c = ('cmp', 'ne', c, K(0))
        if c[0] == 'cmp':
            if isinstance(c[2], tuple) or isinstance(c[3], tuple):
                x, k = (c[2], c[3]) if isinstance(c[2], tuple) else (c[3], c[2])
                if isinstance(k, P) and k.const() is not None and c[1] in ('eq', 'ne'):
                    self.assume(s, x, ((k.const() & 1) == 1) == ((c[1] == 'eq') == v))
                return
            s.facts.append((c[1], c[2], c[3], v))
        elif c[0] == 'not':
            self.assume(s, c[1], not v)
        elif (c[0] == 'and' and v) or (c[0] == 'or' and not v):
            self.assume(s, c[1], v)
            self.assume(s, c[2], v)
        # a negated conjunction adds no fact (over-approximation)

    def call(self, fn, s, env, i):
        t = i.text
        m = re.match(r'call (.*?)(@("[^"]*"|[\w.$]+)|%[\w.$"-]+)\(', t)
        if not m:
            raise Unknown('call ' + t)
        name = (m.group(3) or m.group(2)).strip('"')
        j = m.end() - 1
        d = 0
        for e in range(j, len(t)):
            if t[e] == '(':
                d += 1
            elif t[e] == ')':
                d -= 1
                if d == 0:
                    break
        args = split_top(t[j + 1:e])
        where = self.m.where(i.dbg)
        if name.startswith('llvm.'):
            if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.donothing')):
                return
            if name.startswith('llvm.memset'):
                p, v, n = [self.typed(env, a) for a in args[:3]]
                a = self.addr(p)
                if not a or n.const() is None or v.const() is None:
                    raise Unknown('memset of unknown place')
                o, end = a[1], a[1] + n.const()
                byte = v.const() & 255
                while o < end:
                    z = 8 if o % 8 == 0 and o + 8 <= end else 4 if o % 4 == 0 and o + 4 <= end else 1
                    store(s, a[0], o, z, K(int.from_bytes(bytes([byte]) * z, 'little')))
                    o += z
                return
            if name.startswith(('llvm.memcpy', 'llvm.memmove')):
                p, q, n = [self.typed(env, a) for a in args[:3]]
                a, b = self.addr(p), self.addr(q)
                if not a or not b or n.const() is None:
                    raise Unknown('memcpy of unknown place')
                cells = {}
                o = 0
                while o < n.const():
                    src = s.mem.get(b[0], {})
                    z = src[b[1] + o][0] if b[1] + o in src else (8 if o + 8 <= n.const() else n.const() - o)
                    cells[o] = (z, load(s, b[0], b[1] + o, z))
                    o += z
                for o, (z, v) in cells.items():
                    store(s, a[0], a[1] + o, z, v)
                return
            if name.startswith(('llvm.umin', 'llvm.umax', 'llvm.smin', 'llvm.smax', 'llvm.abs', 'llvm.usub', 'llvm.uadd', 'llvm.fshl')):
                env[i.res] = A(('op', name.split('.')[1]) + tuple(self.typed(env, a) for a in args))
                return
            if name.startswith('llvm.trap'):
                s.end = 'abort'
                return 'stop'
            raise Unknown('intrinsic ' + name)
        if name in ('__assert_fail',):
            s.end = 'assert'
            return 'stop'
        if name in ('abort', '_ZSt9terminatev', '_exit', 'exit'):
            s.end = 'abort'
            return 'stop'
        if name in self.m.fns:
            # not inlined: interpret it, path by path only when it has a single one
            vals = [self.typed(env, a) for a in args]
            sub = self.run(name, s, vals)
            if len(sub) != 1:
                raise Unknown('%s was not inlined' % name)
            r = sub[0]
            if r.end != 'ret':
                s.end = r.end
                return 'stop'
            s.mem, s.mode, s.facts, s.nid = r.mem, r.mode, r.facts, r.nid
            s.events += r.events
            if i.res:
                env[i.res] = r.ret
            return
        cid = s.new(name)
        vals = []
        sret = None
        for a in args:
            mb = re.search(r'byval\((.*?)\)', a)
            ms = re.search(r'sret\((.*?)\)', a)
            v = self.typed(env, a)
            if ms:
                sret = (v, ms.group(1))
                continue
            if mb:
                ad = self.addr(v)
                if not ad:
                    raise Unknown('byval of unknown object')
                vals.append([load(s, ad[0], ad[1] + o, z) for o, z in self.m.fields(mb.group(1))])
            else:
                vals.append(v)
        ret = None
        if sret:
            ad = self.addr(sret[0])
            ret = []
            for n, (o, z) in enumerate(self.m.fields(sret[1])):
                v = A(('ret', cid, n))
                store(s, ad[0], ad[1] + o, z, v)
                ret.append(v)
        elif i.res:
            rt = m.group(1).strip()
            mt = re.search(r'(\{.*\}|%[\w.:"]+)\s*$', rt)
            if mt:
                ret = [A(('ret', cid, n)) for n in range(len(self.m.fields(mt.group(1))))]
            else:
                ret = A(('ret', cid, 0))
            env[i.res] = ret
        s.events.append(Event(name, vals, where, ret))
        if name.startswith('%') or m.group(2).startswith('%'):
            s.events[-1].target = env.get(m.group(2))
        mut = self.spec.get(name)
        if mut:
            mut(self, s, cid, vals)
