"""Java sources compiled with javac, class files read with javap, and the paths of a method followed symbolically.

Values: ('p', n) parameter ('this' is ('p', 'this')), ('c', x) constant (int, float, str or None for null), ('new', n, class),
('call', n, 'cls.name', desc, args), ('fld', obj, 'cls.name', n), ('static', 'cls.name', n), ('op', name, a, b), ('cast', type, v), ('caught', n)."""
import os, re, shutil, subprocess
from core import CACHE

COND = {'eq': 'ne', 'ne': 'eq', 'lt': 'ge', 'ge': 'lt', 'gt': 'le', 'le': 'gt'}


class Unsupported(Exception):
    pass


class Method:
    def __init__(self, cls, name, desc, flags):
        self.cls, self.name, self.desc, self.flags = cls, name, desc, flags
        self.code, self.table, self.index = [], [], {}
        self.args, self.ret = parse_desc(desc)

    @property
    def static(self):
        return 'static' in self.flags

    def __repr__(self):
        return '%s.%s%s' % (self.cls.name, self.name, self.desc)


class Class:
    def __init__(self, name, flags):
        self.name, self.flags = name, flags
        self.fields, self.methods = {}, []        # name -> (descriptor, flags, constant)
        self.super, self.ifaces = None, []

    def method(self, name, desc=None):
        c = [m for m in self.methods if m.name == name and (desc is None or m.desc == desc)]
        return c[0] if c else None


def parse_desc(d):
    m = re.match(r'\((.*)\)(.*)$', d or '')
    if not m:
        return [], d
    return re.findall(r'\[*(?:[ZBCSIJFDV]|L[^;]*;)', m.group(1)), m.group(2)


FLAGS = {'public', 'private', 'protected', 'static', 'final', 'abstract', 'native', 'synchronized', 'transient', 'volatile', 'strictfp', 'default', 'sealed', 'non-sealed'}


def parse_javap(text):
    out = {}
    cls = meth = None
    last = None
    sw = None
    for line in text.split('\n'):
        s = line.strip()
        if not s or s.startswith('Compiled from'):
            continue
        if not line.startswith(' '):
            if s == '}':
                cls = None
                continue
            m = re.match(r'((?:[\w-]+ )*?)(class|interface|enum|@interface) ([\w.$/]+)(.*)\{$', s)
            if m:
                cls = Class(m.group(3).replace('/', '.'), set(m.group(1).split()))
                cls.kind = m.group(2)
                t = strip_generics(m.group(4))
                e = re.search(r'extends ([\w.$, ]+?)(?= implements|$|\s*$)', t)
                cls.super = e.group(1).strip() if e else 'java.lang.Object'
                i = re.search(r'implements ([\w.$, ]+)', t)
                cls.ifaces = [x.strip() for x in i.group(1).split(',')] if i else []
                if cls.kind == 'interface' and e:
                    cls.ifaces, cls.super = [x.strip() for x in e.group(1).split(',')], 'java.lang.Object'
                out[cls.name] = cls
            meth = None
            continue
        if cls is None:
            continue
        if sw is not None:
            if s == '}':
                sw = None
                continue
            m = re.match(r'(-?\d+|default): (\d+)$', s)
            if m:
                sw.append((None if m.group(1) == 'default' else int(m.group(1)), int(m.group(2))))
                continue
        m = re.match(r'descriptor: (.*)$', s)
        if m and last is not None:
            decl = last
            last = None
            words = strip_generics(decl.rstrip(';'))
            const = None
            cm = re.match(r'(.*?) = (.*)$', words)
            if cm and '(' not in cm.group(1):
                words, const = cm.group(1), cm.group(2)
            words = re.sub(r'\) throws .*', ')', words)
            fl = {w for w in words.split('(')[0].split() if w in FLAGS}
            if m.group(1).startswith('('):
                if words.strip() == 'static {}':
                    name = '<clinit>'
                else:
                    n = words.split('(')[0].split()[-1]
                    name = '<init>' if n == cls.name else n
                meth = Method(cls, name, m.group(1), fl)
                cls.methods.append(meth)
            else:
                if words.strip() == 'static {}':
                    meth = Method(cls, '<clinit>', '()V', {'static'})
                    cls.methods.append(meth)
                    continue
                name = words.split()[-1]
                cls.fields[name] = (m.group(1), fl, const)
                meth = None
            continue
        m = re.match(r'(\d+): (\w+)\s*(.*)$', s)
        if m and meth is not None:
            op, rest = m.group(2), m.group(3)
            arg, _, com = rest.partition('//')
            if op in ('tableswitch', 'lookupswitch'):
                sw = []
                meth.code.append((int(m.group(1)), op, sw, com.strip()))
            else:
                meth.code.append((int(m.group(1)), op, arg.strip(), com.strip()))
            continue
        if s in ('Code:', 'Exception table:', 'LineNumberTable:') or re.match(r'from\s+to\s+target', s):
            continue
        m = re.match(r'(\d+)\s+(\d+)\s+(\d+)\s+(any|Class .*)$', s)
        if m and meth is not None:
            meth.table.append((int(m.group(1)), int(m.group(2)), int(m.group(3)), m.group(4).replace('Class ', '')))
            continue
        if s.endswith(';') or s.endswith('{}'):
            last = s
    for c in out.values():
        for x in c.methods:
            x.index = {pc: i for i, (pc, *_) in enumerate(x.code)}
    return out


def strip_generics(s):
    while True:
        t = re.sub(r'<(?!init|clinit)[^<>]*>', '', s)
        if t == s:
            return s
        s = t


SEEN = []       # classes compiled by this process


def compile_java(files, name='j'):
    """({class name: Class}, '') or (None, messages)"""
    d = os.path.join(CACHE, 'java', '%s%d' % (name, os.getpid()))
    shutil.rmtree(d, ignore_errors=True)
    src, out = d + '/src', d + '/out'
    os.makedirs(out)
    fs = []
    for n, t in files.items():
        f = os.path.join(src, n)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        open(f, 'w').write(t)
        fs.append(f)
    p = subprocess.run(['javac', '-nowarn', '-Xlint:none', '-g:none', '-proc:none', '-d', out] + fs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        shutil.rmtree(d, ignore_errors=True)
        return None, p.stdout
    cl = [os.path.join(r, f) for r, _, x in os.walk(out) for f in x if f.endswith('.class')]
    q = subprocess.run(['javap', '-c', '-p', '-s', '-constants'] + sorted(cl), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    shutil.rmtree(d, ignore_errors=True)
    r = parse_javap(q.stdout)
    SEEN.append(r)
    return r, ''


def platform(names):
    """declarations of classes of the Java platform"""
    q = subprocess.run(['javap', '-p', '-s'] + sorted(names), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return parse_javap(q.stdout)


class St:
    def __init__(self):
        self.stack, self.locals, self.heap, self.facts, self.events, self.n, self.visits = [], {}, {}, {}, [], [0], {}

    def copy(self):
        s = St()
        s.stack, s.locals, s.heap, s.facts, s.events = list(self.stack), dict(self.locals), dict(self.heap), dict(self.facts), list(self.events)
        s.n, s.visits = self.n, dict(self.visits)
        return s

    def fresh(self):
        self.n[0] += 1
        return self.n[0]


class Path:
    def __init__(self, s, how, val):
        self.events, self.facts, self.heap, self.how, self.ret = s.events, s.facts, s.heap, how, val


def isc(v):
    return v[0] == 'c' and isinstance(v[1], int)


class Interp:
    """paths of methods; calls of methods that `inline` accepts are followed"""

    def __init__(self, classes, inline=lambda m: False, unroll=2, throws=True, limit=4000):
        self.classes, self.inline, self.unroll, self.throws, self.limit = classes, inline, unroll, throws, limit

    def run(self, m, args=None, st=None):
        s = st or St()
        if args is None:
            args = ([] if m.static else [('p', 'this')]) + [('p', 'a%d' % i) for i in range(len(m.args))]
        return [Path(x, h, v) for x, h, v in self.call(m, args, s, 0)]

    def call(self, m, args, s, depth):
        if 'native' in m.flags or 'abstract' in m.flags:
            raise Unsupported('%s has no body' % m)
        if depth > 8:
            raise Unsupported('calls too deep')
        k = 0
        s = s.copy()
        outer = (s.stack, s.locals, s.visits)
        s.stack, s.locals, s.visits = [], {}, {}
        types = ([] if m.static else ['L']) + m.args
        for a, t in zip(args, types):
            s.locals[k] = a
            k += 2 if t in 'JD' else 1
        sync = 'synchronized' in m.flags
        lock = ('static', m.cls.name + '.class', 0) if m.static else args[0] if args else None
        if sync:
            s.events.append(('enter', lock))
        work, out = [(s, 0)], []
        while work:
            s, i = work.pop()
            if len(out) + len(work) > self.limit:
                raise Unsupported('too many paths')
            for r in self.step(m, s, i, depth):
                if r[0] == 'go':
                    work.append((r[1], r[2]))
                else:
                    out.append((r[1], r[0], r[2]))
        res = []
        for s, h, v in out:
            if sync:
                s.events.append(('exit', lock))
            s.stack, s.locals, s.visits = list(outer[0]), dict(outer[1]), dict(outer[2])
            res.append((s, h, v))
        return res

    def throw(self, m, s, pc, v, typ=None):
        """where an exception at pc goes"""
        out = []
        for f, t, target, ty in m.table:
            if f <= pc < t:
                q = s.copy()
                q.stack = [v]
                out.append(('go', q, m.index[target]))
                if ty == 'any' or ty in ('java/lang/Throwable',):
                    return out
        out.append(('throw', s, v))
        return out

    def branch(self, m, s, cond, target, i):
        """cond: constant bool or fact key (op, a, b)"""
        if cond is True or cond is False:
            return [('go', s, m.index[target] if cond else i + 1)]
        op, a, b = cond
        neg = op in ('ne', 'ge', 'gt')
        if neg:
            # keep to eq, lt and le
            cond = (COND[op], a, b)
        if cond[0] == 'eq' and repr(a) > repr(b):
            cond = ('eq', b, a)
        out = []
        for truth in (True, False):
            if s.facts.get(cond, truth) != truth:
                continue
            if cond[0] == 'eq' and truth and self.clash(s, cond):
                continue
            q = s.copy()
            q.facts[cond] = truth
            taken = truth != neg
            out.append(('go', q, m.index[target] if taken else i + 1))
        return out

    def clash(self, s, cond):
        _, a, b = cond
        v, k = (a, b) if b[0] == 'c' else (b, a) if a[0] == 'c' else (None, None)
        if v is None:
            return False
        return any(t and c[0] == 'eq' and v in c[1:] and any(x[0] == 'c' and x != k for x in c[1:]) for c, t in s.facts.items())

    def compare(self, op, a, b):
        if a[0] == 'op' and a[1] in ('lcmp', 'fcmpl', 'fcmpg', 'dcmpl', 'dcmpg') and b == ('c', 0):
            return self.compare(op, a[2], a[3])
        if isc(a) and isc(b):
            return {'eq': a[1] == b[1], 'ne': a[1] != b[1], 'lt': a[1] < b[1], 'ge': a[1] >= b[1], 'gt': a[1] > b[1], 'le': a[1] <= b[1]}[op]
        if a == ('c', None) or b == ('c', None):
            o = b if a == ('c', None) else a
            if o == ('c', None):
                return op == 'eq'
            if o[0] == 'new' or o == ('p', 'this') or o[0] == 'c':
                return op != 'eq'
        if a == b and op in ('eq', 'ne', 'le', 'ge'):
            return op in ('eq', 'le', 'ge')
        return (op, a, b)

    def step(self, m, s, i, depth):
        if i >= len(m.code):
            raise Unsupported('%s: code runs off its end' % m)
        pc, op, arg, com = m.code[i]
        st = s.stack
        nxt = [('go', s, i + 1)]
        base = re.sub(r'_w$', '', op)
        x = re.match(r'([ilfda])(load|store)(?:_(\d))?$', base)
        if x:
            k = int(x.group(3)) if x.group(3) else int(arg)
            if x.group(2) == 'load':
                st.append(s.locals.get(k, ('undef', k)))
            else:
                s.locals[k] = st.pop()
            return nxt
        x = re.match(r'[ilfd]const_(m?\d)$', base)
        if x:
            st.append(('c', -1 if x.group(1) == 'm1' else int(x.group(1))))
            return nxt
        if base == 'aconst_null':
            st.append(('c', None))
            return nxt
        if base in ('bipush', 'sipush'):
            st.append(('c', int(arg)))
            return nxt
        if base in ('ldc', 'ldc2'):
            y = re.match(r'(int|long|float|double|String|class)\s?(.*)$', com)
            if not y:
                raise Unsupported('constant ' + com)
            k, t = y.group(1), y.group(2)
            st.append(('c', int(t.rstrip('lL'))) if k in ('int', 'long') else ('c', 'str:' + t) if k == 'String' else ('c', k + ':' + t))
            return nxt
        if base in ('getfield', 'putfield', 'getstatic', 'putstatic'):
            name, desc = com.split(' ', 1)[1].rsplit(':', 1)
            name = name.replace('/', '.')
            if '.' not in name:
                name = m.cls.name + '.' + name
            if base == 'getfield':
                o = st.pop()
                v = s.heap.get((o, name)) or ('fld', o, name, s.fresh())
                s.heap[(o, name)] = v
                s.events.append(('get', o, name, v))
                st.append(v)
            elif base == 'putfield':
                v, o = st.pop(), st.pop()
                s.heap[(o, name)] = v
                s.events.append(('put', o, name, v, dict(s.facts)))
            elif base == 'getstatic':
                v = s.heap.get((None, name)) or ('static', name, s.fresh() if False else 0)
                s.events.append(('get', None, name, v))
                st.append(v)
            else:
                v = st.pop()
                s.heap[(None, name)] = v
                s.events.append(('put', None, name, v, dict(s.facts)))
            return nxt
        if base.startswith('invoke'):
            return self.invoke(m, s, i, pc, base, com, depth)
        if base == 'new':
            c = com.split(' ', 1)[1].replace('/', '.')
            st.append(('new', s.fresh(), c))
            return nxt
        if base in ('newarray', 'anewarray', 'multianewarray'):
            st.append(('new', s.fresh(), '[' + (com or arg), st.pop()))
            return nxt
        if base == 'arraylength':
            st.append(('op', 'len', st.pop(), None))
            return nxt
        if re.match(r'[ilfdabcs]aload$', base):
            k, a = st.pop(), st.pop()
            v = s.heap.get((a, k)) or ('elem', a, k)
            st.append(v)
            return nxt
        if re.match(r'[ilfdabcs]astore$', base):
            v, k, a = st.pop(), st.pop(), st.pop()
            s.heap[(a, k)] = v
            s.events.append(('put', a, k, v, dict(s.facts)))
            return nxt
        if base in ('pop', 'nop'):
            if base == 'pop':
                st.pop()
            return nxt
        if base == 'pop2':
            v = st.pop()
            if not self.wide(v):
                st.pop()
            return nxt
        if base == 'dup':
            st.append(st[-1])
            return nxt
        if base == 'dup2' and self.wide(st[-1]):
            st.append(st[-1])
            return nxt
        if base == 'dup2':
            st.extend(st[-2:])
            return nxt
        if base == 'dup_x1' or base == 'dup2_x1' and self.wide(st[-1]):
            a, b = st.pop(), st.pop()
            st.extend([a, b, a])
            return nxt
        if base == 'swap':
            a, b = st.pop(), st.pop()
            st.extend([a, b])
            return nxt
        x = re.match(r'([ilfd])(add|sub|mul|div|rem|and|or|xor|shl|shr|ushr)$', base)
        if x or base in ('lcmp', 'fcmpl', 'fcmpg', 'dcmpl', 'dcmpg'):
            b, a = st.pop(), st.pop()
            if base == 'lcmp' and isc(a) and isc(b):
                st.append(('c', (a[1] > b[1]) - (a[1] < b[1])))
            elif x and isc(a) and isc(b) and x.group(2) in ('add', 'sub', 'mul') and x.group(1) in 'il':
                st.append(('c', {'add': a[1] + b[1], 'sub': a[1] - b[1], 'mul': a[1] * b[1]}[x.group(2)]))
            else:
                st.append(('op', base, a, b))
            return nxt
        if re.match(r'[ilfd]neg$|[ilfd]2[ilfdbcs]$', base):
            a = st.pop()
            wid = base in ('i2l',) and isc(a)
            st.append(a if wid else ('op', base, a, None))
            return nxt
        if base == 'iinc':
            k, d = re.match(r'(\d+), (-?\d+)', arg).groups()
            v = s.locals.get(int(k))
            s.locals[int(k)] = ('c', v[1] + int(d)) if isc(v) else ('op', 'iadd', v, ('c', int(d)))
            return nxt
        if base == 'checkcast':
            return nxt
        if base == 'instanceof':
            st.append(('op', 'instanceof', st.pop(), com))
            return nxt
        if base == 'goto':
            return self.back(m, s, i, int(arg))
        x = re.match(r'if(eq|ne|lt|ge|gt|le)$', base)
        if x:
            return self.loop(m, s, i, self.branch(m, s, self.compare(x.group(1), st.pop(), ('c', 0)), int(arg), i))
        x = re.match(r'if_[ia]cmp(eq|ne|lt|ge|gt|le)$', base)
        if x:
            b, a = st.pop(), st.pop()
            return self.loop(m, s, i, self.branch(m, s, self.compare(x.group(1), a, b), int(arg), i))
        if base in ('ifnull', 'ifnonnull'):
            return self.loop(m, s, i, self.branch(m, s, self.compare('eq' if base == 'ifnull' else 'ne', st.pop(), ('c', None)), int(arg), i))
        if base in ('tableswitch', 'lookupswitch'):
            v = st.pop()
            out, keys = [], [k for k, t in arg if k is not None]
            for k, t in arg:
                if isc(v):
                    if k == v[1] or k is None and v[1] not in keys:
                        out.append(('go', s.copy(), m.index[t]))
                    continue
                q = s.copy()
                if k is not None:
                    c = ('eq',) + tuple(sorted((v, ('c', k)), key=repr))
                    if q.facts.get(c, True) is False or self.clash(q, c):
                        continue
                    q.facts[c] = True
                else:
                    for z in keys:
                        q.facts[('eq',) + tuple(sorted((v, ('c', z)), key=repr))] = False
                out.append(('go', q, m.index[t]))
            return out
        if base == 'monitorenter':
            s.events.append(('enter', st.pop()))
            return nxt
        if base == 'monitorexit':
            s.events.append(('exit', st.pop()))
            return nxt
        if base == 'athrow':
            v = st.pop()
            s.events.append(('athrow', v))
            return self.throw(m, s, pc, v)
        if base == 'return':
            return [('ret', s, None)]
        if re.match(r'[ilfda]return$', base):
            return [('ret', s, st.pop())]
        raise Unsupported('%s: instruction %s' % (m, op))

    def wide(self, v):
        return v[0] == 'call' and v[3].endswith((')J', ')D')) or v[0] == 'op' and v[1][:1] in 'ld' and v[1] not in ('lcmp', 'dcmpl', 'dcmpg', 'len') and v[1][-2:] not in ('2i', '2f') \
            or v[0] == 'fld' and len(v) > 4

    def back(self, m, s, i, target):
        return self.loop(m, s, i, [('go', s, m.index[target])])

    def loop(self, m, s, i, res):
        out = []
        for r in res:
            if r[0] == 'go' and r[2] <= i:
                k = (id(m), i)
                n = r[1].visits.get(k, 0)
                if n >= self.unroll:
                    continue
                r[1].visits[k] = n + 1
            out.append(r)
        return out

    def invoke(self, m, s, i, pc, base, com, depth):
        st = s.stack
        y = re.match(r'(?:Interface)?Method (.*)$|InvokeDynamic (.*)$', com)
        if not y:
            raise Unsupported('call ' + com)
        name, desc = (y.group(1) or y.group(2)).rsplit(':', 1)
        name = name.replace('"', '').replace('/', '.')
        if y.group(2):
            name = 'dynamic.' + name.split(':')[-1]
        elif '.' not in name:
            name = m.cls.name + '.' + name
        ats, ret = parse_desc(desc)
        n = len(ats) + (0 if base in ('invokestatic', 'invokedynamic') else 1)
        args = st[len(st) - n:] if n else []
        del st[len(st) - n:]
        cn, mn = name.rsplit('.', 1)
        if mn == '<init>':
            cn = name[:-7]
        g = None
        if cn in self.classes and base != 'invokedynamic':
            g = self.classes[cn].method(mn, desc)
        if g is not None and 'native' not in g.flags and 'abstract' not in g.flags and self.inline(g):
            out = []
            for q, how, v in self.call(g, args, s, depth + 1):
                if how == 'throw':
                    out += self.throw(m, q, pc, v)
                else:
                    if ret != 'V':
                        q.stack.append(v)
                    out.append(('go', q, i + 1))
            return out
        if cn == 'java.lang.Enum' and mn == '<init>' and len(args) == 3:
            s.heap[(args[0], 'java.lang.Enum.ordinal')] = args[2]
        if mn == 'ordinal' and desc == '()I' and (args[0], 'java.lang.Enum.ordinal') in s.heap:
            st.append(s.heap[(args[0], 'java.lang.Enum.ordinal')])
            return [('go', s, i + 1)]
        k = s.fresh()
        v = ('call', k, cn + '.' + mn, desc, tuple(args))
        s.events.append(('invoke', base[6:], cn + '.' + mn, desc, tuple(args), k, dict(s.facts)))
        # fields of objects may be changed by the call, except when it is a constructor or method of the platform
        if not cn.startswith('java.'):
            s.heap = {h: x for h, x in s.heap.items() if h[0] is not None and h[0][0] == 'new' and h[0] not in args}
        out = []
        if self.throws and any(f <= pc < t for f, t, _, _ in m.table):
            q = s.copy()
            out += [r for r in self.throw(m, q, pc, ('caught', q.fresh())) if r[0] == 'go']
        if ret != 'V':
            st.append(v)
        out.append(('go', s, i + 1))
        return out
