"""Abstract interpretation of small Rust glue functions on their MIR: symbolic values, and a ledger of what happened to every
owned value and to memory behind pointers.

values (nested tuples):
  ('c', text)                constant
  ('p', name)                parameter
  ('agg', type, variant, ((field, value), ...))
  ('fld', v, field)          field of an opaque value; ('as', v, variant) in front of a payload
  ('ref', key, proj)         reference to a local
  ('deref', v)               memory behind a pointer value; ('addr', v, field..) address of a part of it
  ('fn', name, args...)      pure function (len, capacity, ptr, is_null, size_of, ...)
  ('call', n, name, args...) result of the n-th unknown call
  ('own', K, v)              smart pointer K made from the raw pointer v; ('box', v) Box::new(v); ('raw', K, v) raw pointer of smart pointer v
  ('parts', K, ptr, len, cap) Vec / String / slice made from raw parts
  ('clone', n, v)            n-th clone
  ('mut', n, name, v, args)  v after a mutating call
events of a path (in order): (kind, ...) with kind drop, forget, from_raw, into_raw, from_parts, call, deref, store, freebox"""
import os, re, subprocess
from core import CACHE
from mir import *
import rast

SMART = ('Box', 'Rc', 'Arc', 'CString')


class Unsupported(Exception):
    pass


class St:
    __slots__ = ('env', 'mem', 'facts', 'events', 'n')

    def __init__(self):
        self.env, self.mem, self.facts, self.events, self.n = {}, {}, {}, (), 0

    def copy(self):
        s = St()
        s.env, s.mem, s.facts, s.events, s.n = dict(self.env), dict(self.mem), dict(self.facts), self.events, self.n
        return s

    def ev(self, *e):
        self.events = self.events + (e,)

    def fresh(self):
        self.n += 1
        return self.n


class Path:
    def __init__(self, st, ret):
        self.facts, self.events, self.mem, self.env, self.ret = st.facts, st.events, st.mem, st.env, ret


SEEN = []       # everything compiled by this process


def compile_mir(text, edition='2018', extra=(), name='glue', target=None):
    """MIR of a Rust text; (functions, messages)"""
    d = os.path.join(CACHE, 'rown')
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, '%s%d.rs' % (name, os.getpid()))
    o = f[:-3] + '.mir'
    with open(f, 'w') as h:
        h.write(text)
    env = dict(os.environ)
    env.pop('RUSTFLAGS', None)
    p = subprocess.run(['rustc', '+nightly', '--edition', edition, '--crate-type', 'lib', '-C', 'panic=abort', '-C', 'debug-assertions=off', '-C', 'overflow-checks=on',
                        '-Zmir-opt-level=0', '-A', 'warnings', '--emit=mir=' + o] + list(extra) + [f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    if p.returncode:
        return None, p.stdout
    r = parse_mir(o)
    os.remove(o)
    fns = r[0] if isinstance(r, tuple) else r
    g = Glue(fns, text, f)
    SEEN.append(g)
    return g, p.stdout


class Glue(Crate):
    def __init__(self, fns, text, path):
        self.text, self.path = text, path
        super().__init__(fns, os.path.dirname(path))
        self.lines = text.split('\n')
        self.defs = {}        # struct/union/enum name -> (kind, [fields] or [variants])
        self.ftypes = {}
        self.gens = {}        # (impl type or None, fn name) -> [generic parameter names]
        d = rast.dump_text(text)
        if 'error' in d:
            raise Unsupported(d['error'])
        self.dump = d
        self.walk(d['items'], None)
        # structs declared by macros: field names as the compiler prints them where it makes a value
        for f in self.fns.values():
            for ss, t in f.blocks.values():
                for x in ss:
                    rv = getattr(x, 'rv', None)
                    if rv is not None and rv.kind == 'agg' and rv.fields and re.fullmatch(r'\w+', strip_generics(rv.name or '')):
                        self.defs.setdefault(strip_generics(rv.name), ('Struct', list(rv.fields)))

    def _lines(self, rel):
        return open(os.path.join(self.root, os.path.basename(rel))).read().split('\n')

    def walk(self, items, impl):
        for it in items:
            k = it['k']
            if k in ('Struct', 'Union'):
                self.defs[it['name']] = (k, [f['name'] for f in it['fields']] if it.get('fields') else [])
                self.ftypes[it['name']] = [re.sub(r'\s+', '', f['ty']) for f in it.get('fields') or []]
            elif k == 'Enum':
                self.defs[it['name']] = (k, [v['name'] for v in it['variants']])
            elif k == 'Fn':
                g = it['sig'].get('generics') or ''
                self.gens[it['name']] = re.findall(r"(?:^|[<,])\s*(\w+)", re.sub(r":[^,>]*", '', g if isinstance(g, str) else ''))
            for sub in ('items',):
                if isinstance(it.get(sub), list) and k in ('Impl', 'Mod', 'Trait'):
                    self.walk(it[sub], it)


def ty_strip(t):
    t = t.strip()
    m = re.match(r"(&(?:'\w+ )?(?:mut )?|\*const |\*mut )", t)
    return t[m.end():].strip() if m else None


NUM = {'u8': 8, 'i8': 8, 'u16': 16, 'i16': 16, 'u32': 32, 'i32': 32, 'u64': 64, 'i64': 64, 'usize': 64, 'isize': 64, 'u128': 128, 'i128': 128, 'f32': 32, 'f64': 64,
       'bool': 1, 'char': 32}
STDENUM = {'None': 0, 'Some': 1, 'Ok': 0, 'Err': 1, 'Continue': 0, 'Break': 1}


def strip_path(t):
    return re.sub(r'(\w+::)+|\s+', '', t or '').lstrip(':')


def eq(a, b):
    if ('c', 'null') in (a, b) and a != b:
        return ('fn', 'is_null', b if a == ('c', 'null') else a)
    return ('fn', 'eq') + tuple(sorted((a, b), key=repr))


class Interp:
    def __init__(self, glue, models=None, inline=None, max_paths=400, depth=8, visits=3, unroll=0):
        self.g = glue
        self.models = models or {}
        self.inline_ok = inline or (lambda f: True)
        self.max_paths, self.maxdepth, self.visits = max_paths, depth, visits
        self.unroll = unroll      # rounds of a loop that are followed; 0: a loop is not supported
        if unroll:
            self.visits = unroll + 1
        self.frames = 0
        self.diverging = []
        self.inlined, self.opaque = set(), set()     # functions followed into, last names of calls that were not

    # ------------------------------------------------------------------ running
    def run(self, f, args=None, st=None):
        """all paths of function f (Fn) that return"""
        st = st or St()
        if args is None:
            args = [('p', f.debug.get(l) or 'arg%d' % i) for i, l in enumerate(f.params)]
        self.diverging = []
        return [Path(s, r) for s, r in self.call_fn(f, args, st, 0, {})]

    def call_fn(self, f, args, st, depth, subst):
        if depth > self.maxdepth:
            raise Unsupported('recursion in ' + f.name)
        self.frames += 1
        fid = self.frames
        st = st.copy()
        for l, a in zip(f.params, args):
            st.env[(fid, l)] = a
        out = []
        work = [(0, st, {})]
        while work:
            b, s, seen = work.pop()
            if len(out) + len(work) > self.max_paths:
                raise Unsupported('too many paths in ' + f.name)
            n = seen.get(b, 0)
            if n >= self.visits and self.unroll:
                continue
            if n >= self.visits:
                raise Unsupported('loop in ' + f.name)
            seen = dict(seen)
            seen[b] = n + 1
            s = s.copy()
            ctx = (f, fid, depth, subst)
            ss, t = f.blocks[b]
            for x in ss:
                self.stmt(s, ctx, x)
            if t.kind == 'return':
                out.append((s, s.env.get((fid, 0), ('c', '()'))))
            elif t.kind == 'goto':
                work.append((t.targets[0][1], s, seen))
            elif t.kind == 'switch':
                for nx, s2 in self.switch(s, ctx, t):
                    work.append((nx, s2, seen))
            elif t.kind == 'drop':
                ty = self.place_type(ctx, t.place)
                v = self.read(s, ctx, t.place, quiet=True)
                s.ev('drop', v, self.sub(ctx, ty), t.span)
                work.append((t.targets[0][1], s, seen))
            elif t.kind == 'assert':
                v = self.op(s, ctx, t.op)
                neg = re.match(r'assert\(!', t.text) is not None
                s.ev('assert', v, not neg)
                work.append((t.targets[0][1], s, seen))
            elif t.kind == 'call':
                for s2, v in self.call(s, ctx, t):
                    if v is None:
                        continue
                    if t.targets:
                        self.write(s2, ctx, t.dest, v)
                        work.append((t.targets[0][1], s2, seen))
                if not t.targets:
                    self.diverging.append((f.name, t.callee, s))
            elif t.kind in ('unreachable', 'resume', 'abort') or t.kind.startswith('terminate'):
                pass
            else:
                raise Unsupported('%s in %s' % (t.kind, f.name))
        return out

    def switch(self, s, ctx, t):
        v = self.op(s, ctx, t.op)
        labels = [l for l, _ in t.targets]
        known = self.known(s, v)
        for l, nx in t.targets:
            if known is not None:
                if l == 'otherwise' and str(known) not in labels or l == str(known):
                    yield nx, s
                continue
            s2 = s.copy()
            if l == 'otherwise':
                nums = [x for x in labels if x != 'otherwise']
                excl = s2.facts.get(('not', v), frozenset()) | frozenset(nums)
                s2.facts[('not', v)] = excl
                if set(nums) == {'0'} and (self.boolish(v)):
                    self.learn(s2, v, 1)
                elif v[0] == 'fn' and v[1] == 'discr' and set(nums) in ({'0'}, {'1'}) and len(v) > 3 and v[3] == 2:
                    self.learn(s2, v, 1 - int(nums[0]))
            else:
                if l in s2.facts.get(('not', v), ()):
                    continue
                self.learn(s2, v, int(l) if re.match(r'-?\d+$', l) else l)
            yield nx, s2

    def boolish(self, v):
        return v[0] == 'fn' and v[1] in ('eq', 'not', 'is_null', 'lt', 'le', 'and', 'or') or v[0] == 'tbool'

    def learn(self, s, v, n):
        if v[0] == 'fn' and v[1] == 'not':
            return self.learn(s, v[2], 1 - n)
        s.facts[v] = n
        if v[0] == 'fn' and v[1] == 'and' and n == 1 or v[0] == 'fn' and v[1] == 'or' and n == 0:
            self.learn(s, v[2], n)
            self.learn(s, v[3], n)
        if v[0] == 'fn' and v[1] == 'eq' and n == 1:
            for a, b in ((v[2], v[3]), (v[3], v[2])):
                if b[0] == 'c' and re.match(r'-?\d+', b[1]) and a[0] != 'c':
                    s.facts[a] = int(re.match(r'-?\d+', b[1]).group(0))

    def known(self, s, v):
        if v[0] == 'c':
            m = re.match(r'(-?\d+)(_\w+)?$', v[1])
            if m:
                return int(m.group(1))
            if v[1] in ('true', 'false'):
                return int(v[1] == 'true')
            return None
        if v in s.facts:
            return s.facts[v]
        if v[0] == 'fn' and v[1] == 'not':
            k = self.known(s, v[2])
            return None if k is None else 1 - k
        if v[0] == 'fn' and v[1] == 'eq':
            a, b = self.known(s, v[2]), self.known(s, v[3])
            if a is not None and b is not None:
                return int(a == b)
            for x, y in ((v[2], v[3]), (v[3], v[2])):
                k = self.known(s, y)
                if k is not None and str(k) in s.facts.get(('not', x), ()):
                    return 0
            if v[2] == v[3]:
                return 1
        if v[0] == 'fn' and v[1] in ('and', 'or'):
            a, b = self.known(s, v[2]), self.known(s, v[3])
            if v[1] == 'and':
                if a == 0 or b == 0:
                    return 0
                return 1 if a == b == 1 else None
            if a == 1 or b == 1:
                return 1
            return 0 if a == b == 0 else None
        return None

    # ------------------------------------------------------------------ types
    def sub(self, ctx, t):
        sb = ctx[3]
        if not sb or t is None:
            return t
        return re.sub(r'\b(%s)\b' % '|'.join(map(re.escape, sb)), lambda m: sb[m.group(1)], t)

    def place_type(self, ctx, pl):
        f = ctx[0]
        t = f.types.get(pl.base, '?')
        for p in pl.proj:
            if p[0] == 'deref':
                n = ty_strip(t)
                if n is None:
                    m = re.match(r'(?:[\w:]*::)?Box<(.*)>$', t)
                    n = m.group(1) if m else '?'
                t = n
            elif p[0] == 'field':
                t = p[2] if len(p) > 2 else '?'
            elif p[0] == 'variant':
                pass
            else:
                t = '?'
        return t

    def fname(self, t, i, variant=None):
        """name of the i-th field of a type"""
        d = self.g.defs.get(type_head(t)) if t and not t.startswith('(') else None
        if d and variant is None and i < len(d[1]) and d[0] in ('Struct', 'Union'):
            return d[1][i]
        return i

    # ------------------------------------------------------------------ places
    def read(self, s, ctx, pl, quiet=False):
        f, fid = ctx[0], ctx[1]
        key = (fid, pl.base)
        v = s.env.get(key)
        t = f.types.get(pl.base, '?')
        if v is None:
            v = ('uninit', f.name, pl.base)
        variant = None
        for p in pl.proj:
            if p[0] == 'deref':
                raw = t.strip().startswith('*')
                if raw and not quiet:
                    s.ev('deref', v, dict(s.facts), f.name)
                v = self.deref(s, v)
                n = ty_strip(t)
                if n is None:
                    m = re.match(r'(?:[\w:]*::)?Box<(.*)>$', t)
                    n = m.group(1) if m else '?'
                t = n
            elif p[0] == 'variant':
                variant = p[1]
            elif p[0] == 'field':
                v = self.field(s, v, self.fname(t, p[1], variant), variant, p[1])
                t = p[2] if len(p) > 2 else '?'
                variant = None
            else:
                v = ('fn', 'index', v, str(p[1]))
                t = '?'
        return v

    def deref(self, s, v):
        if v[0] == 'ref':
            return self.at(s, v[1], v[2])
        if v[0] == 'addr':
            r = v[1]
            for x in v[2]:
                r = self.field(s, r, x[0], x[1], x[0])
            return r
        if v[0] == 'box':
            return v[1]
        if v[0] == 'boxptr' and v[1][0] == 'box':
            return v[1][1]
        return s.mem.get((v, ()), ('deref', v))

    def at(self, s, key, proj):
        v = s.env.get(key, ('uninit', key))
        for x in proj:
            v = self.field(s, v, x[0], x[1], x[0])
        return v

    def field(self, s, v, name, variant, idx):
        if v[0] == 'agg':
            if v[1] == 'closure' or v[1] == '(tuple)' or True:
                for k, x in v[3]:
                    if k == name or k == idx:
                        if variant is None or v[2] is None or v[2] == variant:
                            return x
            n = name if isinstance(name, int) else idx
            if v[2] is None and isinstance(n, int) and n < len(v[3]) and not any(isinstance(k, int) for k, x in v[3]):
                return v[3][n][1]
        if v[0] == 'upd':
            # value with overwritten fields
            for k, x in v[2]:
                if k == (name, variant):
                    return x
            v = v[1]
            return self.field(s, v, name, variant, idx)
        if v[0] == 'deref' and (v[1], (name,)) in s.mem:
            return s.mem[(v[1], (name,))]
        base = ('as', v, variant) if variant is not None else v
        return ('fld', base, name)

    def proj_of(self, ctx, pl):
        """projections after the last deref as ((name, variant), ...), and the place before"""
        f = ctx[0]
        t = f.types.get(pl.base, '?')
        cut = 0
        out = []
        variant = None
        for i, p in enumerate(pl.proj):
            if p[0] == 'deref':
                n = ty_strip(t)
                if n is None:
                    m = re.match(r'(?:[\w:]*::)?Box<(.*)>$', t)
                    n = m.group(1) if m else '?'
                t = n
                cut, out, variant = i + 1, [], None
            elif p[0] == 'variant':
                variant = p[1]
            elif p[0] == 'field':
                out.append((self.fname(t, p[1], variant), variant))
                t = p[2] if len(p) > 2 else '?'
                variant = None
            else:
                out.append((('index', str(p[1])), None))
                t = '?'
        return cut, tuple(out)

    def ptr_base(self, s, ctx, pl, cut):
        """value of the pointer whose deref is projection number cut-1"""
        q = Place(pl.base, pl.proj[:cut - 1])
        v = self.read(s, ctx, q, quiet=True)
        if self.place_type(ctx, q).startswith('*'):
            s.ev('deref', v, dict(s.facts), ctx[0].name)
        return v

    def ref(self, s, ctx, pl, raw=False):
        cut, out = self.proj_of(ctx, pl)
        if cut == 0:
            return ('ref', (ctx[1], pl.base), out)
        q = Place(pl.base, pl.proj[:cut - 1])
        v = self.read(s, ctx, q, quiet=True)
        if self.place_type(ctx, q).startswith('*') and not raw:
            s.ev('deref', v, dict(s.facts), ctx[0].name)
        if not out:
            return v
        if v[0] == 'ref':
            return ('ref', v[1], v[2] + out)
        if v[0] == 'addr':
            return ('addr', v[1], v[2] + out)
        return ('addr', ('deref', v), out)

    def write(self, s, ctx, pl, v):
        cut, out = self.proj_of(ctx, pl)
        if cut == 0:
            key = (ctx[1], pl.base)
            self.write_key(s, key, out, v)
            return
        p = self.ptr_base(s, ctx, pl, cut)
        self.write_ptr(s, p, out, v)

    def write_key(self, s, key, out, v):
        if not out:
            s.env[key] = v
            return
        s.env[key] = self.updated(s.env.get(key, ('uninit', key)), out, v)

    def updated(self, old, out, v):
        (n, var), rest = out[0], out[1:]
        if old[0] == 'agg':
            fs = list(old[3])
            for i, (k, x) in enumerate(fs):
                if k == n:
                    fs[i] = (k, self.updated(x, rest, v) if rest else v)
                    return ('agg', old[1], old[2], tuple(fs))
            if old[2] is None:
                return ('agg', old[1], old[2], old[3] + ((n, self.updated(('uninit', 0), rest, v) if rest else v),))
        if old[0] == 'upd':
            fs = dict(old[2])
            o = fs.get((n, var), ('fld', ('as', old[1], var) if var else old[1], n))
            fs[(n, var)] = self.updated(o, rest, v) if rest else v
            return ('upd', old[1], tuple(sorted(fs.items(), key=repr)))
        if old[0] == 'uninit':
            return ('agg', '?', var, ((n, self.updated(('uninit', 0), rest, v) if rest else v),))
        o = ('fld', ('as', old, var) if var else old, n)
        return ('upd', old, (((n, var), self.updated(o, rest, v) if rest else v),))

    def write_ptr(self, s, p, out, v):
        if p[0] == 'ref':
            self.write_key(s, p[1], p[2] + out, v)
        elif p[0] == 'addr':
            self.write_ptr(s, p[1][1] if p[1][0] == 'deref' else p, p[2] + out, v)
        else:
            path = tuple(n for n, var in out)
            s.mem[(p, path)] = v
            s.ev('store', p, path, v)

    # ------------------------------------------------------------------ rvalues
    def op(self, s, ctx, o):
        if o.place is not None:
            return self.read(s, ctx, o.place)
        c = (o.const or '').strip()
        m = re.match(r'(-?\d+)_[iu](\d+|size)$', c)
        if m:
            return ('c', m.group(1))
        if c in ('true', 'false'):
            return ('c', '1' if c == 'true' else '0')
        if '::promoted[' in c or c.startswith('promoted['):
            vals = [x for x in (self.g.const_values(c) or self.g.const_values(re.sub(r'::<(?!impl).*?>(?=::)', '', c)) or []) if '::promoted' not in x]
            if len(vals) == 1:
                m = re.match(r'(-?\d+)_[iu](\d+|size)$', vals[0])
                v = ('c', 'null') if vals[0] == '%null' else ('c', m.group(1)) if m else ('c', str(int(vals[0] == 'true'))) if vals[0] in ('true', 'false') else None
                if v is not None:
                    key = ('promoted', c)
                    s.env[key] = v
                    return ('ref', key, ())
        m = re.match(r"(?:std::|core::)?(?:mem::)?(?:<(.*) as (?:std::mem::)?SizedTypeProperties>::SIZE)$", c)
        return ('c', self.sub(ctx, c))

    def stmt(self, s, ctx, x):
        if x.rv is None:
            return
        v = self.rv(s, ctx, x.rv, x)
        self.write(s, ctx, x.place, v)

    def rv(self, s, ctx, rv, x):
        k = rv.kind
        if k == 'use':
            return self.op(s, ctx, rv.ops[0])
        if k == 'cast':
            return self.cast(s, ctx, rv, x)
        if k in ('ref', 'refmut'):
            return self.ref(s, ctx, rv.ops[0].place)
        if k == 'rawptr':
            return self.ref(s, ctx, rv.ops[0].place, raw=True)
        if k == 'agg':
            vals = [self.op(s, ctx, o) for o in rv.ops]
            name = self.sub(ctx, rv.name or '')
            if name == '(tuple)':
                return ('agg', '(tuple)', None, tuple(enumerate(vals)))
            if name.startswith('['):
                return ('agg', name, None, tuple(enumerate(vals)))
            if name.startswith('{closure'):
                return ('agg', name, None, tuple(enumerate(vals)))
            flat = strip_generics(name)
            last = last_seg(flat)
            parts = flat.split('::')
            if len(parts) > 1 and (parts[-2][:1].isupper()):
                names = rv.fields or list(range(len(vals)))
                return ('agg', parts[-2], last, tuple(zip(names, vals)))
            names = rv.fields or list(range(len(vals)))
            d = self.g.defs.get(last)
            if d and d[0] == 'Union' and len(vals) == 1:
                # the compiler prints the first field's name; the operand's type tells the field
                o = rv.ops[0]
                ty = self.place_type(ctx, o.place) if o.place is not None else self.const_type(o.const)
                hit = [n for n, t in zip(d[1], self.g.ftypes[last]) if strip_path(t) == strip_path(ty)]
                names = [hit[0] if len(hit) == 1 else ('one of',) + tuple(hit)]
            if not rv.ops and self.g.defs.get(last) is None and not name[:1].isupper():
                return ('c', name)
            return ('agg', last, None, tuple(zip(names, vals)))
        if k == 'discr':
            v = self.read(s, ctx, rv.ops[0].place)
            return self.discr(s, v, self.place_type(ctx, rv.ops[0].place))
        if k == 'bin':
            return self.binop(rv.name, self.op(s, ctx, rv.ops[0]), self.op(s, ctx, rv.ops[1]))
        if k == 'un':
            v = self.op(s, ctx, rv.ops[0])
            if rv.name == 'Not':
                if v[0] == 'c':
                    return ('c', '0' if v[1] == '1' else '1') if v[1] in '01' else ('fn', 'not', v)
                return v[2] if v[0] == 'fn' and v[1] == 'not' else ('fn', 'not', v)
            return ('fn', rv.name, v)
        if k == 'len':
            return ('fn', 'len', self.op(s, ctx, rv.ops[0]))
        return ('other', x.text)

    def binop(self, n, a, b):
        if n in ('Eq', 'Ne'):
            for p, q in ((a, b), (b, a)):
                if q == ('c', 'null') :
                    r = ('fn', 'is_null', p)
                    return r if n == 'Eq' else ('fn', 'not', r)
            r = eq(a, b)
            return r if n == 'Eq' else ('fn', 'not', r)
        if n == 'Lt':
            return ('fn', 'lt', a, b)
        if n == 'Gt':
            return ('fn', 'lt', b, a)
        if n == 'Le':
            return ('fn', 'not', ('fn', 'lt', b, a))
        if n == 'Ge':
            return ('fn', 'not', ('fn', 'lt', a, b))
        if n in ('BitAnd', 'BitOr') and (self.boolish(a) or self.boolish(b)):
            return ('fn', 'and' if n == 'BitAnd' else 'or', a, b)
        if n.endswith('WithOverflow'):
            return ('agg', '(tuple)', None, ((0, ('fn', n[:3], a, b)), (1, ('fn', 'overflow', n[:3], a, b))))
        return ('fn', n, a, b)

    def discr(self, s, v, t):
        if v[0] == 'agg' and v[2] is not None:
            if v[2] in STDENUM:
                return ('c', str(STDENUM[v[2]]))
            d = self.g.defs.get(type_head(t)) or self.g.defs.get(v[1])
            if d and v[2] in d[1]:
                return ('c', str(d[1].index(v[2])))
        h = type_head(t)
        n = 2 if h in ('Option', 'Result', 'ControlFlow') else len(self.g.defs[h][1]) if h in self.g.defs else 0
        return ('fn', 'discr', v, n)

    def const_type(self, c):
        m = re.match(r'.*_([iu]\w+)$', (c or '').strip())
        return m.group(1) if m else '?'

    PTRLIKE = re.compile(r'^(\*|&|\[|fn|unsafe|extern|std::ptr|core::ptr|NonNull|std::boxed|Box)')

    def cast(self, s, ctx, rv, x):
        v = self.op(s, ctx, rv.ops[0])
        m = re.match(r'(.*) \((\w+)', rv.name)
        to, kind = (m.group(1), m.group(2)) if m else (rv.name, '?')
        if kind == 'BoxDerefTransmute':
            # pointer inside a Box: the place read is (_n.0)
            pl = rv.ops[0].place
            b = self.read(s, ctx, Place(pl.base, pl.proj[:-1]), quiet=True)
            return b[2] if b[0] == 'own' else ('boxptr', b)
        if kind in ('PtrToPtr', 'PointerCoercion', 'PointerExposeProvenance', 'PointerWithExposedProvenance', 'FnPtrToPtr') or kind == 'Transmute':
            frm = self.place_type(ctx, rv.ops[0].place) if rv.ops[0].place else '?'
            s.ev('ptrcast', v, frm, self.sub(ctx, to), kind)
            return v
        frm = self.place_type(ctx, rv.ops[0].place) if rv.ops[0].place else None
        if frm is None:
            c = rv.ops[0].const or ''
            m2 = re.match(r'-?\d+_([iu]\w+)$', c.strip())
            frm = m2.group(1) if m2 else '?'
            if m2 and kind == 'IntToInt':
                return v
        if frm == to:
            return v
        if kind == 'IntToInt' and frm == 'bool':
            return v
        s.ev('numcast', v, self.sub(ctx, frm), self.sub(ctx, to), kind, x.span, dict(s.facts))
        return ('fn', 'cast', frm, to, v)

    # ------------------------------------------------------------------ calls
    def loc(self, s, v):
        """value seen through references to locals"""
        n = 0
        while v[0] in ('ref',) and n < 6:
            v = self.at(s, v[1], v[2])
            n += 1
        return v

    def generic_of(self, callee):
        m = re.search(r'::<((?:[^<>]|<(?:[^<>]|<(?:[^<>]|<[^<>]*>)*>)*>)*)>', callee)
        return m.group(1) if m else None

    def by_generic(self, callee):
        """method of the one impl of Trait<G> whose method takes or returns G"""
        nz = lambda t: re.sub(r'\s|\b(?:\w+::)+|\'\w+', '', t or '')
        m = re.match(r'^<(.*) as ([\w:]+)<(.*)>>::(\w+)', callee)
        if not m:
            # inherent method of a type declared by a macro: known by its receiver or result
            m = re.match(r'^(?:\w+::)*([A-Z]\w*)::(\w+)$', strip_generics(callee))
            if not m:
                return None
            sig = lambda f: [nz(f.ret)] + [nz(f.types.get(l)).replace('&mut', '').lstrip('&') for l in f.params[:1]]
            grp = lambda n: (n[:n.rindex('::')], (re.search(r'#\d+$', n) or [''])[0])
            same = {}
            for n, f in self.g.fns.items():
                if '<impl' in n and '::' in n:
                    same.setdefault(grp(n), []).extend(sig(f))
            cs = [f for n, f in self.g.fns.items() if re.sub(r'#\d+$', '', last_seg(n)) == m.group(2) and '<impl' in n and m.group(1) in same[grp(n)]
                  and (not re.fullmatch(r'[A-Z]\w*', f.impl[1] or '') or f.impl[1] == m.group(1))]
            return cs[0] if len(cs) == 1 else None
        cs = [f for n, f in self.g.fns.items() if last_seg(n) == m.group(4) and '<impl' in n
              and nz(m.group(3)) in [nz(f.ret)] + [nz(f.types.get(l)) for l in f.params] and nz(m.group(1)) in [nz(f.types.get(l)) for l in f.params]]
        return cs[0] if len(cs) == 1 else None

    def call(self, s, ctx, t):
        f, fid, depth, subst = ctx
        callee = self.sub(ctx, t.callee)
        args = [self.op(s, ctx, a) for a in t.args]
        s = s.copy()
        nm = last_seg(strip_generics(callee))
        full = strip_generics(callee)
        tys = [self.sub(ctx, self.place_type(ctx, a.place)) if a.place is not None else '' for a in t.args]
        for pat, fn in self.models.items():
            if re.fullmatch(pat, full) or re.fullmatch(pat, callee):
                r = fn(self, s, args, callee, tys)
                if r is not NotImplemented:
                    return r if isinstance(r, list) else [(s, r)]
        own = None
        if not re.match(r'(move|copy) _|const ', callee):
            try:
                own = self.g.resolve(callee) or self.by_generic(callee)
                if own is not None and len(own.params) != len(args):
                    own = None
            except Exception:
                own = None
        r = self.std(s, ctx, nm, full, callee, args, tys, t) if own is None or not self.inline_ok(own) else None
        if r is not None:
            return r
        if re.match(r'(move|copy) _', callee) or callee.startswith('const '):
            nm = 'fnptr'
            fty = ''
            if callee.startswith(('move ', 'copy ')):
                o = parse_operand(callee)
                args = [self.op(s, ctx, o)] + args
                tys = [''] + tys
                fty = self.sub(ctx, self.place_type(ctx, o.place)) if o.place is not None else ''
        # function of this text
        g = None
        if nm != 'fnptr':
            g = own
        if g is not None and self.inline_ok(g):
            sb = {}
            names = self.g.gens.get(last_seg(g.name), [])
            ga = re.search(r'::<(.*)>$', callee)
            if names and ga:
                vals = [x for x in split_top(ga.group(1)) if not x.startswith("'")]
                sb = dict(zip(names, vals))
            m = re.match(r'^<(.*) as (.*)>::\w+', callee)
            if m:
                sb['Self'] = m.group(1)
            self.inlined.add(g.name)
            return self.call_fn(g, args, s, depth + 1, sb)
        self.opaque.add(nm)
        n = s.fresh()
        shown = tuple(self.loc(s, a) for a in args)
        s.ev('call', full, shown, callee, n, t.span, dict(s.facts), fty if nm == 'fnptr' else '', tuple(tys))
        # what the callee may change through a mutable reference to a local is not known any more
        for a, ty, v in zip(args, tys, shown):
            if a[0] == 'ref' and ty.startswith(('&mut', '*mut')):
                self.write_key(s, a[1], a[2], ('mut', n, nm, v, tuple(x for x in shown if x is not v)))
        return [(s, ('call', n, full, shown))]

    def split_null(self, s, p):
        k = self.known(s, ('fn', 'is_null', p))
        out = []
        for val in (0, 1):
            if k is None or k == val:
                s2 = s.copy()
                if k is None:
                    s2.facts[('fn', 'is_null', p)] = val
                out.append((val, s2))
        return out

    def split_opt(self, s, v, two=('None', 'Some')):
        """[(variant, payload, state)] of an Option / Result value"""
        if v[0] == 'agg' and v[2] in STDENUM:
            return [(v[2], v[3][0][1] if v[3] else ('c', '()'), s)]
        d = ('fn', 'discr', v, 2)
        k = self.known(s, d)
        out = []
        for i, name in enumerate(two):
            if k is None or k == i:
                s2 = s.copy()
                s2.facts[d] = i
                out.append((name, ('fld', ('as', v, name), 0), s2))
        return out

    PANICS = ('panic', 'panic_fmt', 'panic_explicit', 'unwrap_failed', 'expect_failed', 'begin_panic', 'panic_display', 'unreachable_display', 'assert_failed', 'panic_str_2015', 'panic_nounwind', 'abort', 'exit')

    def std(self, s, ctx, nm, full, callee, args, tys, t):
        a0 = args[0] if args else None
        L = lambda v: self.loc(s, v)
        ptr_self = '<impl *' in callee or 'ptr::const_ptr' in callee or 'ptr::mut_ptr' in callee
        one = lambda v: [(s, v)]
        if nm in self.PANICS and not t.targets:
            return one(('c', '()'))
        if nm == 'forget':
            s.ev('forget', L(a0), tys[0])
            return one(('c', '()'))
        if nm == 'drop' and ' as Drop>' not in callee and len(args) == 1:
            s.ev('drop', L(a0), tys[0], t.span)
            return one(('c', '()'))
        if nm == 'drop' and 'Box' in callee.split(' as ')[0]:
            s.ev('freebox', L(a0))
            return one(('c', '()'))
        if nm == 'drop_in_place':
            s.ev('drop', self.deref(s, a0), tys[0], t.span)
            return one(('c', '()'))
        if nm == 'new' and 'ManuallyDrop' in full:
            s.ev('forget', a0, tys[0])
            return one(a0)
        if 'ManuallyDrop' in callee and nm in ('deref', 'deref_mut', 'into_inner'):
            return one(a0)
        head = re.match(r'(?:[\w]+::)*(\w+)::(\w+)$', full)
        hd = head.group(1) if head else ''
        if hd in SMART and nm == 'new':
            return one(('box', a0) if hd == 'Box' else ('fn', hd + '::new', a0))
        if hd in SMART and nm in ('into_raw', 'leak'):
            v = L(a0)
            s.ev('into_raw', hd, self.generic_of(callee), v)
            return one(v[2] if v[0] == 'own' and v[1] == hd else ('raw', hd, v))
        if hd in SMART and nm in ('from_raw',):
            s.ev('from_raw', hd, self.generic_of(callee), a0, dict(s.facts))
            return one(a0[2] if a0[0] == 'raw' and a0[1] == hd else ('own', hd, a0))
        if hd in ('Rc', 'Arc') and nm == 'as_ptr':
            return one(('fn', 'ptr', L(a0)))
        if nm in ('from_raw_parts', 'from_raw_parts_mut'):
            k = hd if hd in ('Vec', 'String') else 'slice'
            if k == 'slice' or hd in ('Vec', 'String'):
                v = ('parts', k) + tuple(args)
                s.ev('from_parts', k, self.generic_of(callee) or '', tuple(args), dict(s.facts), ctx[0].name, t.span)
                return one(v)
        if nm in ('as_ptr', 'as_mut_ptr', 'len', 'capacity', 'is_empty') and len(args) == 1 and not ptr_self:
            v = L(a0)
            if nm in ('as_ptr', 'as_mut_ptr'):
                if v[0] == 'parts':
                    return one(v[2])
                return one(('fn', 'ptr', v))
            if v[0] == 'parts':
                if nm == 'len':
                    return one(v[3])
                if nm == 'capacity' and len(v) > 4:
                    return one(v[4])
            if nm == 'is_empty':
                return one(eq(('fn', 'len', v), ('c', '0')))
            return one(('fn', nm, v))
        if nm in ('null', 'null_mut') and not args:
            return one(('c', 'null'))
        if nm == 'is_null':
            if a0 == ('c', 'null'):
                return one(('c', '1'))
            if a0[0] in ('raw', 'ref', 'addr') or a0[0] == 'fn' and a0[1] == 'ptr':
                return one(('c', '0'))
            return one(('fn', 'is_null', a0))
        if nm == 'size_of' and not args:
            return one(('fn', 'size_of', self.generic_of(callee)))
        if ptr_self and nm in ('as_ref', 'as_mut'):
            out = []
            for val, s2 in self.split_null(s, a0):
                if val == 0:
                    s2.ev('deref', a0, dict(s2.facts), ctx[0].name)
                out.append((s2, ('agg', 'Option', 'Some', ((0, a0),)) if val == 0 else ('agg', 'Option', 'None', ())))
            return out
        if ptr_self and nm in ('cast', 'cast_mut', 'cast_const'):
            s.ev('ptrcast', a0, tys[0], self.generic_of(callee), nm)
            return one(a0)
        if ptr_self and nm == 'read' or full.endswith('ptr::read'):
            s.ev('deref', a0, dict(s.facts), ctx[0].name)
            return one(self.deref(s, a0))
        if (ptr_self and nm == 'write') or full.endswith('ptr::write'):
            s.ev('deref', a0, dict(s.facts), ctx[0].name)
            self.write_ptr(s, a0, (), args[1])
            return one(('c', '()'))
        if hd in ('Option', 'Result') or re.match(r'(?:std::\w+::|core::\w+::)?(Option|Result)::', full):
            r = self.optcall(s, ctx, nm, hd, args, tys, t, callee)
            if r is not None:
                return r
        if nm == 'not' and ' as Not' in callee or nm == 'not' and ' as std::ops::Not' in callee:
            v = L(a0)
            return one(v[2] if v[0] == 'fn' and v[1] == 'not' else ('fn', 'not', v))
        if nm in ('eq', 'ne') and 'PartialEq' in callee:
            r = self.binop('Eq' if nm == 'eq' else 'Ne', L(a0), L(args[1]))
            return one(r)
        if nm == 'branch' and 'Try' in callee:
            out = []
            res = 'Result' in callee.split(' as ')[0]
            for name, pay, s2 in self.split_opt(s, L(a0), ('Ok', 'Err') if res else ('None', 'Some')):
                if name in ('Ok', 'Some'):
                    out.append((s2, ('agg', 'ControlFlow', 'Continue', ((0, pay),))))
                else:
                    out.append((s2, ('agg', 'ControlFlow', 'Break', ((0, ('agg', 'Result' if res else 'Option', name, ((0, pay),) if res else ())),))))
            return out
        if nm == 'from_residual':
            return one(a0)
        if nm == 'clone' and ' as Clone>' in callee.replace('std::clone::', ''):
            n = s.fresh()
            v = L(a0)
            s.ev('clone', v, n)
            return one(('clone', n, v))
        if nm in ('clone',) and hd in ('Rc', 'Arc'):
            n = s.fresh()
            s.ev('clone', L(a0), n)
            return one(('clone', n, L(a0)))
        if nm in ('deref', 'deref_mut') and len(args) == 1:
            v = L(a0)
            if v[0] == 'own':
                return one(v[2])
            if re.search(r'<(?:\w+::)*(String|Vec<.*|CString) as', callee):
                return one(v)
            return one(('fn', 'deref', v))
        if nm in ('into_boxed_slice', 'into_vec', 'as_bytes', 'as_str', 'as_slice', 'as_mut_slice', 'into_bytes', 'as_mut_str', 'as_bytes_mut', 'from_utf8_unchecked', 'from_utf8_unchecked_mut', 'into_string', 'as_c_str') and len(args) == 1:
            v = a0 if a0[0] != 'ref' else L(a0)
            return one(v) if nm not in ('into_boxed_slice',) else one(('fn', nm, v))
        if nm in ('index', 'index_mut') and 'RangeFull' in callee:
            return one(L(a0))
        if nm in ('swap',) and 'mem::' in full and all(a[0] == 'ref' for a in args):
            x, y = L(a0), L(args[1])
            self.write_key(s, a0[1], a0[2], y)
            self.write_key(s, args[1][1], args[1][2], x)
            return one(('c', '()'))
        if nm in ('replace', 'take') and 'mem::' in full and a0[0] == 'ref':
            x = L(a0)
            self.write_key(s, a0[1], a0[2], args[1] if nm == 'replace' else ('fn', 'default', callee))
            return one(x)
        if nm in ('into', 'from') and len(args) == 1:
            m = re.match(r'<(.*) as (?:std::convert::)?(Into|From)<(.*)>>::', callee)
            if m and m.group(1) == m.group(3):
                return one(a0)
            if m and m.group(1 if m.group(2) == 'From' else 3) in NUM and m.group(3 if m.group(2) == 'From' else 1) in NUM:
                frm, to = (m.group(3), m.group(1)) if m.group(2) == 'From' else (m.group(1), m.group(3))
                return one(('fn', 'cast', frm, to, a0))
        if nm in ('try_from', 'try_into'):
            m = re.match(r'<(.*) as (?:std::convert::|core::convert::)?Try(Into|From)<(.*)>>::', callee)
            if m:
                frm, to = (m.group(3), m.group(1)) if m.group(2) == 'From' else (m.group(1), m.group(3))
                return one(('fn', 'try_from', frm, to, L(a0)))
        return None

    def optcall(self, s, ctx, nm, hd, args, tys, t, callee):
        a0 = args[0] if args else None
        if a0 is None:
            return None
        v = self.loc(s, a0)
        res = 'Result' in re.match(r'[\w:]*', strip_generics(callee)).group(0)
        two = ('Ok', 'Err') if res else ('None', 'Some')
        good = 'Ok' if res else 'Some'
        if nm in ('is_some', 'is_none', 'is_ok', 'is_err'):
            d = self.discr(s, v, 'Option<x>' if not res else 'Result<x,y>')
            want = {'is_some': 1, 'is_none': 0, 'is_ok': 0, 'is_err': 1}[nm]
            if d[0] == 'c':
                return [(s, ('c', str(int(int(d[1]) == want))))]
            return [(s, eq(d, ('c', str(want))))]
        if nm in ('unwrap', 'expect', 'unwrap_unchecked'):
            out = []
            for name, pay, s2 in self.split_opt(s, v, two):
                if name == good:
                    out.append((s2, pay))
                else:
                    self.diverging.append((ctx[0].name, nm, s2))
            return out
        if nm in ('unwrap_or',):
            return [(s2, pay if name == good else args[1]) for name, pay, s2 in self.split_opt(s, v, two)]
        if nm in ('as_ref', 'as_mut', 'as_deref', 'as_deref_mut'):
            out = []
            for name, pay, s2 in self.split_opt(s, v, two):
                if name == good or res:
                    p = ('ref', a0[1], a0[2] + ((0, name),)) if a0[0] == 'ref' and v[0] == 'agg' else ('fn', 'refto', pay) if False else pay
                    out.append((s2, ('agg', 'Result' if res else 'Option', name, ((0, p),))))
                else:
                    out.append((s2, ('agg', 'Option', 'None', ())))
            return out
        if nm in ('map', 'map_or', 'map_or_else', 'and_then', 'unwrap_or_else', 'map_err', 'ok_or_else', 'or_else'):
            out = []
            for name, pay, s2 in self.split_opt(s, v, two):
                isgood = name == good
                if nm == 'map':
                    fn = args[1] if isgood else None
                    wrap = lambda x, name=name: ('agg', 'Result' if res else 'Option', name, ((0, x),) if x is not None else ())
                    other = ('agg', 'Result' if res else 'Option', name, ((0, pay),) if res else ())
                elif nm == 'and_then':
                    fn, wrap = (args[1] if isgood else None), (lambda x: x)
                    other = ('agg', 'Result' if res else 'Option', name, ((0, pay),) if res else ())
                elif nm == 'map_err':
                    fn = None if isgood else args[1]
                    wrap = lambda x: ('agg', 'Result', 'Err', ((0, x),))
                    other = ('agg', 'Result', 'Ok', ((0, pay),))
                elif nm == 'map_or':
                    fn, wrap, other = (args[2] if isgood else None), (lambda x: x), args[1]
                elif nm == 'map_or_else':
                    fn, wrap, other = (args[2] if isgood else args[1]), (lambda x: x), None
                    if not isgood and not res:
                        pay = None
                elif nm == 'unwrap_or_else':
                    fn, wrap, other = (None if isgood else args[1]), (lambda x: x), pay
                    if not isgood and not res:
                        pay = None
                elif nm == 'ok_or_else':
                    fn = None if isgood else args[1]
                    wrap = lambda x: ('agg', 'Result', 'Err', ((0, x),))
                    other = ('agg', 'Result', 'Ok', ((0, pay),))
                    pay = None
                else:
                    return None
                if fn is None:
                    out.append((s2, other))
                    continue
                r = self.closure(s2, ctx, fn, [] if pay is None else [pay])
                if r is None:
                    return None
                out += [(s3, wrap(x)) for s3, x in r]
            return out
        return None

    def closure(self, s, ctx, fn, args):
        fn = self.loc(s, fn)
        if fn[0] == 'agg' and fn[1].startswith('{closure'):
            g = self.g.closure_of_type(fn[1])
            if g is None:
                return None
            # environment by value or by reference
            et = g.types.get(g.params[0], '')
            if et.startswith('&'):
                self.frames += 1
                key = (self.frames, 'env')
                s = s.copy()
                s.env[key] = fn
                env = ('ref', key, ())
            else:
                env = fn
            return self.call_fn(g, [env] + args, s, ctx[2] + 1, ctx[3])
        if fn[0] == 'c':
            g = self.g.resolve(fn[1])
            if g is not None:
                return self.call_fn(g, args, s, ctx[2] + 1, {})
            last = last_seg(strip_generics(fn[1]))
            if last in ('Some', 'Ok', 'Err'):
                return [(s, ('agg', 'Option' if last == 'Some' else 'Result', last, ((0, args[0]),)))]
            s = s.copy()
            n = s.fresh()
            s.ev('call', strip_generics(fn[1]), tuple(args), fn[1], n, '', dict(s.facts))
            return [(s, ('call', n, strip_generics(fn[1]), tuple(args)))]
        return None


def show(v):
    """readable text of a value"""
    if not isinstance(v, tuple) or not v:
        return str(v)
    k = v[0]
    if k in ('c', 'p'):
        return str(v[1])
    if k == 'fld':
        return '%s.%s' % (show(v[1]), v[2])
    if k == 'as':
        return '(%s as %s)' % (show(v[1]), v[2])
    if k == 'deref':
        return '*' + show(v[1])
    if k == 'fn':
        return '%s(%s)' % (v[1], ', '.join(show(x) for x in v[2:]))
    if k == 'call':
        return '%s(%s)' % (v[2], ', '.join(show(x) for x in v[3]))
    if k == 'agg':
        return '%s%s{%s}' % (v[1], '::' + v[2] if v[2] else '', ', '.join('%s: %s' % (a, show(b)) for a, b in v[3]))
    if k in ('own', 'raw'):
        return '%s::%s(%s)' % (v[1], 'from_raw' if k == 'own' else 'into_raw', show(v[2]))
    if k == 'parts':
        return '%s::from_raw_parts(%s)' % (v[1], ', '.join(show(x) for x in v[2:]))
    if k == 'clone':
        return 'clone(%s)' % show(v[2])
    if k == 'mut':
        return '%s after %s' % (show(v[3]), v[2])
    return '%s(%s)' % (k, ', '.join(show(x) for x in v[1:]))
