"""Abstract evaluation of the parser and validators of declarations (code_parse.rs, types.rs, extension.rs and the
register_class functions) over token classes.

The syntax trees of the functions are interpreted over an abstract token stream: a type, a path or a function argument is
one opaque symbol with the attributes the code may ask about, a declaration body is a sequence of items from a finite
alphabet.  The set of reachable abstract states of the parser (values of its local variables at the point where it asks
for the next item) is explored to a fixpoint.  Nothing of the repository is executed."""
import copy
import rast


class Undec(Exception):
    pass


class Panic(Exception):
    pass


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class _Brk(Exception):
    def __init__(self, v, label):
        self.v, self.label = v, label


class _Cont(Exception):
    def __init__(self, label):
        self.label = label


class E:
    """value of an enum"""
    __slots__ = ('n', 'a', 'f', 'ty')

    def __init__(self, n, a=(), f=None, ty=None):
        self.n, self.a, self.f, self.ty = n, list(a), f, ty

    def key(self):
        return ('E', self.n, tuple(key(x) for x in self.a), tuple(sorted((k, key(v)) for k, v in (self.f or {}).items())))

    def __eq__(self, o):
        return isinstance(o, E) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return self.n + (repr(self.a) if self.a else '') + (repr(self.f) if self.f else '')


class S:
    """value of a struct"""
    __slots__ = ('n', 'f')

    def __init__(self, n, f):
        self.n, self.f = n, f

    def key(self):
        return ('S', self.n, tuple(sorted((str(k), key(v)) for k, v in self.f.items() if k not in NOKEY)))

    def __eq__(self, o):
        return isinstance(o, S) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return self.n + repr(self.f)


class L:
    """Vec, slice, Punctuated, set, iterator"""
    __slots__ = ('v', 'kind')

    def __init__(self, v, kind='vec'):
        self.v, self.kind = list(v), kind

    def key(self):
        return ('L',) + tuple(key(x) for x in self.v)

    def __eq__(self, o):
        return isinstance(o, L) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return repr(self.v)


class M:
    """map"""
    __slots__ = ('v',)

    def __init__(self, v=None):
        self.v = dict(v or {})

    def key(self):
        return ('M', tuple(sorted((str(key(k)), str(key(x))) for k, x in self.v.items())))


class O:
    """opaque symbol; two are equal when their names are"""
    __slots__ = ('kind', 't', 'at')

    def __init__(self, kind, t, **at):
        self.kind, self.t, self.at = kind, t, at

    def key(self):
        return ('O', self.kind, self.t)

    def __eq__(self, o):
        if isinstance(o, str):
            return self.t == o
        return isinstance(o, O) and self.kind == o.kind and self.t == o.t

    def __hash__(self):
        return hash((self.kind, self.t))

    def __repr__(self):
        return self.t


class Place:
    """a mutable reference to a variable, a field or an element"""
    __slots__ = ('c', 'k')

    def __init__(self, c, k):
        self.c, self.k = c, k

    def get(self):
        return strip(self.c[self.k])

    def set(self, v):
        if isinstance(self.c[self.k], Place):
            self.c[self.k].set(v)
        else:
            self.c[self.k] = v

    def key(self):
        return key(self.get())


class Fnv:
    def __init__(self, params, body, env, name=None):
        self.params, self.body, self.env, self.name = params, body, env, name


class PyFn:
    def __init__(self, f):
        self.f = f


UNIT = O('unit', '()')
NONE = E('None')
SPAN = O('Span', 'span')
NOKEY = {'span', 'src_id', 'doc_comments'}


def some(x):
    return E('Some', [x])


def ok(x):
    return E('Ok', [x])


def err(x):
    return E('Err', [x])


def strip(v):
    while isinstance(v, Place):
        v = v.get()
    return v


def key(v):
    v = strip(v)
    if hasattr(v, 'key'):
        return v.key()
    if isinstance(v, tuple):
        return ('T',) + tuple(key(x) for x in v)
    if isinstance(v, (Fnv, PyFn)):
        return 'fn'
    return v


def diag(*parts):
    return err(O('diagnostic', ' '.join(str(p) for p in parts)))


def ident(n):
    return O('Ident', n)


def path(text):
    segs = [x for x in text.split('::') if x]
    return S('Path', {'leading_colon': NONE, 'segments': L([S('PathSegment', {'ident': ident(x), 'arguments': E('PathArguments::None')}) for x in segs], 'punct')})


KEYWORDS = {'fn', 'enum', 'struct', 'self', 'Self', 'type', 'let', 'pub', 'impl', 'trait', 'dyn', 'mod', 'use', 'for', 'if',
            'else', 'match', 'while', 'loop', 'return', 'static', 'const', 'ref', 'mut', 'move', 'in', 'as', 'where', 'unsafe',
            'extern', 'crate', 'super', 'true', 'false', 'break', 'continue'}


class Stream:
    """tokens: ('id', name) ('p', text) ('g', delimiter, Stream) ('lit', text) ('ty', O) ('path', text) ('args', [FnArg])
    ('attr', S) ('gen', text) ('dyn', L)"""

    def __init__(self, toks, items=None, tag=None):
        self.t, self.i, self.items, self.tag = list(toks), 0, items, tag
        self.hook = None

    def feed(self):
        while self.i >= len(self.t) and self.items:
            self.t.extend(self.items.pop(0))

    def more(self):
        return self.i < len(self.t)

    def peek(self, n=0):
        return self.t[self.i + n] if self.i + n < len(self.t) else ('eof',)

    def next(self):
        x = self.peek()
        if x[0] != 'eof':
            self.i += 1
        return x

    def key(self):
        return ('stream', self.tag, len(self.t) - self.i)

    def fork(self):
        s = Stream(self.t, None, self.tag)
        s.i = self.i
        return s


class Interp:
    def __init__(self, src, overrides=None, method_over=None):
        self.src = src
        self.over = overrides or {}
        self.mover = method_over or {}
        self.expect = []
        self.depth = 0
        self.visited = set()
        self.cur_impl = [None]
        self.steps = 0
        self.frames = []
        self.scopes = []
        self.inp = None
        self.trace = []          # state keys at each question for the next item

    # ------------------------------------------------------------ functions
    def call_fn(self, fn, args):
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            raise Undec('recursion in ' + fn['name'])
        self.visited.add((fn['file'], fn['name'], fn.get('impl')))
        env = [{}]
        params = fn['sig']['inputs']
        if len(params) != len(args):
            self.depth -= 1
            raise Undec('arity of ' + fn['name'])
        for p, a in zip(params, args):
            if p['k'] == 'Recv':
                env[0]['self'] = a
            elif not self.bind(p['pat'], a, env):
                raise Undec('parameter pattern of ' + fn['name'])
        self.cur_impl.append((fn.get('impl') or '').split('<')[0].strip() or self.cur_impl[-1])
        self.frames.append(env)
        exp = self.expect
        self.expect = [fn['sig'].get('output')]
        try:
            return self.block(fn['b'], env)
        except _Ret as r:
            return r.v
        finally:
            self.depth -= 1
            self.expect = exp
            self.cur_impl.pop()
            self.frames.pop()

    def apply(self, f, args):
        f = strip(f)
        if isinstance(f, PyFn):
            return f.f(*args)
        if isinstance(f, Fnv):
            if f.body is None:
                return self.call_fn(f.name, args)
            env = f.env + [{}]
            for p, a in zip(f.params, args):
                if not self.bind(p, a, env):
                    raise Undec('closure pattern')
            self.frames.append(env)
            try:
                return self.ev(f.body, env)
            except _Ret as r:
                return r.v
            finally:
                self.frames.pop()
        raise Undec('call of ' + repr(f)[:40])

    # ------------------------------------------------------------ variables
    def lookup(self, n, env):
        for fr in reversed(env):
            if n in fr:
                return fr
        return None

    # ------------------------------------------------------------ patterns
    def bind(self, p, v, env, place=None):
        k = p['k']
        if k == 'PWild' or k == 'PRest':
            return True
        if k == 'PIdent':
            n = p['n']
            sv = strip(v)
            if not p.get('m') and not p.get('by_ref') and n[:1].isupper():
                if isinstance(sv, E):
                    return sv.n == n
                c = self.src.consts.get(n)
                if c:
                    return key(sv) == key(self.const(c[0]))
            if p.get('sub') and not self.bind(p['sub'], v, env):
                return False
            if p.get('by_ref') and place is not None:
                env[-1][n] = place
            elif place is not None and isinstance(sv, (str, int, bool, E)) and not isinstance(v, Place):
                env[-1][n] = place
            else:
                env[-1][n] = v
            return True
        if k in ('PType',):
            return self.bind(p['p'], v, env, place)
        if k == 'PRef' or k == 'PReference':
            return self.bind(p.get('p') or p['e'], strip(v), env)
        if k == 'PParen':
            return self.bind(p['p'], v, env, place)
        if k == 'POr':
            return any(self.bind(x, v, env, place) for x in p['es'])
        sv = strip(v)
        if k == 'PLit':
            lv = self.ev(p['v'], env)
            return key(sv) == key(lv) or (isinstance(sv, O) and sv == lv)
        if k == 'PPath':
            last = p['p'].replace(' ', '').split('::')[-1]
            if isinstance(sv, E):
                return sv.n == last
            if isinstance(sv, S):
                return sv.n == last
            c = self.src.consts.get(last)
            if c:
                return key(sv) == key(self.const(c[0]))
            raise Undec('path pattern ' + last)
        if k == 'PTuple':
            if not isinstance(sv, (tuple, list)):
                raise Undec('tuple pattern')
            return self.seq(p['es'], list(sv), env, sv)
        if k == 'PTS':
            last = p['p'].replace(' ', '').split('::')[-1]
            if isinstance(sv, E):
                if sv.n != last:
                    return False
                return self.seq(p['es'], sv.a, env, sv)
            if isinstance(sv, S):
                return sv.n == last and self.seq(p['es'], [sv.f[i] for i in range(len(sv.f))], env, sv)
            raise Undec('tuple struct pattern %s on %r' % (last, sv))
        if k == 'PStruct':
            last = p['p'].replace(' ', '').split('::')[-1]
            if not isinstance(sv, (E, S)):
                raise Undec('struct pattern on %r' % (sv,))
            if sv.n != last and not (last == 'Self'):
                return False
            d = sv.f or {}
            for name, q in p['fields']:
                if name not in d:
                    raise Undec('field %s of %s' % (name, sv.n))
                if not self.bind(q, d[name], env, Place(d, name)):
                    return False
            return True
        if k == 'PSlice':
            if not isinstance(sv, L):
                raise Undec('slice pattern')
            return self.seq(p['es'], sv.v, env, sv)
        raise Undec('pattern ' + k)

    def seq(self, pats, vals, env, owner):
        rest = [i for i, q in enumerate(pats) if q['k'] == 'PRest' or (q['k'] == 'PIdent' and q.get('sub') and q['sub']['k'] == 'PRest')]
        holder = owner.a if isinstance(owner, E) else owner.v if isinstance(owner, L) else owner.f if isinstance(owner, S) else None
        if rest:
            i = rest[0]
            n = len(pats) - i - 1
            if len(vals) < len(pats) - 1:
                return False
            pairs = list(zip(pats[:i], range(i))) + list(zip(pats[i + 1:], range(len(vals) - n, len(vals))))
            if pats[i]['k'] == 'PIdent':
                env[-1][pats[i]['n']] = L(vals[i:len(vals) - n])
        else:
            if len(vals) != len(pats):
                return False
            pairs = list(zip(pats, range(len(vals))))
        for q, j in pairs:
            if not self.bind(q, vals[j], env, Place(holder, j) if holder is not None else None):
                return False
        return True

    # ------------------------------------------------------------ statements
    def block(self, stmts, env):
        env = env + [{}]
        self.scopes.append(env[-1])
        try:
            return self.block_(stmts, env)
        finally:
            self.scopes.pop()

    def block_(self, stmts, env):
        r = UNIT
        for i, st in enumerate(stmts):
            r = UNIT
            k = st['k']
            if k == 'Let':
                pat = st['pat']
                if pat['k'] == 'PType':
                    self.expect.append(pat['ty'])
                else:
                    self.expect.append(None)
                try:
                    if st.get('init') is None:
                        for n in rast.walk(pat):
                            if n['k'] == 'PIdent':
                                env[-1][n['n']] = UNIT
                        continue
                    v = self.ev(st['init'], env)
                finally:
                    self.expect.pop()
                if isinstance(v, Place) and st['init']['k'] not in ('Ref', 'MCall', 'Path', 'Call', 'Match', 'If', 'Field'):
                    v = v.get()
                fr = {}
                if self.bind(pat, v, env + [fr]):
                    env[-1].update(fr)
                else:
                    d = st.get('els') or st.get('else') or st.get('diverge')
                    if d is None:
                        raise Undec('refutable let')
                    self.ev(d, env) if isinstance(d, dict) else self.block(d, env)
                    raise Undec('let-else falls through')
            elif k == 'ExprStmt':
                e = st['e']
                v = self.ev(e, env)
                if not st['semi']:
                    r = v
            elif k == 'ItemStmt':
                it = st['item']
                if it['k'] in ('Const', 'Static'):
                    env[-1][it['name']] = self.ev(it['e'], env)
                elif it['k'] in ('Use', 'Struct', 'Enum', 'Impl'):
                    pass
                elif it['k'] == 'Fn':
                    it.setdefault('file', '?')
                    env[-1][it['name']] = Fnv(None, None, None, it)
                else:
                    raise Undec('local item ' + it['k'])
            else:
                raise Undec('statement ' + k)
        return r

    def const(self, c):
        return self.ev(c['e'], [{}])

    # ------------------------------------------------------------ expressions
    def ev(self, e, env):
        self.steps += 1
        if self.steps > 200000:
            raise Undec('too many steps')
        m = getattr(self, 'x_' + e['k'], None)
        if m is None:
            raise Undec('expression ' + e['k'])
        return m(e, env)

    def x_Str(self, e, env):
        return e['v']

    def x_Int(self, e, env):
        return int(e['v'])

    def x_Bool(self, e, env):
        return e['v']

    def x_Char(self, e, env):
        return e['v']

    def x_Block(self, e, env):
        if not e.get('label'):
            return self.block(e['b'], env)
        try:
            return self.block(e['b'], env)
        except _Brk as b:
            if b.label == e['label']:
                return b.v
            raise

    def x_Tuple(self, e, env):
        return tuple(self.ev(x, env) for x in e['es']) if e['es'] else UNIT

    def x_Array(self, e, env):
        return L([self.ev(x, env) for x in e['es']])

    def x_Paren(self, e, env):
        return self.ev(e['e'], env)

    def x_Ref(self, e, env):
        if e.get('mutable') and e['e']['k'] == 'Path':
            n = e['e']['p'].strip()
            fr = self.lookup(n, env)
            if fr is not None:
                v = fr[n]
                if isinstance(v, Place):
                    return v
                if isinstance(strip(v), (str, int, bool, E)):
                    return Place(fr, n)
                return v
        if e.get('mutable') and e['e']['k'] == 'Field':
            b = strip(self.ev(e['e']['base'], env))
            if isinstance(b, S) and e['e']['f'] in b.f:
                if isinstance(strip(b.f[e['e']['f']]), (str, int, bool, E)):
                    return Place(b.f, e['e']['f'])
                return b.f[e['e']['f']]
        return self.ev(e['e'], env)

    def x_Un(self, e, env):
        op = e['op'].strip()
        v = self.ev(e['e'], env)
        if op == '*':
            return strip(v)
        v = strip(v)
        if op == '!':
            if isinstance(v, bool):
                return not v
        if op == '-' and isinstance(v, int):
            return -v
        raise Undec('unary ' + op)

    def x_Bin(self, e, env):
        op = e['op'].strip()
        if op == '&&':
            return self.cond(e['a'], env) and self.cond(e['b'], env)
        if op == '||':
            return self.cond(e['a'], env) or self.cond(e['b'], env)
        a = strip(self.ev(e['a'], env))
        if op in ('+=', '-=', '|=', '&='):
            b = strip(self.ev(e['b'], env))
            v = self.arith(op[:-1], a, b)
            self.assign(e['a'], v, env)
            return UNIT
        b = strip(self.ev(e['b'], env))
        if op in ('==', '!='):
            r = self.equal(a, b)
            return r if op == '==' else not r
        if op in ('<', '>', '<=', '>='):
            if isinstance(a, int) and isinstance(b, int):
                return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op]
            raise Undec('comparison')
        return self.arith(op, a, b)

    def arith(self, op, a, b):
        if isinstance(a, bool) and isinstance(b, bool) and op in '|&^':
            return {'|': a | b, '&': a & b, '^': a ^ b}[op]
        if isinstance(a, S) and isinstance(b, S) and a.n == 'Flags':
            return S('Flags', {'bits': {'|': a.f['bits'] | b.f['bits'], '&': a.f['bits'] & b.f['bits']}.get(op)})
        if isinstance(a, int) and isinstance(b, int):
            if op == '+':
                return a + b
            if op == '-':
                if a < b:
                    raise Panic('subtract with overflow')
                return a - b
            if op == '*':
                return a * b
            if op in '|&':
                return a | b if op == '|' else a & b
        if isinstance(a, str) and op == '+':
            return a + str(b)
        raise Undec('operator ' + op)

    def equal(self, a, b):
        if isinstance(a, O) and isinstance(b, str):
            return a.t == b
        if isinstance(b, O) and isinstance(a, str):
            return b.t == a
        return key(a) == key(b)

    def cond(self, e, env):
        v = strip(self.ev(e, env))
        if not isinstance(v, bool):
            raise Undec('condition ' + repr(v)[:60])
        return v

    def x_LetCond(self, e, env):
        fr = {}
        v = self.ev(e['e'], env)
        if self.bind(e['pat'], v, env + [fr]):
            env[-1].update(fr)
            return True
        return False

    def x_If(self, e, env):
        env2 = env + [{}]
        if self.cond(e['c'], env2):
            return self.block(e['t'], env2)
        if e.get('e') is None:
            return UNIT
        return self.ev(e['e'], env)

    def x_Match(self, e, env):
        v = self.ev(e['e'], env)
        place = None
        if e['e']['k'] == 'Path':
            n = e['e']['p'].strip()
            fr0 = self.lookup(n, env)
            if fr0 is not None:
                place = Place(fr0, n)
        for a in e['arms']:
            fr = {}
            if self.bind(a['pat'], v, env + [fr], place if a['pat']['k'] == 'PIdent' and a['pat'].get('by_ref') else None):
                env2 = env + [fr]
                if a.get('guard') is not None and not self.cond(a['guard'], env2):
                    continue
                return self.ev(a['body'], env2)
        raise Undec('no arm matches %r' % (v,))

    def loop(self, e, env, body):
        try:
            body()
        except _Cont as c:
            if c.label and c.label != e.get('label'):
                raise
        except _Brk as b:
            if b.label and b.label != e.get('label'):
                raise
            return b
        return None

    def x_While(self, e, env):
        n = 0
        while True:
            env2 = env + [{}]
            if not self.cond(e['c'], env2):
                return UNIT
            b = self.loop(e, env, lambda: self.block(e['b'], env2))
            if b:
                return UNIT
            n += 1
            if n > 400:
                raise Undec('endless loop')

    def x_Loop(self, e, env):
        for _ in range(400):
            b = self.loop(e, env, lambda: self.block(e['b'], env))
            if b:
                return b.v
        raise Undec('endless loop')

    def x_For(self, e, env):
        c = strip(self.ev(e['e'], env))
        for i, x in enumerate(self.items_of(c)):
            fr = {}
            pl = Place(c.v, i) if isinstance(c, L) and i < len(c.v) and c.v[i] is x else None
            if not self.bind(e['pat'], x, env + [fr], None):
                raise Undec('for pattern')
            b = self.loop(e, env, lambda: self.block(e['b'], env + [fr]))
            if b:
                break
        return UNIT

    def items_of(self, c):
        c = strip(c)
        if isinstance(c, L):
            return list(c.v)
        if isinstance(c, range):
            return list(c)
        if isinstance(c, E) and c.n in ('Some', 'Ok'):
            return [c.a[0]]
        if isinstance(c, E) and c.n in ('None', 'Err'):
            return []
        if isinstance(c, M):
            return [(k, v) for k, v in c.v.items()]
        raise Undec('iteration over %r' % (c,))

    def x_Range(self, e, env):
        a = strip(self.ev(e['a'], env)) if e.get('a') else 0
        if e.get('b') is None:
            return ('from', a)
        b = strip(self.ev(e['b'], env))
        return range(a, b + 1 if e.get('closed') else b)

    def x_Return(self, e, env):
        raise _Ret(self.ev(e['e'], env) if e.get('e') else UNIT)

    def x_Break(self, e, env):
        raise _Brk(self.ev(e['e'], env) if e.get('e') else UNIT, e.get('label'))

    def x_Continue(self, e, env):
        raise _Cont(e.get('label'))

    def x_Try(self, e, env):
        v = strip(self.ev(e['e'], env))
        if not isinstance(v, E):
            raise Undec('? on %r' % (v,))
        if v.n in ('Ok', 'Some'):
            return v.a[0]
        raise _Ret(v)

    def x_Cast(self, e, env):
        return self.ev(e['e'], env)

    def x_Closure(self, e, env):
        return Fnv(e['params'], e['body'], env)

    def x_Struct(self, e, env):
        last = e['p'].replace(' ', '').split('::')[-1]
        if last == 'Self':
            last = self.cur_impl[-1]
        f = {}
        if e.get('rest') is not None:
            b = strip(self.ev(e['rest'], env))
            f.update(b.f)
        for n, x in e['fields']:
            v = self.ev(x, env)
            f[int(n) if n.isdigit() else n] = strip(v)
        if last in self.src.structs or last in ('Path', 'MacroAttr'):
            return S(last, f)
        return E(last, [], f)

    def x_Assign(self, e, env):
        self.assign(e['a'], strip(self.ev(e['b'], env)), env)
        return UNIT

    def assign(self, a, v, env):
        k = a['k']
        if k == 'Path':
            n = a['p'].strip()
            if n == '_':
                return
            fr = self.lookup(n, env)
            if fr is None:
                raise Undec('assignment to ' + n)
            if isinstance(fr[n], Place) and fr[n].c is not fr:
                # `x = v` for a by-value use of a place is a plain rebinding unless the place is the variable's own storage
                fr[n].set(v)
            else:
                fr[n] = v
            return
        if k == 'Un' and a['op'].strip() == '*':
            t = self.ev(a['e'], env)
            if isinstance(t, Place):
                t.set(v)
                return
            raise Undec('assignment through ' + repr(t)[:40])
        if k == 'Field':
            b = strip(self.ev(a['base'], env))
            if isinstance(b, S):
                b.f[int(a['f']) if a['f'].isdigit() else a['f']] = v
                return
            if isinstance(b, O):
                return
        if k == 'Index':
            b = strip(self.ev(a['e'], env))
            i = strip(self.ev(a['i'], env))
            if isinstance(b, L) and isinstance(i, int):
                if i >= len(b.v):
                    raise Panic('index out of bounds')
                b.v[i] = v
                return
            if isinstance(b, O):
                return
        raise Undec('assignment to ' + k)

    def x_Field(self, e, env):
        b = strip(self.ev(e['base'], env))
        f = e['f']
        if isinstance(b, (S, E)):
            d = b.f or {}
            kk = int(f) if f.isdigit() else f
            if kk in d:
                v = d[kk]
                if isinstance(strip(v), (E, bool, int, str)) and not isinstance(v, Place):
                    return Place(d, kk)
                return v
            if isinstance(b, E) and f.isdigit() and int(f) < len(b.a):
                return b.a[int(f)]
        if isinstance(b, tuple) and f.isdigit():
            return b[int(f)]
        if isinstance(b, O):
            if f in b.at:
                return b.at[f]
            return O('field', b.t + '.' + f)
        raise Undec('field %s of %r' % (f, b))

    def x_Index(self, e, env):
        b = strip(self.ev(e['e'], env))
        i = strip(self.ev(e['i'], env))
        if isinstance(b, L):
            if isinstance(i, int):
                if i >= len(b.v):
                    raise Panic('index out of bounds')
                return b.v[i]
            if isinstance(i, range):
                if i.stop > len(b.v):
                    raise Panic('slice index out of bounds')
                return L(b.v[i.start:i.stop])
            if isinstance(i, tuple) and i[0] == 'from':
                if i[1] > len(b.v):
                    raise Panic('slice index out of bounds')
                return L(b.v[i[1]:])
        raise Undec('index')

    # ---- paths and calls
    def x_Path(self, e, env):
        p = e['p'].replace(' ', '')
        if '::' not in p:
            fr = self.lookup(p, env)
            if fr is not None:
                v = fr[p]
                return v
        segs = p.split('::')
        last = segs[-1]
        if last == 'None':
            return NONE
        ov = self.over.get('::'.join(segs[-2:])) or self.over.get(last)
        if ov:
            return PyFn(ov)
        if len(segs) >= 2 and segs[-2] in self.src.enums or (len(segs) == 1 and self.variant_of(last)):
            return E(last)
        if last in ('Some', 'Ok', 'Err'):
            return PyFn(lambda x, n=last: E(n, [x]))
        if len(segs) >= 2:
            fl = self.flags(segs[-2])
            if fl and last in fl:
                return S('Flags', {'bits': fl[last]})
        c = self.src.consts.get(last)
        if c:
            return self.const(c[0])
        f = self.find_fn(segs)
        if f:
            return Fnv(None, None, None, f)
        if len(segs) >= 2:
            return PyFn(lambda *a, s=segs: self.assoc(s, list(a), None))
        raise Undec('name ' + p)

    def variant_of(self, n):
        return any(v['name'] == n and not v['fields'] for es in self.src.enums.values() for en in es for v in en['variants'])

    def flags(self, ty):
        m = getattr(self, '_flags', None)
        if m is None:
            m = self._flags = {}
            import re
            for rel, items in self.src.files.items():
                for it in items:
                    if it['k'] == 'MacroItem' and it['m']['name'].split('::')[-1].strip() == 'bitflags':
                        t = rast.toks_text(it['m']['toks'])
                        mm = re.search(r'struct\s+(\w+)', t)
                        if mm:
                            m[mm.group(1)] = {a: int(b, 0) for a, b in re.findall(r'const\s+(\w+)\s*=\s*(\w+?)\s*;', t) if b.isdigit()}
        return m.get(ty)

    def find_fn(self, segs):
        last = segs[-1]
        c = self.src.fns.get(last) or []
        if len(segs) >= 2:
            ty = segs[-2]
            if ty == 'Self':
                ty = self.cur_impl[-1]
            r = [f for f in c if (f['impl'] or '').split('<')[0].split('::')[-1].strip() == ty or (f.get('tr') or '').split('<')[0].strip() == ty]
            if not r:
                r = [f for f in c if not f['impl'] and (f['mod'].split('::')[-1] == ty or f['file'].rsplit('/', 1)[-1] in (ty + '.rs',) or f['file'].endswith(ty + '/mod.rs'))]
            return r[0] if len(r) == 1 else None
        r = [f for f in c if not f['impl']]
        if len(r) > 1:
            here = [f for f in r if f['file'] == getattr(self, 'file', None)]
            r = here or r
        return r[0] if len(r) == 1 else None

    def x_Call(self, e, env):
        f = e['f']
        if f['k'] == 'Path':
            p = f['p'].replace(' ', '')
            full = f['full'].replace(' ', '')
            segs = p.split('::')
            ov = self.over.get('::'.join(segs[-2:])) or self.over.get(segs[-1])
            if ov:
                return ov(*[self.ev(a, env) for a in e['args']])
            fr = self.lookup(p, env) if '::' not in p else None
            args = [self.ev(a, env) for a in e['args']]
            if fr is not None:
                return self.apply(fr[p], args)
            if segs[-1] in ('Some', 'Ok', 'Err') and len(segs) <= 2:
                return E(segs[-1], [strip(args[0]) if not isinstance(args[0], Place) else args[0]])
            fn = self.find_fn(segs)
            if fn is not None:
                return self.call_fn(fn, args)
            if segs[-1] == 'Self':
                return S(self.cur_impl[-1], dict(enumerate(args)))
            if len(segs) == 1 and segs[0] in self.src.structs:
                return S(segs[0], {i: strip(a) for i, a in enumerate(args)})
            if segs[-1][:1].isupper():
                return E(segs[-1], [strip(a) for a in args])
            return self.assoc(segs, args, full)
        return self.apply(self.ev(f, env), [self.ev(a, env) for a in e['args']])

    def expected(self):
        for x in reversed(self.expect):
            return x
        return None

    def assoc(self, segs, args, full):
        """associated functions of types outside the crate"""
        last = segs[-1]
        ty = segs[-2] if len(segs) > 1 else ''
        a = [strip(x) for x in args]
        if ty == 'Error' and last in ('new', 'new_spanned'):
            return O('diagnostic', str(a[-1]))
        if ty == 'DiagnosticError' and last in ('new', 'new2', 'new_without_src_info'):
            return O('diagnostic', str(a[-1]))
        if ty == 'DiagnosticError' and last.startswith(('from_', 'map_')):
            return a[-1]
        if last == 'drop' or (ty == 'mem' and last == 'drop'):
            return UNIT
        if ty == 'mem' and last in ('take', 'replace'):
            pl = args[0]
            old = a[0]
            if isinstance(pl, Place):
                pl.set(a[1] if last == 'replace' else ('' if isinstance(old, str) else False if isinstance(old, bool) else NONE))
                return old
            if isinstance(old, L):
                n = L(old.v, old.kind)
                old.v = a[1].v if last == 'replace' else []
                return n
        if last == 'swap' and ty == 'mem' and isinstance(args[0], Place) and isinstance(args[1], Place):
            args[0].set(a[1]), args[1].set(a[0])
            return UNIT
        if last in ('new', 'with_capacity', 'default', 'with_capacity_and_hasher'):
            if ty in ('Vec', 'FxHashSet', 'HashSet', 'BTreeSet', 'Punctuated', 'VecDeque', 'SmallVec', 'IndexSet'):
                return L([], 'set' if 'Set' in ty else 'vec')
            if ty in ('FxHashMap', 'HashMap', 'BTreeMap', 'IndexMap'):
                return M()
            if ty in ('String', 'SmolStr'):
                return a[0] if a and isinstance(a[0], (str, O)) and last == 'new' else ''
            if ty in ('Box', 'Rc', 'Arc', 'Cow', 'RefCell', 'Cell'):
                return args[0]
            if ty == 'Ident':
                return ident(str(a[0]))
            if ty == 'TokenStream':
                return O('TokenStream', '')
        if last in ('from', 'from_str') and ty in ('String', 'SmolStr', 'Box', 'Rc', 'Arc', 'Cow', 'Vec'):
            return args[0] if not isinstance(a[0], O) or a[0].kind != 'Ident' else a[0].t
        if last == 'none' and ty == 'SourceId':
            return O('SourceId', 'none')
        if ty == 'Span' and last in ('call_site', 'mixed_site'):
            return SPAN
        if last in ('parse2', 'parse') and a and isinstance(a[0], Stream):
            return self.parse_full(a[0], full)
        if last == 'parse' and a and isinstance(a[0], Stream):
            return self.parse_ty(a[0], ty)
        if last in ('parse_mod_style', 'parse_outer', 'parse_terminated', 'parse_within') and a and isinstance(a[0], Stream):
            return self.stream_fn(a[0], last)
        if last == 'from_iter' and isinstance(a[0], L):
            return L(a[0].v)
        if ty in ('iter',) and last == 'empty':
            return L([])
        if ty in ('iter',) and last == 'once':
            return L([args[0]])
        if last in ('max', 'min') and all(isinstance(x, int) for x in a):
            return max(a) if last == 'max' else min(a)
        # UFCS: T::method(receiver, …)
        if args and ty in ('Option', 'Result', 'str', 'String', 'Vec', 'Iterator', 'FnArg', 'ToString', 'Into', 'Clone', 'AsRef', 'Ident', 'Path', 'SmolStr', 'Attribute'):
            return self.method(args[0], last, list(args[1:]), None, None)
        raise Undec('call of ' + '::'.join(segs))

    # ---- parsing
    def parse_full(self, s, full=None):
        ty = None
        if full and '<' in full:
            ty = full[full.index('<') + 1:full.rindex('>')]
        ty = ty or self.expected()
        if not ty:
            raise Undec('parse2 of an unknown type')
        s2 = s.fork() if s.items is None else s
        r = self.parse_ty(s2, ty)
        if isinstance(r, E) and r.n == 'Ok' and s2.more():
            return diag('unexpected token')
        return r

    def parse_ty(self, s, ty):
        t = ty.replace(' ', '')
        if t.startswith('Option<') and t.endswith('>') and s.peek()[0] == 'eof':
            return ok(NONE)
        n = t.split('<')[0].split('::')[-1] if not t.startswith('Token![') else t
        s.feed()
        x = s.peek()
        kw = self.kw(t)
        if kw is not None:
            if self.is_tok(x, kw):
                s.next()
                return ok(O('token', kw, span=SPAN))
            return diag('expected `%s`' % kw)
        if n == 'Ident':
            if x[0] == 'id' and x[1] not in KEYWORDS:
                s.next()
                return ok(ident(x[1]))
            return diag('expected identifier')
        if n == 'Type':
            if x[0] == 'ty':
                s.next()
                return ok(x[1])
            return diag('expected type')
        if n == 'LitStr':
            if x[0] == 'lit':
                s.next()
                return ok(O('LitStr', x[1]))
            return diag('expected string literal')
        if n == 'ReturnType':
            if self.is_tok(x, '->'):
                s.next()
                y = s.next()
                if y[0] != 'ty':
                    return diag('expected type')
                return ok(E('Type', [O('token', '->'), y[1]]))
            return ok(E('Default'))
        if n == 'Generics':
            if x[0] == 'gen':
                s.next()
                return ok(O('Generics', x[1], params=L(['x'])))
            return ok(O('Generics', '', params=L([])))
        if n == 'Block':
            if x[0] == 'g' and x[1] == '{':
                s.next()
                return ok(O('Block', '{ body }'))
            return diag('expected curly braces')
        if n == 'TypeTraitObject':
            if x[0] == 'dyn':
                s.next()
                return ok(S('TypeTraitObject', {'bounds': L(x[1], 'punct'), 'dyn_token': NONE}))
            return diag('expected identifier')
        if n == 'Path':
            return self.stream_fn(s, 'parse_mod_style')
        if n == 'FnArg':
            if x[0] == 'arg':
                s.next()
                return ok(x[1])
            return diag('expected argument')
        if n == 'MacroArgs':
            if x[0] == 'names':
                s.next()
                return ok(S('MacroArgs', {0: L([O('MacroArg', y) for y in x[1]])}))
            return ok(S('MacroArgs', {0: L([])}))
        c = [f for f in self.src.fns.get('parse', []) if (f['impl'] or '').split('<')[0].split('::')[-1].strip() == n and (f.get('tr') or '').endswith('Parse')]
        if len(c) == 1:
            return self.call_fn(c[0], [s])
        raise Undec('parse of ' + ty)

    def kw(self, t):
        t = t.replace(' ', '')
        if t.startswith('Token![') and t.endswith(']'):
            return t[7:-1]
        if t.startswith('T![') and t.endswith(']'):
            return t[3:-1]
        if t.startswith('kw::'):
            return t[4:]
        m = {'syn::token::Brace': '{', 'token::Brace': '{', 'syn::token::Paren': '(', 'token::Paren': '(', 'syn::token::Bracket': '[',
             'token::Bracket': '[', 'syn::token::Fn': 'fn', 'token::Fn': 'fn', 'syn::token::Eq': '=', 'token::Eq': '=', 'syn::token::Semi': ';', 'token::Semi': ';',
             'syn::token::RArrow': '->', 'syn::token::Comma': ',', 'token::Comma': ',', 'token::RArrow': '->', 'syn::token::Enum': 'enum'}
        return m.get(t)

    def is_tok(self, x, kw):
        if x[0] == 'id':
            return x[1] == kw
        if x[0] == 'p':
            return x[1] == kw
        if x[0] == 'g':
            return x[1] == kw
        if x[0] == 'attr':
            return kw == '#'
        return False

    def stream_fn(self, s, n):
        s.feed()
        if n == 'parse_mod_style':
            x = s.peek()
            if x[0] == 'path':
                s.next()
                return ok(path(x[1]))
            if x[0] == 'id' and x[1] not in KEYWORDS:
                s.next()
                return ok(path(x[1]))
            return diag('expected path')
        if n == 'parse_outer':
            r = []
            while s.peek()[0] == 'attr':
                r.append(copy.deepcopy(s.next()[1]))
            return ok(L(r))
        if n == 'parse_terminated':
            r = []
            while s.more():
                x = s.next()
                if x[0] != 'arg':
                    return diag('expected argument')
                r.append(copy.deepcopy(x[1]))
            return ok(L(r, 'punct'))
        if n == 'parse_within':
            return ok(L([]))
        raise Undec('stream function ' + n)

    # ---- macros
    def x_Macro(self, e, env):
        n = e['name'].replace(' ', '').split('::')[-1]
        if n in ('debug', 'trace', 'info', 'warn', 'error', 'println', 'eprintln', 'print'):
            return UNIT
        if n in ('assert', 'debug_assert'):
            if not self.cond(e['args'][0], env):
                raise Panic('assertion failed')
            return UNIT
        if n in ('assert_eq', 'debug_assert_eq', 'assert_ne', 'debug_assert_ne'):
            r = self.equal(strip(self.ev(e['args'][0], env)), strip(self.ev(e['args'][1], env)))
            if r == n.endswith('ne'):
                raise Panic('assertion failed')
            return UNIT
        if n in ('unimplemented', 'unreachable', 'panic', 'todo'):
            raise Panic(n + '!')
        if n in ('format', 'concat', 'stringify'):
            out = []
            for a in e.get('args') or []:
                try:
                    v = strip(self.ev(a, env))
                    out.append(v if isinstance(v, str) else repr(v)[:60])
                except (Undec, _Ret):
                    out.append('…')
            return O('text', ' '.join(out))
        if n == 'vec':
            return L([self.ev(a, env) for a in e.get('args') or []])
        if n in ('braced', 'parenthesized', 'bracketed'):
            t = rast.toks_text(e['toks']).split()
            if len(t) < 3 or t[1] != 'in':
                raise Undec('braced!')
            name, sname = t[0], t[-1]
            fr = self.lookup(sname, env)
            s = strip(fr[sname]) if fr else None
            if not isinstance(s, Stream):
                raise Undec('braced! in ' + sname)
            d = {'braced': '{', 'parenthesized': '(', 'bracketed': '['}[n]
            s.feed()
            x = s.peek()
            if x[0] == 'g' and x[1] == d:
                s.next()
                fr2 = self.lookup(name, env)
                (fr2 or env[-1])[name] = x[2]
                return UNIT
            raise _Ret(diag('expected group'))
        if n == 'matches':
            v = self.ev(e['e'], env)
            fr = {}
            if not self.bind(e['pat'], v, env + [fr]):
                return False
            return self.cond(e['guard'], env + [fr]) if e.get('guard') is not None else True
        if n in ('parse_quote', 'quote', 'parse_type', 'quote_spanned', 'parse_quote_spanned'):
            t = rast.toks_text(e['toks'])
            ty = (self.expected() or '').replace(' ', '')
            if ty.endswith('ItemFn'):
                return O('ItemFn', t, sig=S('Signature', {'inputs': L([], 'punct'), 'output': E('Default'), 'ident': ident('constructor')}))
            if ty == 'Token![::]' or t.strip() == '::':
                return S('Token', {'spans': L([SPAN, SPAN])})
            import re

            def sub(mm):
                fr = self.lookup(mm.group(1), env)
                v = strip(fr[mm.group(1)]) if fr else None
                return self.text(v) if isinstance(v, (str, O)) else mm.group(0)
            t = re.sub(r'#\s*(\w+)', sub, t)
            if n.startswith('parse_quote') and re.fullmatch(r'[\w:\s]+', t):
                return path(t.replace(' ', ''))
            return O('quote', t)
        if n == 'bail':
            raise _Ret(diag('bail'))
        if n == 'Token':
            return O('tokenty', 'Token![' + rast.toks_text(e['toks']).replace(' ', '') + ']')
        raise Undec('macro ' + n)

    # ---- methods
    def x_MCall(self, e, env):
        m = e['m']
        r = e['recv']
        tf = e.get('tf')
        if tf:
            tf = tf.replace(' ', '')
            tf = tf[tf.index('<') + 1:tf.rindex('>')] if '<' in tf else None
        recv = self.ev(r, env)
        st = strip(recv)
        if isinstance(st, Stream):
            if m in ('peek', 'peek2', 'peek3'):
                a = e['args'][0]
                t = self.tokname(a)
                kw = self.kw(t)
                if m == 'peek':
                    st.feed()
                x = st.peek({'peek': 0, 'peek2': 1, 'peek3': 2}[m])
                if kw is None and t.split('::')[-1] == 'Ident':
                    return x[0] == 'id' and x[1] not in KEYWORDS
                if kw is None and t.split('::')[-1] == 'LitStr':
                    return x[0] == 'lit'
                if kw is None:
                    raise Undec('peek of ' + t)
                return self.is_tok(x, kw)
            if m == 'parse':
                ty = tf or self.expected()
                if ty in (None, '_'):
                    raise Undec('parse of an unknown type')
                return self.parse_ty(st, ty)
            if m == 'call':
                a = e['args'][0]
                if a['k'] == 'Path':
                    segs = a['p'].replace(' ', '').split('::')
                    fn = self.find_fn(segs) if len(segs) == 1 or segs[-2] not in ('Path', 'Attribute', 'Ident', 'Block') else None
                    if fn:
                        return self.call_fn(fn, [st])
                    if segs[-1] == 'parse_any':
                        st.feed()
                        x = st.peek()
                        if x[0] == 'id':
                            st.next()
                            return ok(ident(x[1]))
                        return diag('expected identifier')
                    if segs[-1] == 'parse':
                        return self.parse_ty(st, '::'.join(segs[:-1]))
                    return self.stream_fn(st, segs[-1])
                return self.apply(self.ev(a, env), [st])
            if m == 'parse_terminated':
                return self.stream_fn(st, m)
            if m == 'fork':
                st.feed()
                return st.fork()
            if m == 'lookahead1':
                st.feed()
                return S('Lookahead1', {'s': st})
            if m == 'is_empty':
                if st.hook and st.i >= len(st.t):
                    st.hook(self, st)
                st.feed()
                return not st.more()
            if m == 'error':
                return O('diagnostic', str(strip(self.ev(e['args'][0], env))))
            if m == 'span':
                return SPAN
            if m in ('clone', 'into', 'cursor'):
                return st.fork() if st.items is None else st
            raise Undec('stream method ' + m)
        if isinstance(st, S) and st.n == 'Lookahead1':
            if m == 'peek':
                t = self.tokname(e['args'][0])
                kw = self.kw(t)
                x = st.f['s'].peek()
                if kw is None and t.split('::')[-1] == 'Ident':
                    return x[0] == 'id' and x[1] not in KEYWORDS
                if kw is None:
                    raise Undec('peek of ' + t)
                return self.is_tok(x, kw)
            if m == 'error':
                return O('diagnostic', 'unexpected token')
        args = [self.ev(a, env) for a in e['args']]
        return self.method(recv, m, args, tf, e, env)

    def tokname(self, a):
        if a['k'] == 'Path':
            return a['full'].replace(' ', '')
        if a['k'] == 'Macro':
            return a['name'].replace(' ', '').split('::')[-1] + '![' + rast.toks_text(a['toks']).replace(' ', '') + ']'
        raise Undec('token argument')

    def method(self, recv, m, args, tf, e, env=None):
        st = strip(recv)
        a = [strip(x) for x in args]
        if m in self.mover:
            r = self.mover[m](self, st, args)
            if r is not NotImplemented:
                return r
        # methods of the crate
        if isinstance(st, (S, E)):
            ty = st.n if isinstance(st, S) else st.ty
            c = [f for f in self.src.fns.get(m, []) if f['impl'] and f['sig']['inputs'] and f['sig']['inputs'][0]['k'] == 'Recv']
            if isinstance(st, S):
                c = [f for f in c if f['impl'].split('<')[0].split('::')[-1].strip() == st.n]
            else:
                tys = {n for n, es in self.src.enums.items() for en in es if any(v['name'] == st.n for v in en['variants'])}
                c = [f for f in c if f['impl'].split('<')[0].split('::')[-1].strip() in tys]
                if st.n in ('Some', 'None', 'Ok', 'Err'):
                    c = []
            if len(c) == 1:
                return self.call_fn(c[0], [recv] + args)
        if m in ('clone', 'to_owned', 'cloned', 'copied'):
            return self.clone(st)
        if m in ('as_ref', 'borrow', 'as_deref', 'by_ref', 'as_slice', 'as_str', 'into', 'iter', 'into_iter', 'iter_mut', 'as_mut', 'as_deref_mut',
                 'into_boxed_str', 'as_mut_slice', 'drain', 'peekable', 'fuse', 'as_bytes', 'into_inner', 'to_vec', 'borrow_mut', 'collect', 'try_into', 'values', 'keys', 'into_token_stream', 'to_token_stream', 'as_mut_str', 'map_err'):
            r = self.passing(recv, st, m, a, args, tf)
            if r is not NotImplemented:
                return r
        if m == 'span':
            return SPAN
        if m in ('to_string', 'value', 'unraw', 'to_lowercase', 'to_lower_camel_case', 'to_snake_case', 'to_upper_camel_case'):
            return self.text(st)
        if m == 'try_into' and isinstance(st, S) and st.n == 'Signature':
            c = [f for f in self.src.fns.get('try_from', []) if (f['impl'] or '').split('::')[-1].strip() == 'FnDecl']
            if len(c) == 1:
                return self.call_fn(c[0], [st])
        if isinstance(st, E) and st.n in ('Some', 'None', 'Ok', 'Err'):
            return self.optres(recv, st, m, a, args)
        if isinstance(st, (L, range)) or (isinstance(st, tuple) and st and st[0] == 'from'):
            return self.listm(recv, st, m, a, args, tf)
        if isinstance(st, S) and st.n == 'Flags':
            if m == 'contains':
                return st.f['bits'] & a[0].f['bits'] == a[0].f['bits']
            if m == 'intersects':
                return st.f['bits'] & a[0].f['bits'] != 0
            if m == 'is_empty':
                return st.f['bits'] == 0
        if isinstance(st, S) and st.n == 'Path':
            if m in ('is_ident',):
                segs = st.f['segments'].v
                return len(segs) == 1 and segs[0].f['ident'].t == (a[0] if isinstance(a[0], str) else a[0].t)
            if m == 'get_ident':
                segs = st.f['segments'].v
                return some(segs[0].f['ident']) if len(segs) == 1 else NONE
        if isinstance(st, O) and m == 'is_ident':
            return st.t == a[0]
        if isinstance(st, str) or (isinstance(st, O) and st.kind in ('Ident', 'text', 'MacroArg', 'LitStr', 'rtext')):
            return self.strm(recv, self.text(st), m, a, args)
        if isinstance(st, bool):
            if m == 'then':
                return some(self.apply(args[0], [])) if st else NONE
            if m == 'then_some':
                return some(args[0]) if st else NONE
            if m == 'not':
                return not st
        if isinstance(st, int) and m in ('max', 'min', 'saturating_sub', 'checked_sub', 'wrapping_add', 'saturating_add', 'cmp', 'eq', 'ne'):
            if m in ('max', 'min'):
                return max(st, a[0]) if m == 'max' else min(st, a[0])
            if m == 'saturating_sub':
                return max(0, st - a[0])
            if m in ('saturating_add', 'wrapping_add'):
                return st + a[0]
            if m == 'checked_sub':
                return some(st - a[0]) if st >= a[0] else NONE
        if m in ('eq', 'ne') and len(a) == 1:
            return self.equal(st, a[0]) == (m == 'eq')
        if isinstance(st, M):
            if m in ('get', 'get_mut'):
                k = self.text(a[0]) if isinstance(a[0], (str, O)) else key(a[0])
                return some(st.v[k]) if k in st.v else NONE
            if m == 'contains_key':
                return (self.text(a[0]) if isinstance(a[0], (str, O)) else key(a[0])) in st.v
            if m == 'is_empty':
                return not st.v
            if m == 'len':
                return len(st.v)
            if m == 'insert':
                k = self.text(a[0]) if isinstance(a[0], (str, O)) else key(a[0])
                old = st.v.get(k)
                st.v[k] = a[1]
                return NONE if old is None else some(old)
        if isinstance(st, O) and st.kind == 'diagnostic':
            return st
        if isinstance(st, O) and st.kind in ('conv_map', 'ctx', 'cfg', 'field', 'opaque'):
            return O(st.kind, st.t + '.' + m)
        raise Undec('method %s of %s' % (m, repr(st)[:60]))

    def text(self, v):
        v = strip(v)
        if isinstance(v, str):
            return v
        if isinstance(v, O):
            return v.t
        if isinstance(v, S) and v.n == 'DisplayToTokens':
            v = strip(v.f[0])
            if isinstance(v, E) and v.a and isinstance(v.a[0], S) and v.a[0].n == 'Path':
                v = v.a[0]
            if isinstance(v, S) and v.n == 'Path':
                return '::'.join(x.f['ident'].t for x in v.f['segments'].v)
            return self.text(v)
        if isinstance(v, (E, S)):
            return str(key(v))
        if isinstance(v, int):
            return str(v)
        raise Undec('text of %r' % (v,))

    def clone(self, v):
        if isinstance(v, (S, L, M)):
            return copy.deepcopy(v)
        if isinstance(v, E):
            return copy.deepcopy(v)
        return v

    def passing(self, recv, st, m, a, args, tf):
        if m == 'drain' and isinstance(st, L):
            r = L(st.v)
            st.v = []
            return r
        if m == 'collect':
            if isinstance(st, (L, range)):
                vs = list(self.items_of(st))
                ty = (tf or self.expected() or '').replace(' ', '')
                if ty.startswith(('Result', 'syn::Result', 'std::result::Result')):
                    for x in vs:
                        x = strip(x)
                        if isinstance(x, E) and x.n == 'Err':
                            return x
                    return ok(L([strip(x).a[0] for x in vs]))
                if ty.startswith('Option'):
                    for x in vs:
                        if strip(x).n == 'None':
                            return NONE
                    return some(L([strip(x).a[0] for x in vs]))
                if ty in ('String',):
                    return ''.join(self.text(x) for x in vs)
                if vs and all(isinstance(strip(x), E) and strip(x).n in ('Ok', 'Err') for x in vs) and not ty:
                    raise Undec('collect of results')
                if 'Set' in ty:
                    r = []
                    for x in vs:
                        if not any(self.equal(strip(x), strip(y)) for y in r):
                            r.append(x)
                    return L(r, 'set')
                if 'Map' in ty:
                    mm = M()
                    for x in vs:
                        x = strip(x)
                        mm.v[self.text(x[0])] = x[1]
                    return mm
                return L(vs)
            return NotImplemented
        if m == 'map_err':
            if isinstance(st, E) and st.n == 'Err':
                try:
                    return err(self.apply(args[0], [st.a[0]]))
                except Undec:
                    return st
            return st
        if m in ('as_mut', 'as_ref', 'as_deref', 'as_deref_mut'):
            return recv
        if m == 'try_into':
            if isinstance(st, S) and st.n == 'Signature':
                return NotImplemented
            return ok(st)
        if m in ('iter', 'into_iter', 'iter_mut', 'by_ref', 'peekable', 'fuse'):
            if isinstance(st, L):
                if m == 'by_ref' or st.kind == 'iter':
                    return st
                if m in ('iter', 'into_iter', 'iter_mut'):
                    return L(st.v, 'iter')
                return st
            if isinstance(st, E) and st.n in ('Some', 'None'):
                return L(self.items_of(st), 'iter')
            if isinstance(st, M):
                return L([(k, v) for k, v in st.v.items()], 'iter')
            if isinstance(st, range):
                return st
        if m in ('values', 'keys') and isinstance(st, M):
            return L(st.v.values() if m == 'values' else st.v.keys(), 'iter')
        if m == 'into' and isinstance(st, O) and st.kind in ('Ident',):
            return st
        if m in ('values', 'keys'):
            return NotImplemented
        return recv

    def optres(self, recv, st, m, a, args):
        good = st.n in ('Some', 'Ok')
        opt = st.n in ('Some', 'None')
        if m in ('is_some', 'is_ok'):
            return good
        if m in ('is_none', 'is_err'):
            return not good
        if m in ('unwrap', 'expect'):
            if not good:
                raise Panic('unwrap of %s' % st.n)
            return st.a[0]
        if m in ('unwrap_err', 'expect_err'):
            if good:
                raise Panic('unwrap_err')
            return st.a[0]
        if m == 'unwrap_or':
            return st.a[0] if good else args[0]
        if m == 'unwrap_or_else':
            return st.a[0] if good else self.apply(args[0], [] if opt else [st.a[0]])
        if m == 'unwrap_or_default':
            if good:
                return st.a[0]
            raise Undec(m)
        if m == 'map':
            return E(st.n, [self.apply(args[0], [st.a[0]])]) if good else st
        if m in ('and_then',):
            return self.apply(args[0], [st.a[0]]) if good else st
        if m == 'and':
            return args[0] if good else st
        if m == 'or':
            return st if good else args[0]
        if m == 'or_else':
            return st if good else self.apply(args[0], [] if opt else [st.a[0]])
        if m == 'ok_or':
            return ok(st.a[0]) if good else err(args[0])
        if m == 'ok_or_else':
            return ok(st.a[0]) if good else err(self.apply(args[0], []))
        if m == 'ok':
            return some(st.a[0]) if good else NONE
        if m == 'err':
            return NONE if good else some(st.a[0])
        if m == 'map_or':
            return self.apply(args[1], [st.a[0]]) if good else args[0]
        if m == 'map_or_else':
            return self.apply(args[1], [st.a[0]]) if good else self.apply(args[0], [] if opt else [st.a[0]])
        if m in ('is_some_and', 'is_ok_and'):
            return bool(good and strip(self.apply(args[0], [st.a[0]])))
        if m == 'is_none_or':
            return (not good) or strip(self.apply(args[0], [st.a[0]]))
        if m == 'filter':
            return st if good and strip(self.apply(args[0], [st.a[0]])) else NONE
        if m == 'flatten':
            return strip(st.a[0]) if good else st
        if m == 'zip':
            return some((st.a[0], a[0].a[0])) if good and a[0].n == 'Some' else NONE
        if m == 'xor':
            return st if good and a[0].n == 'None' else a[0] if not good and a[0].n == 'Some' else NONE
        if m in ('take', 'replace', 'insert', 'get_or_insert', 'get_or_insert_with'):
            if isinstance(recv, Place):
                if m == 'take':
                    recv.set(NONE)
                    return st
                if m == 'replace':
                    recv.set(some(a[0]))
                    return st
                if m == 'insert':
                    recv.set(some(a[0]))
                    return a[0]
                if st.n == 'None':
                    v = a[0] if m == 'get_or_insert' else self.apply(args[0], [])
                    recv.set(some(v))
                return strip(recv).a[0]
            raise Undec('Option::' + m)
        if m == 'transpose':
            x = strip(st.a[0]) if good else None
            if st.n == 'None':
                return ok(NONE)
            if st.n == 'Some':
                return ok(some(x.a[0])) if x.n == 'Ok' else x
        raise Undec('method ' + m)

    def listm(self, recv, st, m, a, args, tf):
        vs = self.items_of(st) if not isinstance(st, tuple) else None
        ap = lambda f, *x: strip(self.apply(f, list(x)))
        if m in ('any', 'all'):
            for x in vs:
                r = ap(args[0], x)
                if r == (m == 'any'):
                    return m == 'any'
            return m == 'all'
        if m in ('map', 'filter_map', 'flat_map', 'map_while'):
            out = []
            for x in vs:
                r = self.apply(args[0], [x])
                if m == 'map':
                    out.append(r)
                elif m == 'flat_map':
                    out.extend(self.items_of(r))
                else:
                    s = strip(r)
                    if s.n == 'Some':
                        out.append(s.a[0])
                    elif m == 'map_while':
                        break
            return L(out, 'iter')
        if m in ('filter', 'take_while', 'skip_while'):
            out = []
            for i, x in enumerate(vs):
                r = ap(args[0], x)
                if m == 'filter':
                    if r:
                        out.append(x)
                elif m == 'take_while':
                    if not r:
                        break
                    out.append(x)
                else:
                    if not r:
                        out = vs[i:]
                        break
            return L(out, 'iter')
        if m in ('find', 'position', 'find_map', 'rposition', 'rfind'):
            seq = list(enumerate(vs))
            if m.startswith('r'):
                seq.reverse()
            for i, x in seq:
                r = ap(args[0], x)
                if m == 'find_map':
                    if r.n == 'Some':
                        return r
                elif r:
                    return some(i if 'position' in m else x)
            return NONE
        if m == 'for_each':
            for x in vs:
                ap(args[0], x)
            return UNIT
        if m in ('try_for_each',):
            for x in vs:
                r = ap(args[0], x)
                if r.n in ('Err', 'None'):
                    return r
            return ok(UNIT)
        if m == 'try_fold':
            acc = args[0]
            for x in vs:
                r = ap(args[1], acc, x)
                if r.n in ('Err', 'None'):
                    return r
                acc = r.a[0]
            return ok(acc)
        if m == 'fold':
            acc = args[0]
            for x in vs:
                acc = self.apply(args[1], [acc, x])
            return acc
        if m == 'enumerate':
            return L([(i, x) for i, x in enumerate(vs)], 'iter')
        if m == 'rev':
            return L(vs[::-1], 'iter')
        if m == 'skip':
            return L(vs[a[0]:], 'iter')
        if m == 'take' and isinstance(a[0], int):
            return L(vs[:a[0]], 'iter')
        if m == 'chain':
            return L(vs + self.items_of(a[0]), 'iter')
        if m == 'zip':
            o = self.items_of(a[0]) if not isinstance(a[0], tuple) else list(range(a[0][1], a[0][1] + len(vs)))
            return L(list(zip(vs, o)), 'iter')
        if m in ('count', 'len'):
            return len(vs)
        if m == 'is_empty':
            return not vs
        if m in ('first', 'last', 'get', 'first_mut', 'last_mut', 'get_mut', 'nth', 'peek'):
            i = 0 if m in ('first', 'first_mut', 'peek') else -1 if m in ('last', 'last_mut') else a[0]
            if isinstance(i, int):
                if (i == -1 and vs) or (i >= 0 and i < len(vs)):
                    x = vs[i]
                    return some(x)
                return NONE
            if st.kind == 'set':
                for x in vs:
                    if self.equal(strip(x), a[0]):
                        return some(x)
                return NONE
        if m in ('next', 'next_back'):
            if not st.v:
                return NONE
            return some(st.v.pop(0 if m == 'next' else -1))
        if m == 'nth':
            return NONE
        if m in ('split_first', 'split_last'):
            if not vs:
                return NONE
            return some((vs[0], L(vs[1:]))) if m == 'split_first' else some((vs[-1], L(vs[:-1])))
        if m in ('push', 'push_back'):
            st.v.append(a[0])
            return UNIT
        if m == 'push_value':
            st.v.append(a[0])
            return UNIT
        if m in ('pop', 'pop_back'):
            return some(st.v.pop()) if st.v else NONE
        if m == 'insert':
            if len(a) == 1:
                if any(self.equal(strip(x), a[0]) for x in vs):
                    return False
                st.v.append(a[0])
                return True
            st.v.insert(a[0], a[1])
            return UNIT
        if m in ('remove', 'swap_remove', 'take'):
            if st.kind == 'set':
                for i, x in enumerate(vs):
                    if self.equal(strip(x), a[0]):
                        st.v.pop(i)
                        return True
                return False
            if a[0] >= len(st.v):
                raise Panic('remove out of bounds')
            return st.v.pop(a[0])
        if m == 'contains':
            return any(self.equal(strip(x), a[0]) for x in vs)
        if m in ('extend', 'append', 'extend_from_slice'):
            st.v.extend(self.items_of(a[0]))
            return UNIT
        if m == 'retain':
            st.v = [x for x in st.v if ap(args[0], x)]
            return UNIT
        if m == 'clear':
            st.v = []
            return UNIT
        if m in ('reserve', 'shrink_to_fit', 'sort', 'sort_unstable', 'dedup', 'truncate'):
            if m == 'truncate':
                st.v = st.v[:a[0]]
            return UNIT
        if m == 'join' or m == 'concat':
            return O('text', ' '.join(self.text(x) for x in vs))
        if m in ('partition',):
            t, f = [], []
            for x in vs:
                (t if ap(args[0], x) else f).append(x)
            return (L(t), L(f))
        if m in ('max', 'min', 'sum') and all(isinstance(strip(x), int) for x in vs):
            if m == 'sum':
                return sum(strip(x) for x in vs)
            return some({'max': max, 'min': min}[m](strip(x) for x in vs)) if vs else NONE
        if m == 'pairs':
            return L([S('Pair', {'value': x}) for x in vs], 'iter')
        if m in ('trailing_punct', 'empty_or_trailing'):
            return not vs
        if m == 'inspect':
            return st
        if m == 'split_at':
            return (L(vs[:a[0]]), L(vs[a[0]:]))
        if m in ('split_whitespace',):
            return st
        raise Undec('method %s of a list' % m)

    def strm(self, recv, s, m, a, args):
        t = lambda x: x if isinstance(x, str) else self.text(x)
        if m == 'is_empty':
            return not s
        if m == 'len':
            return len(s)
        if m in ('starts_with', 'ends_with', 'contains', 'eq_ignore_ascii_case', 'eq', 'ne') and isinstance(a[0], (str, O)):
            x = t(a[0])
            return {'starts_with': s.startswith(x), 'ends_with': s.endswith(x), 'contains': x in s, 'eq_ignore_ascii_case': s.lower() == x.lower(), 'eq': s == x, 'ne': s != x}[m]
        if m in ('push_str', 'push', 'write_str'):
            if isinstance(recv, Place):
                recv.set(s + t(a[0]))
                return UNIT
            if isinstance(recv, str):
                return self._push(recv, args)
        if m in ('trim', 'trim_start', 'trim_end', 'as_bytes', 'to_ascii_lowercase'):
            return s.strip() if m == 'trim' else s
        if m in ('strip_prefix', 'strip_suffix'):
            x = t(a[0])
            if m == 'strip_prefix':
                return some(s[len(x):]) if s.startswith(x) else NONE
            return some(s[:-len(x)]) if s.endswith(x) else NONE
        if m == 'chars':
            return L(list(s), 'iter')
        if m == 'split':
            return L(s.split(t(a[0])), 'iter')
        if m in ('is_ident',):
            return s == t(a[0])
        if m in ('set_span',):
            return UNIT
        if m in ('replace',):
            return s.replace(t(a[0]), t(a[1]))
        raise Undec('method %s of a string' % m)

    def _push(self, s, args):
        raise Undec('push_str on a value')


# `x.push_str(..)` where x is a local variable: the receiver is evaluated to a plain string, so keep its place
_old = Interp.x_MCall


def _x_MCall(self, e, env):
    r = e['recv']
    if e['m'] in ('push_str', 'push', 'write_str', 'take', 'replace', 'insert', 'get_or_insert', 'get_or_insert_with', 'clear') and r['k'] == 'Path':
        n = r['p'].strip()
        fr = self.lookup(n, env)
        if fr is not None and not isinstance(fr[n], Place) and isinstance(fr[n], (str, E)):
            pl = Place(fr, n)
            return self.method(pl, e['m'], [self.ev(a, env) for a in e['args']], None, e, env)
    return _old(self, e, env)


Interp.x_MCall = _x_MCall
