"""Abstract evaluation of the functions of the generator that compose code.

The domain is that of text templates: literal text, holes named by the expression that fills them, alternatives under a
condition, and repetitions over a collection.  Nothing is executed and no input is assumed: parameters are symbols,
every branch is kept (an `if` yields an alternative), every loop yields a repetition of what one generic pass adds.
Branches that end in an error, a panic or unreachable!() are dropped."""
import re
from rast import Source, walk, dump_text, toks_text


class Bottom(Exception):
    pass


class Unsupported(Exception):
    pass


class Sym:
    __slots__ = ('key',)

    def __init__(self, key):
        self.key = key

    def __repr__(self):
        return '<%s>' % self.key

    def __eq__(self, o):
        return isinstance(o, Sym) and o.key == self.key

    def __hash__(self):
        return hash(self.key)


class Text:
    __slots__ = ('p',)

    def __init__(self, pieces=()):
        out = []
        for x in pieces:
            if isinstance(x, str):
                if not x:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += x
                    continue
            out.append(x)
        self.p = tuple(out)

    def __add__(self, o):
        return Text(self.p + o.p)

    def lit(self):
        if not self.p:
            return ''
        return self.p[0] if len(self.p) == 1 and isinstance(self.p[0], str) else None

    def __eq__(self, o):
        return isinstance(o, Text) and o.p == self.p

    def __hash__(self):
        return hash(self.p)

    def __repr__(self):
        return 'T%r' % (self.p,)


class Rec:
    """struct or enum value with known fields"""
    __slots__ = ('name', 'f')

    def __init__(self, name, f):
        self.name, self.f = name, dict(f)

    def __eq__(self, o):
        return isinstance(o, Rec) and (o.name, o.f) == (self.name, self.f)

    def __hash__(self):
        return hash((self.name, tuple(sorted(self.f))))

    def __repr__(self):
        return '%s%r' % (self.name, self.f)


class Slot(Rec):
    """entry of a map that counts"""
    __slots__ = ('place',)

    def __init__(self, key, place):
        Rec.__init__(self, 'Slot', {'key': key})
        self.place = place


class Lst:
    """sequence: items ('i', v) | ('a', cond, Lst, Lst) | ('r', base, depth, Lst)"""
    __slots__ = ('p',)

    def __init__(self, p=()):
        self.p = tuple(p)

    def __eq__(self, o):
        return isinstance(o, Lst) and o.p == self.p

    def __hash__(self):
        return hash(self.p)

    def __repr__(self):
        return 'L%r' % (self.p,)

    def concrete(self):
        return all(x[0] == 'i' for x in self.p)


class It:
    """lazy iterator over something opaque: one generic element"""
    __slots__ = ('base', 'depth', 'elem', 'cond')

    def __init__(self, base, depth, elem, cond=True):
        self.base, self.depth, self.elem, self.cond = base, depth, elem, cond

    def __repr__(self):
        return 'It(%s,%r)' % (self.base, self.elem)

    def __eq__(self, o):
        return isinstance(o, It) and (o.base, o.depth, o.elem, o.cond) == (self.base, self.depth, self.elem, self.cond)

    def __hash__(self):
        return hash((self.base, self.depth))


class Alt:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __eq__(self, o):
        return isinstance(o, Alt) and (o.c, o.a, o.b) == (self.c, self.a, self.b)

    def __hash__(self):
        return hash((self.c, self.a, self.b))

    def __repr__(self):
        return 'Alt(%s ? %r : %r)' % (self.c, self.a, self.b)


class Clo:
    __slots__ = ('params', 'body', 'env', 'ev')

    def __init__(self, params, body, env, ev):
        self.params, self.body, self.env, self.ev = params, body, env, ev


class FnV:
    __slots__ = ('fn',)

    def __init__(self, fn):
        self.fn = fn


class RefV:
    __slots__ = ('place',)

    def __init__(self, place):
        self.place = place

    def __eq__(self, o):
        return isinstance(o, RefV) and o.place == self.place

    def __hash__(self):
        return hash(self.place)


class _B:
    def __repr__(self):
        return 'BOT'


BOT = _B()
UNIT = Rec('()', {})


def T(s):
    return Text((s,))


def var(name, *args):
    return Rec(name, {str(i): a for i, a in enumerate(args)})


NONE = var('None')


def is_prim(c):
    return isinstance(c, str)


def mk(c, a, b):
    """alternative of two values under a condition value"""
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(c, Alt):
        return mk(c.c, mk(c.a, a, b), mk(c.b, a, b))
    if isinstance(c, Sym):
        c = c.key
    if isinstance(c, str) and c.startswith('!'):
        c, a, b = c[1:], b, a
    a, b = assume(a, c, True), assume(b, c, False)
    if a is BOT:
        return b
    if b is BOT:
        return a
    if type(a) is type(b) and a == b:
        return a
    if isinstance(a, Text) and isinstance(b, Text):
        return text_alt(c, a, b)
    if isinstance(a, Lst) and isinstance(b, Lst):
        n = 0
        while n < min(len(a.p), len(b.p)) and a.p[n] == b.p[n]:
            n += 1
        return Lst(a.p[:n] + (('a', c, Lst(a.p[n:]), Lst(b.p[n:])),))
    if isinstance(a, Rec) and isinstance(b, Rec) and a.name == b.name and a.name not in ('Some', 'Ok') and set(a.f) == set(b.f) and a.f:
        return Rec(a.name, {k: mk(c, a.f[k], b.f[k]) for k in a.f})
    return Alt(c, a, b)


def assume(v, c, val):
    """value under the assumption that condition c has value val"""
    if isinstance(v, Alt):
        if v.c == c:
            return v.a if val else v.b
        if excludes(c, val, v.c):
            return assume(v.b, c, val)
        x, y = assume(v.a, c, val), assume(v.b, c, val)
        if x is v.a and y is v.b:
            return v
        return mk(v.c, x, y)
    if isinstance(v, Sym) and v.key == c:
        return val
    return v


def excludes(c, val, d):
    """condition c being true makes d false: two different variants of one subject"""
    if not val or c[:3] != 'is(' or d[:3] != 'is(':
        return False
    s1, p1 = c[3:-1].rsplit(' ', 1)
    s2, p2 = d[3:-1].rsplit(' ', 1)
    return s1 == s2 and p1 != p2


def text_alt(c, a, b):
    if a == b:
        return a
    p, q = list(a.p), list(b.p)
    n = 0
    while n < min(len(p), len(q)) and p[n] == q[n]:
        n += 1
    head = p[:n]
    p, q = p[n:], q[n:]
    tail = []
    while p and q and p[-1] == q[-1]:
        tail.insert(0, p.pop())
        q.pop()
    if p and q and isinstance(p[0], str) and isinstance(q[0], str):
        i = 0
        while i < min(len(p[0]), len(q[0])) and p[0][i] == q[0][i]:
            i += 1
        # cut at a token border only
        while i and (p[0][i - 1].isalnum() or p[0][i - 1] in '_{'):
            i -= 1
        head.append(p[0][:i])
        p[0], q[0] = p[0][i:], q[0][i:]
    return Text(head + [('a', c, Text(p), Text(q))] + tail)


def vmap(v, f):
    """apply f below alternatives"""
    if isinstance(v, Alt):
        try:
            a = vmap(v.a, f)
        except Bottom:
            a = BOT
        try:
            b = vmap(v.b, f)
        except Bottom:
            b = BOT
        if a is BOT and b is BOT:
            raise Bottom()
        return mk(v.c, a, b)
    return f(v)


def neg(v):
    if v is True or v is False:
        return not v
    if isinstance(v, Alt):
        return mk(v.c, neg(v.a), neg(v.b))
    return mk(v, False, True)


def short(s, n=160):
    return s if len(s) <= n else s[:n // 2] + '~' + str(abs(hash_str(s)) % 10**8) + '~' + s[-n // 4:]


def hash_str(s):
    h = 7
    for ch in s:
        h = (h * 131 + ord(ch)) % (2**61 - 1)
    return h


def keyof(v):
    if isinstance(v, Sym):
        return v.key
    if isinstance(v, Text):
        l = v.lit()
        if l is not None:
            return '"%s"' % l
        if len(v.p) == 1 and v.p[0][0] == 'h':
            return v.p[0][1]
        return 'text(%s)' % ','.join(x if isinstance(x, str) else x[1] if x[0] == 'h' else piece_key(x) for x in v.p)
    if isinstance(v, bool):
        return 'true' if v else 'false'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, Rec):
        return v.name + ('(%s)' % ','.join(keyof(x) for x in v.f.values()) if v.f else '')
    if isinstance(v, Alt):
        return 'if(%s,%s,%s)' % (v.c, keyof(v.a), keyof(v.b))
    if isinstance(v, Lst):
        def item(x):
            if x[0] == 'i':
                return keyof(x[1])
            if x[0] == 'a':
                return 'when(%s,%s,%s)' % (x[1], keyof(x[2]), keyof(x[3]))
            if x[0] == 'r':
                return 'each(%s,%s,%s)' % (x[1], x[2], keyof(x[3]))
            return '..'
        k = '[%s]' % ','.join(item(x) for x in v.p)
        return k if len(k) < 2000 else '[%s]' % ','.join(keyof(x[1]) if x[0] == 'i' else '..' for x in v.p)
    if isinstance(v, It):
        return 'iter(%s)' % keyof(v.elem)
    if isinstance(v, RefV):
        return 'ref'
    if isinstance(v, (Clo, FnV)):
        return 'fn'
    return '_'


def piece_key(x):
    if x[0] == 'a':
        k = 'if(%s,%s,%s)' % (x[1], keyof(x[2]), keyof(x[3]))
        if len(k) < 1500:
            return k
    return x[0]


def to_text(v):
    if isinstance(v, Text):
        return v
    if isinstance(v, Alt):
        return mk(v.c, to_text(v.a), to_text(v.b))
    if isinstance(v, bool):
        return T('true' if v else 'false')
    if isinstance(v, int):
        return T(str(v))
    if isinstance(v, Sym):
        return Text((('h', v.key),))
    if isinstance(v, Lst):
        return lst_text(v, Text())
    if isinstance(v, It):
        return Text((('r', v.base, v.depth, guarded(v, to_text(v.elem)), Text()),))
    if isinstance(v, Rec):
        if v.name in ('Some', 'Ok') and len(v.f) == 1:
            return to_text(v.f['0'])
        if v.name == 'File':
            return v.f['buf']
        if v.name == 'None':
            return Text()
        return Text((('h', keyof(v)),))
    return Text((('h', keyof(v)),))


def guarded(it, t):
    return mk(it.cond, t, Text()) if it.cond is not True else t


def lst_text(v, sep):
    out = []
    for n, x in enumerate(v.p):
        if n and sep.p:
            out.append(('sep', sep))
        if x[0] == 'i':
            out.extend(to_text(x[1]).p)
        elif x[0] == 'a':
            out.append(('a', x[1], lst_text(x[2], sep), lst_text(x[3], sep)))
        else:
            out.append(('r', x[1], x[2], lst_text(x[3], sep), sep))
    return Text(out)


SAME = set('''to_string clone as_str into as_ref as_mut borrow to_owned display as_slice to_token_stream into_token_stream
 as_bytes as_deref cloned copied by_ref borrow_mut deref deref_mut to_vec into_boxed_str as_mut_slice typename into_owned
 to_display as_token_stream normalized_name_ to_type_without_lifetimes_ flush peekable rev_ fuse'''.split())
UNWRAP = set('unwrap expect'.split())
MUTATE = set('''reverse sort sort_by sort_by_key sort_by_cached_key sort_unstable sort_unstable_by sort_unstable_by_key retain retain_mut dedup dedup_by dedup_by_key
 truncate swap remove swap_remove split_off rotate_left rotate_right pop'''.split())


class Eval:
    def __init__(self, src, opaque=(), inline_files=None, depth=14, overrides=None):
        self.src = src
        self.opaque = set(opaque)
        self.inline_files = inline_files    # predicate on file, or None for all
        self.maxdepth = depth
        self.overrides = overrides or {}
        self.store = {}
        self.counted = set()
        self.ncell = 0
        self.loopdepth = 0
        self.marks = {}
        self.fnstack = []
        self.files_used = set()
        self.fns_used = set()
        self.unknown = []
        self.strcells = set()

    # ------------------------------------------------------------ cells
    def new(self, v):
        self.ncell += 1
        c = ('c', self.ncell)
        self.store[c] = v
        return c

    def get(self, pl):
        if pl[0] == 'c':
            v = self.store[pl]
            if isinstance(v, RefV):
                return self.get(v.place)
            return v
        if pl[0] == 'fld':
            return self.field(self.get(pl[1]), pl[2])
        if pl[0] == 's':
            return self.store.get(pl, Sym(pl[1]))
        raise Unsupported('place')

    def set(self, pl, v):
        if pl[0] == 'c':
            o = self.store.get(pl)
            if isinstance(o, RefV):
                return self.set(o.place, v)
            self.store[pl] = v
        elif pl[0] == 's':
            self.store[pl] = v
        elif pl[0] == 'fld':
            b = self.get(pl[1])
            if isinstance(b, Rec):
                f = dict(b.f)
                f[pl[2]] = v
                self.set(pl[1], Rec(b.name, f))
            elif isinstance(b, Sym):
                self.store[('s', b.key + '.' + pl[2])] = v
            elif isinstance(b, Alt):
                pass
        else:
            raise Unsupported('place')

    def place(self, e, env):
        """place denoted by an expression, or None"""
        k = e['k']
        if k == 'Path':
            c = env.get(e['p'])
            return c
        if k in ('Ref', 'Un') and (k == 'Ref' or e['op'] == '*'):
            return self.place(e['e'], env)
        if k == 'Field':
            b = self.place(e['base'], env)
            if b is None:
                v = self.ev(e['base'], env)
                if isinstance(v, Sym):
                    return ('s', v.key + '.' + e['f'])
                return None
            v = self.get(b)
            if isinstance(v, Sym):
                return ('s', v.key + '.' + e['f'])
            return ('fld', b, e['f'])
        if k == 'MCall' and e['m'] in ('as_mut', 'borrow_mut', 'by_ref', 'as_ref'):
            return self.place(e['recv'], env)
        return None

    # ------------------------------------------------------------ state merge
    def branch(self, c, fa, fb):
        """run two continuations on copies of the store and merge under condition value c"""
        if c is True:
            return fa()
        if c is False:
            return fb()
        if isinstance(c, Alt):
            return self.branch(Sym(c.c), lambda: self.branch(c.a, fa, fb), lambda: self.branch(c.b, fa, fb))
        c = c.key if isinstance(c, Sym) else c
        s0 = dict(self.store)
        p0 = self.pend
        self.pend = []
        self.assumed.append((c, True))
        try:
            a = fa()
        except Bottom:
            a = BOT
        self.assumed.pop()
        sa, pa = self.store, self.pend
        self.store = dict(s0)
        self.pend = []
        self.assumed.append((c, False))
        try:
            b = fb()
        except Bottom:
            b = BOT
        self.assumed.pop()
        sb, pb = self.store, self.pend
        self.pend = p0 + [(k, mk(c, x, False), s, v) for k, x, s, v in pa] + [(k, mk(c, False, x), s, v) for k, x, s, v in pb]
        if a is BOT and b is BOT:
            raise Bottom()
        if a is BOT:
            self.store = sb
            return b
        if b is BOT:
            self.store = sa
            return a
        self.store = self.merge(c, sa, sb, s0)
        return mk(c, a, b)

    def merge(self, c, sa, sb, s0=None):
        out = {}
        for k in list(sa) + [x for x in sb if x not in sa]:
            if k in sa and k in sb:
                x, y = sa[k], sb[k]
            elif k[0] == 's':
                d = Lst() if isinstance(sa.get(k, sb.get(k)), Lst) else Text() if isinstance(sa.get(k, sb.get(k)), Text) else Sym(k[1])
                x, y = sa.get(k, d), sb.get(k, d)
            else:
                out[k] = sa.get(k, sb.get(k))
                continue
            out[k] = x if x is y else mk(c, x, y)
        return out

    def known(self, v):
        """apply the assumptions of the enclosing branches"""
        for c, val in self.assumed:
            v = assume(v, c, val) if isinstance(v, (Alt, Sym)) and not (isinstance(v, Sym) and v.key != c) else v
        return v

    def cond(self, v):
        if isinstance(v, Sym):
            for c, val in self.assumed:
                if v.key == c:
                    return val
                if excludes(c, val, v.key):
                    return False
            return v
        if isinstance(v, Alt):
            for c, val in self.assumed:
                if v.c == c:
                    return self.cond(v.a if val else v.b)
                if excludes(c, val, v.c):
                    return self.cond(v.b)
            return mk(v.c, self.cond(v.a), self.cond(v.b))
        if isinstance(v, bool):
            return v
        return Sym('cond(%s)' % keyof(v))

    # ------------------------------------------------------------ functions
    def call_fn(self, fn, args, selfv=None):
        if len(self.fnstack) > self.maxdepth or any(f is fn for f in self.fnstack):
            return None
        if fn.get('b') is None:
            return None
        env = {}
        ins = fn['sig']['inputs']
        vals = list(args)
        if ins and ins[0]['k'] == 'Recv':
            env['self'] = self.new(selfv if selfv is not None else vals.pop(0))
            ins = ins[1:]
        if len(ins) != len(vals):
            return None
        self.fns_used.add((fn['file'], fn['name']))
        for i, v in zip(ins, vals):
            self.bind(i['pat'], v, env)
        self.fnstack.append(fn)
        pend, self.pend = getattr(self, 'pend', []), []
        try:
            try:
                r = self.block(fn['b'], env)
            except Bottom:
                r = BOT
            r = self.settle('ret', r)
            if r is BOT:
                raise Bottom()
            return r
        finally:
            self.fnstack.pop()
            self.pend = pend

    def settle(self, kind, r):
        """fold the pending exits of this kind into the result"""
        rest = [p for p in self.pend if p[0] != kind]
        for k, c, s, v in reversed([p for p in self.pend if p[0] == kind]):
            if r is BOT:
                r, self.store = v, s
            else:
                self.store = self.merge_c(c, s, self.store)
                r = mk(c, v, r)
        self.pend = rest
        return r

    def merge_c(self, c, a, b):
        if c is True:
            return a
        if c is False:
            return b
        if isinstance(c, Alt):
            return self.merge(c.c, self.merge_c(c.a, a, b), self.merge_c(c.b, a, b))
        return self.merge(c.key if isinstance(c, Sym) else c, a, b)

    def run(self, fn, **args):
        """evaluates fn with symbols for all parameters not given"""
        self.store, self.pend, self.assumed, self.loopdepth = {}, [], [], 0
        vals, selfv = [], None
        for i in fn['sig']['inputs']:
            if i['k'] == 'Recv':
                selfv = args.get('self', Sym('self'))
                continue
            n = i['pat'].get('n', '_')
            vals.append(args.get(n, Sym(n)))
        try:
            r = self.call_fn(fn, vals, selfv)
        except Bottom:
            r = BOT
        return r

    # ------------------------------------------------------------ patterns
    def bind(self, p, v, env):
        """binds irrefutably"""
        k = p['k']
        if k == 'PIdent':
            env[p['n']] = self.new(v)
        elif k == 'PType':
            if isinstance(v, Sym) and p['p'].get('m') and str(p.get('ty')).strip() in ('String', 'std :: string :: String'):
                v = to_text(v)
            self.bind(p['p'], v, env)
        elif k == 'PTuple' or k == 'PSlice':
            for i, q in enumerate(p['es']):
                if q['k'] == 'PRest':
                    break
                self.bind(q, self.field(v, str(i)), env)
        elif k in ('PTS', 'PStruct'):
            self.bindvar(p, v, env)
        elif k in ('PWild', 'PRest'):
            pass

    def bindvar(self, p, v, env):
        name = p['p'].split('::')[-1]
        subs = [(str(i), q) for i, q in enumerate(p['es']) if q['k'] != 'PRest'] if p['k'] == 'PTS' else [(f, q) for f, q in p['fields']]
        for f, q in subs:
            self.bind(q, vmap(v, lambda x: self.payload(x, name, f)), env)

    def payload(self, v, name, f):
        if isinstance(v, Rec):
            if v.name == name and f in v.f:
                return v.f[f]
            if v.name in ('Some', 'None', 'Ok', 'Err') or name in ('Some', 'Ok', 'None', 'Err'):
                raise Bottom()
            return v.f.get(f, Sym(keyof(v) + '.' + f))
        if isinstance(v, Sym):
            if name in ('Some', 'Ok'):
                return Sym(v.key + '?')
            return Sym('%s~%s.%s' % (v.key, name, f))
        return Sym('%s~%s.%s' % (keyof(v), name, f))

    def test(self, p, v, env=None):
        """condition value under which v matches p"""
        if isinstance(v, Alt):
            return mk(v.c, self.test(p, v.a), self.test(p, v.b))
        if v is BOT:
            return False
        k = p['k']
        if k in ('PWild', 'PRest'):
            return True
        if k == 'PType':
            return self.test(p['p'], v)
        if k == 'PIdent':
            if p.get('sub'):
                return self.test(p['sub'], v)
            if p['n'][0].isupper():
                return self.variant(v, p['n'], [])
            return True
        if k == 'PPath':
            n = p['p'].split('::')[-1]
            if n.isupper() and n in self.src.consts:
                return self.equal(v, self.const(n))
            return self.variant(v, n, [])
        if k in ('PTS', 'PStruct'):
            n = p['p'].split('::')[-1]
            c = self.variant(v, n, [])
            subs = [(str(i), q) for i, q in enumerate(p['es']) if q['k'] != 'PRest'] if k == 'PTS' else [(f, q) for f, q in p['fields']]
            for f, q in subs:
                if q['k'] in ('PWild',) or q['k'] == 'PIdent' and not q['n'][0].isupper() and not q.get('sub'):
                    continue
                if c is False:
                    return False
                try:
                    pv = vmap(v, lambda x: self.payload(x, n, f))
                except Bottom:
                    return False
                c = self.conj(c, self.test(q, pv))
            return c
        if k == 'PTuple':
            c = True
            for i, q in enumerate(p['es']):
                if q['k'] == 'PRest':
                    break
                c = self.conj(c, self.test(q, self.field(v, str(i))))
            return c
        if k == 'POr':
            c = False
            for q in p['es']:
                c = self.disj(c, self.test(q, v))
            return c
        if k == 'PLit':
            return self.equal(v, self.ev(p['v'], {}))
        return Sym('is(%s %s)' % (keyof(v), k))

    def conj(self, a, b):
        if a is False or b is False:
            return False
        if a is True:
            return b
        return mk(a, b, False)

    def disj(self, a, b):
        if a is True or b is True:
            return True
        if a is False:
            return b
        return mk(a, True, b)

    def variant(self, v, n, _):
        if isinstance(v, Rec):
            return v.name == n
        if isinstance(v, Text) and n in ('Some', 'Ok'):
            return True
        if isinstance(v, (Text, Lst)) and n in ('None', 'Err'):
            return False
        if n == 'Err':
            return False
        if n == 'Ok':
            return True
        if n == 'None':
            return neg(Sym('is(%s Some)' % keyof(v)))
        if n in ('Borrowed', 'Owned'):
            return True
        return Sym('is(%s %s)' % (keyof(v), n))

    def equal(self, a, b):
        if isinstance(a, Alt):
            return mk(a.c, self.equal(a.a, b), self.equal(a.b, b))
        if isinstance(b, Alt):
            return mk(b.c, self.equal(a, b.a), self.equal(a, b.b))
        if isinstance(a, Text) and isinstance(b, Text):
            x, y = a.lit(), b.lit()
            if x is not None and y is not None:
                return x == y
            if a == b:
                return True
            for p, q in ((a, b), (b, a)):
                if p.p and len(p.p) == 1 and p.p[0][0] == 'a' and q.lit() is not None:
                    return mk(p.p[0][1], self.equal(p.p[0][2], q), self.equal(p.p[0][3], q))
        if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
            return a == b
        if isinstance(b, bool):
            a, b = b, a
        if a is True:
            return b
        if a is False:
            return neg(b)
        if isinstance(a, Rec) and isinstance(b, Rec):
            if a.name != b.name:
                return False
            if not a.f and not b.f:
                return True
            if set(a.f) == set(b.f):
                c = True
                for k in a.f:
                    c = self.conj(c, self.equal(a.f[k], b.f[k]))
                return c
        for p, q in ((a, b), (b, a)):
            if isinstance(p, Rec) and isinstance(q, Sym) and not p.f:
                return self.variant(q, p.name, [])
            if isinstance(p, Rec) and isinstance(q, Sym) and p.f and p.name != 'tuple':
                c = self.variant(q, p.name, [])
                for k in p.f:
                    c = self.conj(c, self.equal(self.payload(q, p.name, k), p.f[k]))
                return c
        x, y = sorted((keyof(a), keyof(b)))
        if x == y:
            return True
        return Sym('eq(%s, %s)' % (x, y))

    # ------------------------------------------------------------ statements
    def block(self, stmts, env):
        env = dict(env)
        last = UNIT
        for n, st in enumerate(stmts):
            k = st['k']
            last = UNIT
            if k == 'Let':
                if st['init'] is None:
                    if st['pat']['k'] in ('PIdent', 'PType'):
                        self.bind(st['pat'], BOT, env)
                    continue
                v = self.rv(st['init'], env)
                if v is BOT:
                    raise Bottom()
                if st.get('els'):
                    c = self.cond(self.test(st['pat'], v))
                    if c is not True:
                        self.branch(c, lambda: UNIT, lambda: self.ev(st['els'], env))
                    self.bind_ref(st['pat'], v, env)
                else:
                    self.bind(st['pat'], v, env)
                q = st['pat']
                if (q['k'] == 'PIdent' or q['k'] == 'PType' and q['p']['k'] == 'PIdent') and self.strish(st['init'], env):
                    self.strcells.add(env[(q['p'] if q['k'] == 'PType' else q)['n']])
            elif k == 'ExprStmt':
                v = self.ev(st['e'], env)
                if v is BOT:
                    raise Bottom()
                if not st.get('semi') or st['e']['k'] in ('Return',):
                    last = v
            elif k == 'ItemStmt':
                it = st['item']
                if it['k'] == 'Fn':
                    it.setdefault('file', self.fnstack[-1]['file'] if self.fnstack else '')
                    env[it['name']] = self.new(FnV(it))
                elif it['k'] in ('Const', 'Static'):
                    env[it['name']] = self.new(self.ev(it['e'], env))
                    if self.strish(it['e'], env):
                        self.strcells.add(env[it['name']])
        return last

    STRM = {'to_string', 'to_uppercase', 'to_lowercase', 'to_snake_case', 'join', 'replace', 'to_ascii_lowercase', 'to_ascii_uppercase', 'repeat'}

    def strish(self, e, env):
        """an expression whose value is a string, judged by its form (a string in quote! becomes a literal, an identifier does not)"""
        k = e['k']
        if k == 'Str':
            return True
        if k in ('Ref', 'Paren', 'AddrOf', 'Reference'):
            return self.strish(e['e'], env)
        if k == 'MCall':
            if e['m'] in self.STRM:
                return True
            return e['m'] in ('clone', 'as_str', 'to_owned', 'into', 'as_ref', 'trim') and self.strish(e['recv'], env)
        if k == 'Macro':
            return e['name'].split('::')[-1] == 'format'
        if k == 'Path':
            return env.get(e['p']) in self.strcells
        if k == 'Call' and e['f']['k'] == 'Path':
            c = self.src.fns.get(e['f']['p'].split('::')[-1], [])
            return len(c) == 1 and re.sub(r"[&\s]|'\w+", '', str(c[0]['sig'].get('output') or '')) in ('String', 'str')
        return False

    def bind_ref(self, p, v, env):
        """binds the variables of a refutable pattern, assuming that it matches"""
        if p['k'] == 'POr':
            return self.bind_ref(p['es'][0], v, env)
        if p['k'] == 'PIdent' and p['n'][0].isupper():
            return
        if isinstance(v, Alt):
            v = self.filter(p, v)
        if v is BOT:
            raise Bottom()
        k = p['k']
        if k == 'PIdent':
            env[p['n']] = self.new(v)
            if p.get('sub'):
                self.bind_ref(p['sub'], v, env)
        elif k == 'PType':
            self.bind_ref(p['p'], v, env)
        elif k in ('PTuple', 'PSlice'):
            for i, q in enumerate(p['es']):
                if q['k'] == 'PRest':
                    break
                self.bind_ref(q, self.field(v, str(i)), env)
        elif k in ('PTS', 'PStruct'):
            n = p['p'].split('::')[-1]
            subs = [(str(i), q) for i, q in enumerate(p['es']) if q['k'] != 'PRest'] if k == 'PTS' else [(f, q) for f, q in p['fields']]
            for f, q in subs:
                self.bind_ref(q, vmap(v, lambda x: self.payload(x, n, f)), env)

    def filter(self, p, v):
        """the alternatives of v that can match p"""
        if isinstance(v, Alt):
            a, b = self.filter(p, v.a), self.filter(p, v.b)
            if a is BOT:
                return b
            if b is BOT:
                return a
            return mk(v.c, a, b)
        return BOT if self.test(p, v) is False else v

    # ------------------------------------------------------------ expressions
    def rv(self, e, env):
        """value of an expression that may be a borrowed place"""
        if e['k'] == 'Ref' and e['mutable']:
            pl = self.place(e['e'], env)
            if pl is not None:
                return RefV(pl)
        if e['k'] == 'Path' and e['p'] in env:
            v = self.store[env[e['p']]] if env[e['p']][0] == 'c' else self.get(env[e['p']])
            if isinstance(v, RefV):
                return v
        return self.ev(e, env)

    def ev(self, e, env):
        v = getattr(self, 'e_' + e['k'], self.e_other)(e, env)
        return v

    def e_other(self, e, env):
        return Sym('expr:%s:%s' % (e['k'], e.get('l')))

    def e_Str(self, e, env):
        return T(e['v'])

    e_ByteStr = e_Char = e_CStr = e_Str

    def e_Int(self, e, env):
        return int(e['v'])

    def e_Bool(self, e, env):
        return e['v']

    def e_Path(self, e, env):
        p = e['p']
        if p in env:
            return self.get(env[p])
        last = p.split('::')[-1]
        if last in self.src.consts and last.upper() == last and last not in self.overrides:
            return self.const(last)
        if last == 'None':
            return NONE
        f = self.find_fn(p)
        if f is not None:
            return FnV(f)
        if last[:1].isupper():
            return Rec(last, {})
        return Sym(p)

    def const(self, n):
        c = self.src.consts[n]
        if len(c) != 1:
            return Sym(n)
        x = c[0]['e']
        if x.get('k') == 'Call' and len(x['args']) == 1 and x['args'][0].get('k') == 'Closure' and not x['args'][0].get('params') and re.search(r'(LazyLock|OnceCell|LazyCell|Lazy)\s*::\s*new$', x['f'].get('p', '')):
            return self.ev(x['args'][0]['body'], {})
        return self.ev(x, {})

    def e_Field(self, e, env):
        pl = self.place(e, env)
        if pl is not None and pl[0] == 's' and pl in self.store:
            return self.store[pl]
        return self.field(self.ev(e['base'], env), e['f'])

    def field(self, v, f):
        def g(v):
            if isinstance(v, Rec):
                if f in v.f:
                    return v.f[f]
                return Sym(keyof(v) + '.' + f)
            if isinstance(v, Lst) and f.isdigit() and v.concrete() and int(f) < len(v.p):
                return v.p[int(f)][1]
            if isinstance(v, Sym):
                return self.store.get(('s', v.key + '.' + f), Sym(v.key + '.' + f))
            if v is BOT:
                raise Bottom()
            return Sym(keyof(v) + '.' + f)
        return vmap(v, g)

    def e_Ref(self, e, env):
        return self.ev(e['e'], env)

    def e_Un(self, e, env):
        v = self.ev(e['e'], env)
        if e['op'] == '!':
            return neg(self.cond(v) if isinstance(v, (Sym, Alt, bool)) else Sym('cond(%s)' % keyof(v)))
        if e['op'] == '-' and isinstance(v, int):
            return -v
        return v

    INTS = {t + str(n): (t == 'i', n) for t in 'iu' for n in (8, 16, 32, 64, 128)}
    INTS.update(usize=(False, 64), isize=(True, 64))

    def e_Cast(self, e, env):
        v = self.ev(e['e'], env)
        t = (e.get('ty') or '').strip()
        if isinstance(v, int) and not isinstance(v, bool) and t in self.INTS:
            sg, n = self.INTS[t]
            v &= (1 << n) - 1
            if sg and v >> (n - 1):
                v -= 1 << n
        elif isinstance(v, Sym) and t in ('u8', 'i8', 'u16', 'i16'):
            return Sym('trunc(%s, %s)' % (t, v.key))
        return v

    def e_Bin(self, e, env):
        op = e['op']
        if op in ('&&', '||'):
            a = self.cond(self.ev(e['a'], env))
            if a is False and op == '&&':
                return False
            if a is True and op == '||':
                return True
            b = self.cond(self.ev(e['b'], env))
            return self.conj(a, b) if op == '&&' else self.disj(a, b)
        a, b = self.ev(e['a'], env), self.ev(e['b'], env)
        if op == '+=' and isinstance(a, Rec) and a.name == 'Slot' and b == 1:
            v = self.get(a.place)
            self.set(a.place, Lst((v.p if isinstance(v, Lst) else ()) + (('i', a.f['key']),)))
            self.counted.add(a.place)
            return UNIT
        if op == '==':
            return self.equal(a, b)
        if op == '!=':
            return neg(self.equal(a, b))
        if op == '+' and (isinstance(a, Text) or isinstance(b, Text)):
            return to_text(a) + to_text(b)
        if op == '+=':
            pl = self.place(e['a'], env)
            if isinstance(a, Text) and pl:
                self.set(pl, a + to_text(b))
            elif pl:
                self.set(pl, a + b if isinstance(a, int) and isinstance(b, int) else Sym('(%s + %s)' % (keyof(a), keyof(b))))
            return UNIT
        if op.endswith('=') and op[:-1] in ('-', '*', '|', '&', '/', '^'):
            pl = self.place(e['a'], env)
            if pl:
                if op in ('|=', '&=') and isinstance(a, (bool, Sym, Alt)):
                    self.set(pl, self.disj(self.cond(a), self.cond(b)) if op == '|=' else self.conj(self.cond(a), self.cond(b)))
                else:
                    self.set(pl, Sym('(%s %s %s)' % (keyof(a), op[:-1], keyof(b))))
            return UNIT
        if isinstance(a, int) and isinstance(b, int) and not isinstance(a, bool):
            try:
                return {'+': a + b, '-': a - b, '*': a * b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b, '/': a // b if b else 0, '%': a % b if b else 0}[op]
            except KeyError:
                pass
        # length comparisons with zero are emptiness tests
        for x, y, o in ((a, b, op), (b, a, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op))):
            if isinstance(x, Sym) and x.key.startswith('len(') and y == 0 and o in ('>',):
                return neg(Sym('empty(%s)' % x.key[4:-1]))
            if isinstance(x, Sym) and x.key.startswith('len(') and y == 1 and o in ('>=',):
                return neg(Sym('empty(%s)' % x.key[4:-1]))
        return Sym('(%s %s %s)' % (keyof(a), op, keyof(b)))

    def e_Assign(self, e, env):
        if e['a']['k'] == 'Tuple':
            v = self.ev(e['b'], env)
            for i, x in enumerate(e['a']['es']):
                pl = self.place(x, env)
                if pl:
                    self.set(pl, self.field(v, str(i)))
            return UNIT
        v = self.ev(e['b'], env)
        pl = self.place(e['a'], env)
        if pl:
            self.set(pl, v)
        return UNIT

    def e_Block(self, e, env):
        return self.block(e['b'], env)

    e_Unsafe = e_Block

    def condition(self, c, env):
        """(condition value, environment of the true branch)"""
        if c['k'] == 'LetCond':
            v = self.ev(c['e'], env)
            t = self.cond(self.test(c['pat'], v))
            env2 = dict(env)
            if t is not False:
                try:
                    # mutable borrow of a place
                    self.bind_ref(c['pat'], v, env2)
                except Bottom:
                    t = False
            return t, env2
        if c['k'] == 'Bin' and c['op'] == '&&':
            t, env2 = self.condition(c['a'], env)
            if t is False:
                return False, env2
            u, env3 = self.condition(c['b'], env2)
            return self.conj(t, u), env3
        return self.cond(self.ev(c, env)), dict(env)

    def e_If(self, e, env):
        c, env2 = self.condition(e['c'], env)
        return self.branch(c, lambda: self.block(e['t'], env2), lambda: self.ev(e['e'], env) if e['e'] else UNIT)

    def e_LetCond(self, e, env):
        return self.cond(self.test(e['pat'], self.ev(e['e'], env)))

    def e_Match(self, e, env):
        v = self.ev(e['e'], env)
        if v is BOT:
            raise Bottom()
        return self.arms(v, e['arms'], 0, env)

    def arms(self, v, arms, i, env):
        if i >= len(arms):
            raise Bottom()
        a = arms[i]
        c = self.cond(self.test(a['pat'], v))
        env2 = dict(env)

        def body():
            return self.ev(a['body'], env2)
        if c is False:
            return self.arms(v, arms, i + 1, env)
        try:
            self.bind_ref(a['pat'], v, env2)
        except Bottom:
            return self.arms(v, arms, i + 1, env)
        if a['guard']:
            c = self.conj(c, self.cond(self.ev(a['guard'], env2)))
        elif i == len(arms) - 1:
            return body()
        return self.branch(c, body, lambda: self.arms(v, arms, i + 1, env))

    def e_Return(self, e, env):
        v = self.ev(e['e'], env) if e['e'] else UNIT
        v = self.noerr(v)
        self.pend.append(('ret', True, dict(self.store), v))
        raise Bottom()

    def noerr(self, v):
        if isinstance(v, Rec) and v.name == 'Err':
            raise Bottom()
        return v

    def e_Break(self, e, env):
        self.pend.append(('brk', True, dict(self.store), self.ev(e['e'], env) if e['e'] else UNIT))
        raise Bottom()

    def e_Continue(self, e, env):
        self.pend.append(('cnt', True, dict(self.store), UNIT))
        raise Bottom()

    def e_Try(self, e, env):
        return self.unwrap(self.ev(e['e'], env))

    def unwrap(self, v):
        def g(v):
            if isinstance(v, Rec):
                if v.name in ('Ok', 'Some'):
                    return v.f.get('0', UNIT)
                if v.name in ('Err', 'None'):
                    raise Bottom()
            if isinstance(v, Sym):
                return Sym(v.key + '?') if not v.key.endswith('?') or True else v
            return v
        return vmap(v, g)

    def e_Tuple(self, e, env):
        if not e['es']:
            return UNIT
        return var('tuple', *[self.rv(x, env) for x in e['es']])

    def e_Array(self, e, env):
        return Lst([('i', self.ev(x, env)) for x in e['es']])

    def e_Repeat(self, e, env):
        return Sym('array')

    def e_Struct(self, e, env):
        f = {}
        if e['rest']:
            r = self.ev(e['rest'], env)
            if isinstance(r, Rec):
                f.update(r.f)
        for n, x in e['fields']:
            f[n] = self.rv(x, env)
        return Rec(e['p'].split('::')[-1], f)

    def e_Index(self, e, env):
        b, i = self.ev(e['e'], env), self.ev(e['i'], env)
        if not isinstance(i, int) and self.counted and self.place(e['e'], env) in self.counted:
            return Sym('count(%s,%s)' % (keyof(b), keyof(i)))
        if isinstance(b, Lst) and isinstance(i, int) and b.concrete() and i < len(b.p):
            return b.p[i][1]
        if isinstance(b, (Sym, Alt)):
            return vmap(b, lambda b: Sym('%s[%s]' % (keyof(b), keyof(i))))
        return Sym('%s[%s]' % (keyof(b), keyof(i)))

    def e_Range(self, e, env):
        a = self.ev(e['a'], env) if e['a'] else 0
        b = self.ev(e['b'], env) if e['b'] else Sym('end')
        if isinstance(a, int) and isinstance(b, int) and b - a < 32:
            return Lst([('i', x) for x in range(a, b + (1 if e['closed'] else 0))])
        return Sym('range(%s,%s)' % (keyof(a), keyof(b)))

    def e_Closure(self, e, env):
        return Clo(e['params'], e['body'], env, self)

    def apply(self, f, args):
        if isinstance(f, Clo):
            env = dict(f.env)
            for p, v in zip(f.params, args):
                self.bind(p, v, env)
            pend, self.pend = self.pend, []
            try:
                try:
                    r = self.ev(f.body, env)
                except Bottom:
                    r = BOT
                r = self.settle('ret', r)
            finally:
                self.pend = pend
            if r is BOT:
                raise Bottom()
            return r
        if isinstance(f, FnV):
            r = self.call_fn(f.fn, args)
            if r is not None:
                return r
            return Sym('%s(%s)' % (f.fn['name'], ','.join(keyof(a) for a in args)))
        if isinstance(f, Rec) and not f.f:
            return var(f.name, *args)
        if isinstance(f, Alt):
            return self.branch(Sym(f.c), lambda: self.apply(f.a, args), lambda: self.apply(f.b, args))
        k = keyof(f).split('::')[-1]
        if k in SAME or k in ('from', 'new') and len(args) == 1:
            return args[0]
        if k in UNWRAP:
            return self.unwrap(args[0])
        return Sym('%s(%s)' % (keyof(f), ','.join(keyof(a) for a in args)))

    # ------------------------------------------------------------ loops
    def lst_field(self, l, k):
        out = []
        for x in l.p:
            if x[0] == 'i':
                out.append(('i', self.field(x[1], k)))
            elif x[0] == 'a':
                out.append(('a', x[1], self.lst_field(x[2], k), self.lst_field(x[3], k)))
            else:
                out.append((x[0], x[1], x[2], self.lst_field(x[3], k)))
        return Lst(out)

    def iterate(self, v):
        """value -> It | concrete Lst | generic"""
        if isinstance(v, (It, Lst)):
            return v
        if isinstance(v, Rec) and v.name in ('Some',):
            return Lst([('i', v.f['0'])])
        if isinstance(v, Rec) and v.name == 'None':
            return Lst()
        if isinstance(v, Rec) and v.name == 'tuple' and not v.f:
            return Lst()
        k = keyof(v)
        return It(k, self.loopdepth, Sym('%s[%s]' % (k, '*' * (self.loopdepth + 1))))

    def e_For(self, e, env):
        v = self.ev(e['e'], env)
        if isinstance(v, Alt):
            return self.branch(Sym(v.c), lambda: self.loop_over(v.a, e, env), lambda: self.loop_over(v.b, e, env))
        return self.loop_over(v, e, env)

    def loop_over(self, v, e, env):
        if isinstance(v, Alt):
            return self.branch(Sym(v.c), lambda: self.loop_over(v.a, e, env), lambda: self.loop_over(v.b, e, env))
        v = self.iterate(v)
        if isinstance(v, Lst):
            for x in v.p:
                if x[0] == 'i':
                    self.body(e['pat'], x[1], e['b'], env)
                elif x[0] == 'a':
                    self.branch(Sym(x[1]), lambda: self.loop_over(x[2], e, env), lambda: self.loop_over(x[3], e, env))
                else:
                    self.generic(x[1], x[2], None, True, e, env, inner=x[3])
            return UNIT
        self.generic(v.base, v.depth, v.elem, v.cond, e, env)
        return UNIT

    def body(self, pat, elem, stmts, env, cond=True):
        env2 = dict(env)
        self.bind(pat, elem, env2)

        def run():
            try:
                self.block(stmts, env2)
                return UNIT
            except Bottom:
                return BOT
        r = self.branch(cond, run, lambda: UNIT)
        for kind in ('cnt', 'brk'):
            r = self.settle(kind, r)
        if r is BOT:
            raise Bottom()

    def generic(self, base, depth, elem, cond, e, env, inner=None):
        st = dict(self.store)
        n = len(self.pend)
        if not self.generic_(base, depth, elem, cond, e, env, inner, True):
            self.store = st
            del self.pend[n:]
            self.generic_(base, depth, elem, cond, e, env, inner, False)

    def generic_(self, base, depth, elem, cond, e, env, inner, induct):
        s0 = dict(self.store)
        counters = {}
        self.loopdepth += 1

        def once():
            pend, self.pend = self.pend, []
            try:
                if inner is not None:
                    self.loop_over(inner, e, env)
                else:
                    self.body(e['pat'], elem, e['b'], env, cond)
            except Bottom:
                self.store = dict(s0)
            rets = self.pend
            self.pend = pend
            return rets
        try:
            nc = self.ncell
            once()
            s1 = self.store
            carried = {}
            for k in s0:
                a, b = s0[k], s1.get(k, s0[k])
                if a is b or type(a) is type(b) and a == b:
                    continue
                if self.accum(a, b):
                    continue
                carried[k] = a
            self.store = dict(s0)
            acc = {}
            for k in s1:
                if k in carried and induct and cond is True and inner is None and type(carried[k]) is int and type(s1[k]) is int and s1[k] == carried[k] + 1:
                    # a counter: at the start of the round for an element it is the element's position
                    i = Sym('index(%s)[%s]' % (base, '*' * (depth + 1)))
                    self.store[k] = i if carried[k] == 0 else Sym('(%s + %d)' % (i.key, carried[k]))
                    counters[k] = self.store[k]
                elif k in carried:
                    self.store[k] = Sym('carried%d@%s' % (k[1] if k[0] == 'c' else 0, base))
                elif k in s0 and isinstance(s0[k], Text) and s1[k] != s0[k]:
                    self.store[k] = Text((('mark', k),))
                    acc[k] = s0[k]
                elif k in s0 and isinstance(s0[k], Lst) and s1[k] != s0[k]:
                    self.store[k] = Lst((('mark', k),))
                    acc[k] = s0[k]
                elif k in s0 and isinstance(s0[k], Rec) and s0[k].name == 'File' and s1[k] != s0[k]:
                    self.store[k] = Rec('File', dict(s0[k].f, buf=Text((('mark', k),))))
                    acc[k] = s0[k]
                elif k not in s0 and k[0] == 's' and isinstance(s1[k], (Text, Lst)):
                    self.store[k] = (Text if isinstance(s1[k], Text) else Lst)((('mark', k),))
                    acc[k] = Text() if isinstance(s1[k], Text) else Lst()
            start = dict(self.store)
            s00, s0 = s0, start
            for k, a in acc.items():
                if isinstance(a, Text):
                    self.marks.setdefault(k, []).append((base, depth, a))
            try:
                rets = once()
            finally:
                for k, a in acc.items():
                    if isinstance(a, Text):
                        self.marks[k].pop()
            s0 = s00
            s2 = self.store
        finally:
            self.loopdepth -= 1
        out = dict(s0)
        for k, v in s2.items():
            if k in acc:
                a = acc[k]
                if isinstance(a, Rec):
                    d = self.delta(v.f['buf'], k) if isinstance(v, Rec) else None
                    out[k] = Rec('File', dict(v.f, buf=a.f['buf'] + Text((('r', base, depth, d, Text()),)))) if d is not None else Sym('loop')
                elif isinstance(a, Text):
                    d = self.delta(v, k) if isinstance(v, Text) else None
                    out[k] = a + Text((('r', base, depth, d, Text()),)) if d is not None else Sym('loop%s' % (k,))
                else:
                    d = self.ldelta(v, k) if isinstance(v, Lst) else None
                    out[k] = Lst(a.p + (('r', base, depth, d),)) if d is not None else Sym('loop%s' % (k,))
            elif k in counters:
                if v != Sym('(%s + 1)' % keyof(counters[k])):
                    return False
                n = 'len(%s)' % base
                out[k] = Sym(n if carried[k] == 0 else '(%s + %d)' % (n, carried[k]))
            elif k in carried:
                out[k] = self.after(base, v, self.store_sym(k, base), carried[k])
            elif k not in out and k[0] == 's':
                out[k] = v
        self.store = out
        for kind, c, s, v in rets:
            if kind != 'ret':
                continue
            st = dict(out)
            self.pend.append(('ret', self.exists(base, c), st, v))
        return True

    def store_sym(self, k, base):
        return Sym('carried%d@%s' % (k[1] if k[0] == 'c' else 0, base))

    def exists(self, base, c):
        if c is True:
            return Sym('exists(%s, true)' % base)
        if c is False:
            return False
        return Sym('exists(%s, %s)' % (base, keyof(c)))

    def after(self, base, v, car, v0):
        if v == car:
            return v0
        if isinstance(v, Alt):
            def has(x):
                return x == car or isinstance(x, Alt) and (has(x.a) or has(x.b))
            def leaves(x, c):
                if isinstance(x, Alt):
                    yield from leaves(x.a, self.conj(c, Sym(x.c)))
                    yield from leaves(x.b, self.conj(c, neg(Sym(x.c))))
                else:
                    yield c, x
            r = v0
            for c, x in leaves(v, True):
                if x == car:
                    continue
                r = mk(self.exists(base, c), x, r)
            return r
        return mk(Sym('empty(%s)' % base), v0, v)

    def accum(self, a, b):
        if isinstance(a, Rec) and isinstance(b, Rec) and a.name == b.name == 'File':
            return self.accum(a.f['buf'], b.f['buf'])
        return isinstance(a, Text) and isinstance(b, Text) and self.prefix(a.p, b.p) or isinstance(a, Lst) and isinstance(b, Lst)

    def prefix(self, a, b):
        if not a:
            return True
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                if isinstance(y, tuple) and y[0] == 'a' and isinstance(y[2], Text) and isinstance(y[3], Text):
                    return all(self.prefix(a[i:], tuple(z.p) + tuple(b[i + 1:])) for z in (y[2], y[3]))
                break
        if len(b) < len(a):
            return False
        if tuple(b[:len(a) - 1]) != tuple(a[:-1]):
            return False
        x, y = a[-1], b[len(a) - 1]
        return x == y or isinstance(x, str) and isinstance(y, str) and y.startswith(x) or isinstance(y, tuple) and y[0] == 'a' and False

    def delta(self, v, k):
        """text added after the mark; the mark may sit in alternatives"""
        if v.p and isinstance(v.p[0], tuple) and v.p[0] == ('mark', k):
            rest = v.p[1:]
            return Text(rest)
        if v.p and isinstance(v.p[0], tuple) and v.p[0][0] == 'a':
            x, y = self.delta(v.p[0][2], k), self.delta(v.p[0][3], k)
            if x is None or y is None:
                return None
            return text_alt(v.p[0][1], x, y) + Text(v.p[1:])
        return None

    def ldelta(self, v, k):
        if v.p and v.p[0] == ('mark', k):
            return Lst(v.p[1:])
        if v.p and v.p[0][0] == 'a':
            x, y = self.ldelta(v.p[0][2], k), self.ldelta(v.p[0][3], k)
            if x is None or y is None:
                return None
            return Lst((('a', v.p[0][1], x, y),) + v.p[1:])
        return None

    def e_While(self, e, env):
        c = e['c']
        if c['k'] == 'LetCond':
            it = self.ev(c['e'], env)
            fake = dict(pat=c['pat'], b=e['b'])
            k = keyof(it)
            p = c['pat']
            if p['k'] == 'PTS' and p['p'].split('::')[-1] == 'Some':
                fake['pat'] = p['es'][0]
            self.generic('while(%s)' % k, self.loopdepth, Sym(k + '?'), True, fake, env)
            return UNIT
        self.ev(c, env)
        self.generic('while:%s' % e['l'], self.loopdepth, UNIT, True, dict(pat=dict(k='PWild'), b=e['b']), env)
        return UNIT

    def e_Loop(self, e, env):
        self.generic('loop:%s' % e['l'], self.loopdepth, UNIT, True, dict(pat=dict(k='PWild'), b=e['b']), env)
        return UNIT

    # ------------------------------------------------------------ calls
    def find_fn(self, p):
        segs = p.split('::')
        c = [f for f in self.src.fns.get(segs[-1], []) if not f['impl'] or len(segs) > 1 and ((f['impl'] or '').split('<')[0].strip() == segs[-2] or segs[-2] == 'Self')]
        if len(segs) > 1 and segs[-2][:1].isupper():
            c = [f for f in c if f['impl']]
        else:
            c = [f for f in c if not f['impl']]
        if len(c) > 1:
            if len(segs) > 1:
                m = [f for f in c if segs[-2] in re.split(r'[/.]', f['file'])]
                c = m or c
            if len(c) > 1 and self.fnstack:
                cur = self.fnstack[-1]['file']
                m = [f for f in c if f['file'] == cur] or [f for f in c if f['file'].rsplit('/', 1)[0] == cur.rsplit('/', 1)[0]]
                c = m or c
        return c[0] if len(c) == 1 else None

    def may_inline(self, f):
        return f['name'] not in self.opaque and (self.inline_files is None or self.inline_files(f['file']))

    def e_Call(self, e, env):
        fx = e['f']
        if fx['k'] == 'Path':
            p = fx['p']
            last = p.split('::')[-1]
            if p in env:
                f = self.get(env[p])
                args = [self.rv(a, env) for a in e['args']]
                return self.apply(f, args)
            args = [self.rv(a, env) for a in e['args']]
            if last in self.overrides:
                return self.overrides[last](self, [self.deref(a) for a in args])
            if last == 'Err':
                return var('Err', *[self.deref(a) for a in args])
            if p.endswith('FileWriteCache::new'):
                return Rec('File', dict(path=to_text(self.deref(args[0])), buf=Text()))
            f = self.find_fn(p)
            if f is not None and self.may_inline(f):
                r = self.call_fn(f, args)
                if r is not None:
                    return r
            if re.search(r'Map::(?:default|new|with_capacity\w*)$', p):
                return Lst()
            args = [self.deref(a) for a in args]
            two = '::'.join(p.split('::')[-2:])
            if last in ('from', 'try_from') and p.split('::')[-2:-1] and p.split('::')[-2] in self.INTS and len(args) == 1 and isinstance(args[0], Sym):
                return args[0] if last == 'from' else var('Ok', args[0])
            if last in ('from', 'try_from') and p.split('::')[-2:-1] and p.split('::')[-2] in self.INTS and len(args) == 1 and isinstance(args[0], int):
                sg, n = self.INTS[p.split('::')[-2]]
                ok = -(1 << n - 1) <= args[0] < 1 << n - 1 if sg else 0 <= args[0] < 1 << n
                return args[0] if last == 'from' else var('Ok', args[0]) if ok else var('Err', Sym('TryFromIntError'))
            if two in ('String::new', 'TokenStream::new', 'String::with_capacity', 'String::default', 'TokenStream::default'):
                return Text()
            if two in ('Vec::new', 'Vec::with_capacity', 'vec::Vec::new', 'VecDeque::new', 'SmallVec::new'):
                return Lst()
            if two == 'Default::default':
                return Text()
            if last in ('Some', 'Ok'):
                return var(last, *args)
            if last in ('from', 'Borrowed', 'Owned', 'DisplayToTokens', 'new', 'parse_str', 'parse2', 'from_str', 'identity', 'from_utf8', 'parse_ty_with_given_span_') and \
                    (p.split('::')[-2:-1] or [''])[0] in ('String', 'SmolStr', 'Cow', 'Box', 'Rc', 'Arc', 'Ident', 'Cell', 'RefCell', 'TokenStream', 'syn', 'Path', 'PathBuf', 'LitStr', 'mem', '', 'Literal', 'str') and args:
                if last in ('new', 'from') and not args:
                    return Text()
                if last in ('parse_str', 'parse2', 'from_str', 'from_utf8'):
                    return var('Ok', args[0])
                return args[0]
            if last in ('concat',):
                return args[0]
            if two == 'mem::take' or two == 'mem::replace':
                if isinstance(self.rv(e['args'][0], env), RefV):
                    pl = self.rv(e['args'][0], env).place
                    v = self.get(pl)
                    self.set(pl, args[1] if len(args) > 1 else Text() if isinstance(v, Text) else Lst() if isinstance(v, Lst) else Sym('default'))
                    return v
            if last[:1].isupper():
                return var(last, *args)
            if last in ('panic_on_syn_error', 'invalid_src_id_span_'):
                raise Bottom()
            if last == 'drop':
                return UNIT
            return Sym('%s(%s)' % (last, ', '.join(keyof(a) for a in args)))
        f = self.ev(fx, env)
        return self.apply(f, [self.rv(a, env) for a in e['args']])

    def deref(self, v):
        return self.get(v.place) if isinstance(v, RefV) else v

    def e_MCall(self, e, env):
        m = e['m']
        pl = self.place(e['recv'], env)
        v = self.get(pl) if pl is not None else self.ev(e['recv'], env)
        if v is BOT:
            raise Bottom()
        return self.method(v, m, e, env, pl)

    def mutate(self, v, m, A, env, pl):
        """an operation that reorders a list or takes elements out of it"""
        if len(v.p) <= (0 if m in ('pop', 'remove', 'swap_remove', 'retain', 'retain_mut', 'truncate', 'split_off') else 1) and v.concrete():
            return NONE if m == 'pop' else UNIT
        a = [self.ev(x, env) if x['k'] != 'Closure' else None for x in A]
        n = len(v.p)
        if v.concrete() and all(isinstance(x, int) and not isinstance(x, bool) for x in a) or m in ('retain', 'retain_mut') and v.concrete():
            l = list(v.p)
            out = UNIT
            if m == 'reverse':
                l.reverse()
            elif m == 'swap' and max(a) < n:
                l[a[0]], l[a[1]] = l[a[1]], l[a[0]]
            elif m == 'truncate':
                l = l[:a[0]]
            elif m == 'rotate_left' and a[0] <= n:
                l = l[a[0]:] + l[:a[0]]
            elif m == 'rotate_right' and a[0] <= n:
                l = l[n - a[0]:] + l[:n - a[0]]
            elif m == 'pop':
                out = var('Some', l.pop()[1])
            elif m == 'remove' and a[0] < n:
                out = l.pop(a[0])[1]
            elif m == 'swap_remove' and a[0] < n:
                out = l[a[0]][1]
                l[a[0]] = l[-1]
                l.pop()
            elif m == 'split_off' and a[0] <= n:
                out, l = Lst(l[a[0]:]), l[:a[0]]
            elif m in ('sort', 'sort_unstable') and all(isinstance(x[1], Text) and x[1].lit() is not None for x in l):
                l.sort(key=lambda x: x[1].lit())
            elif m in ('dedup',):
                l = [x for i, x in enumerate(l) if i == 0 or keyof(x[1]) != keyof(l[i - 1][1])]
            elif m in ('retain', 'retain_mut'):
                f = self.rv(A[0], env)
                l2 = []
                for x in l:
                    c = self.cond(self.apply(f, [x[1]]))
                    if c is True:
                        l2.append(x)
                    elif c is not False:
                        l2.append(('a', c.key, Lst([x]), Lst()) if isinstance(c, Sym) else ('a', keyof(c), Lst([x]), Lst()))
                l = l2
            else:
                l = None
            if l is not None:
                self.set(pl, Lst(l))
                return out
        k = '%s.%s' % (keyof(v), m)
        self.set(pl, Sym('%s(%s)' % (k, ','.join('..' if x is None else keyof(x) for x in a))))
        return Sym(k)

    def method(self, v, m, e, env, pl):
        if isinstance(v, Alt) and m not in ('push', 'push_str', 'extend', 'append', 'write_all', 'insert'):
            return self.branch(Sym(v.c), lambda: self.method(v.a, m, e, env, None), lambda: self.method(v.b, m, e, env, None))
        A = e['args']
        key = ('.' + m)
        if key in self.overrides:
            return self.overrides[key](self, [v] + [self.ev(a, env) for a in A])
        if m in ('get', 'contains_key') and isinstance(v, Lst) and v.p and len(A) == 1 and all(x[0] == 'i' and isinstance(x[1], Rec) and x[1].name == 'tuple' and
                                                                                           isinstance(x[1].f['0'], Text) and x[1].f['0'].lit() is not None for x in v.p):
            k = self.ev(A[0], env)
            k = k.lit() if isinstance(k, Text) else None
            if k is not None:
                hit = [x[1].f['1'] for x in v.p if x[1].f['0'].lit() == k]
                return bool(hit) if m == 'contains_key' else var('Some', hit[-1]) if hit else NONE
            k = self.ev(A[0], env)
            if m == 'get' and isinstance(k, Sym):
                out = NONE
                for kk, vv in {x[1].f['0'].lit(): x[1].f['1'] for x in v.p}.items():
                    out = Alt('eq("%s", %s)' % (kk, k.key), var('Some', vv), out)
                return out
        # maps that count
        if m == 'entry' and pl is not None and len(A) == 1 and isinstance(v, Lst):
            return Slot(self.ev(A[0], env), pl)
        if isinstance(v, Rec) and v.name == 'Slot':
            if m == 'or_default' or m in ('or_insert', 'or_insert_with') and (m == 'or_insert_with' or self.ev(A[0], env) == 0):
                return v
            if m == 'and_modify':
                return v
            if m == 'or_insert':
                w = self.get(v.place)
                self.set(v.place, Lst((w.p if isinstance(w, Lst) else ()) + (('i', v.f['key']),)))
                self.counted.add(v.place)
                return UNIT
        # mutation of accumulators
        if m in ('push_str', 'write_str', 'push', 'write_all', 'append_all', 'extend', 'append', 'extend_from_slice', 'append_token') and pl is not None and len(A) == 1:
            x = self.rv(A[0], env)
            xp = x.place if isinstance(x, RefV) else None
            x = self.deref(x)
            return self.push(pl, v, m, x, xp)
        if m == 'clear' and pl is not None:
            self.set(pl, Rec('File', dict(v.f, buf=Text())) if isinstance(v, Rec) and v.name == 'File' else Text() if isinstance(v, Text) else Lst() if isinstance(v, Lst) else v)
            return UNIT
        if m in ('reverse', 'sort', 'sort_by', 'sort_by_key', 'sort_unstable', 'sort_unstable_by', 'sort_unstable_by_key', 'retain', 'retain_mut', 'dedup', 'dedup_by_key', 'truncate', 'swap', 'remove', 'swap_remove', 'drain', 'split_off',
                 'rotate_left', 'rotate_right', 'pop') and pl is not None and isinstance(v, Sym):
            self.set(pl, Sym('%s.%s(%s)' % (v.key, m, ','.join(keyof(self.ev(a, env)) if a['k'] != 'Closure' else '..' for a in A))))
            return Sym('%s.%s' % (v.key, m))
        if m in MUTATE and pl is not None and isinstance(v, Lst):
            return self.mutate(v, m, A, env, pl)
        if m == 'insert' and pl is not None and isinstance(v, Lst) and len(A) == 2:
            a, b = self.ev(A[0], env), self.ev(A[1], env)
            self.set(pl, Lst(v.p + (('i', var('tuple', a, b) if isinstance(a, Text) else b),)))
            return UNIT
        if m == 'take_content' and isinstance(v, Rec) and v.name == 'File':
            if pl is not None:
                self.set(pl, Rec('File', dict(v.f, buf=Text())))
            return v.f['buf']
        if m == 'replace_content' and isinstance(v, Rec) and v.name == 'File':
            self.set(pl, Rec('File', dict(v.f, buf=to_text(self.ev(A[0], env)))))
            return UNIT
        if m == 'update_file_if_necessary' and isinstance(v, Rec) and v.name == 'File':
            fl = self.store.get(('s', '$files'), Lst())
            self.store[('s', '$files')] = Lst(fl.p + (('i', var('tuple', v.f['path'], v.f['buf'])),)) if isinstance(fl, Lst) else fl
            return var('Ok', UNIT)
        if m in SAME and not (isinstance(v, Rec) and v.name == 'File'):
            if m == 'typename' and isinstance(v, Sym):
                return Sym(v.key + '.normalized_name')
            return v
        if m in UNWRAP:
            return self.unwrap(v)
        if m in ('unwrap_or_else', 'unwrap_or', 'unwrap_or_default'):
            def alt(v):
                if isinstance(v, Rec) and v.name in ('Ok', 'Some'):
                    return v.f.get('0', UNIT)
                if isinstance(v, Rec) and v.name in ('None', 'Err'):
                    return self.default(m, A, env)
                if isinstance(v, Sym):
                    return self.branch(Sym('is(%s Some)' % v.key), lambda: Sym(v.key + '?'), lambda: self.default(m, A, env))
                return v
            return alt(v)
        if m in ('ok_or_else', 'ok_or', 'map_err', 'ok', 'context', 'with_context'):
            if isinstance(v, Rec) and v.name == 'None':
                return var('Err', Sym('error'))
            if isinstance(v, Rec) and v.name == 'Some':
                return var('Ok', *v.f.values())
            return v
        if m in ('is_some', 'is_ok'):
            return self.cond(self.variant(v, 'Some', [])) if not (isinstance(v, Rec) and v.name in ('Ok', 'Err')) else v.name == 'Ok'
        if m in ('is_none', 'is_err'):
            return neg(self.variant(v, 'Some', [])) if not (isinstance(v, Rec) and v.name in ('Ok', 'Err')) else v.name == 'Err'
        if m == 'map_or' or m == 'map_or_else':
            f = self.ev(A[1], env)
            d = lambda: self.ev(A[0], env) if m == 'map_or' else self.apply(self.ev(A[0], env), [])
            if isinstance(v, Rec) and v.name == 'Some':
                return self.apply(f, [v.f['0']])
            if isinstance(v, Rec) and v.name == 'None':
                return d()
            return self.branch(Sym('is(%s Some)' % keyof(v)), lambda: self.apply(f, [self.payload(v, 'Some', '0')]), d)
        r = self.itermethod(v, m, A, e, env)
        if r is not None:
            return r
        if m == 'replace' and len(A) == 2:
            a, b = self.ev(A[0], env), self.ev(A[1], env)
            return self.replace(v, a, b)
        if m == 'is_empty':
            if isinstance(v, Text):
                return self.text_empty(v)
            if isinstance(v, Lst):
                if not v.p:
                    return True
                if any(x[0] == 'i' for x in v.p):
                    return False
            return Sym('empty(%s)' % keyof(v))
        if m == 'len':
            if isinstance(v, Lst) and v.concrete():
                return len(v.p)
            return Sym('len(%s)' % keyof(v))
        if m == 'join' and len(A) == 1:
            sep = to_text(self.ev(A[0], env))
            if isinstance(v, Lst):
                return lst_text(v, sep)
            if isinstance(v, Sym) and 'output_dir' in v.key:
                return sep      # path of an output file: the name alone
            it = self.iterate(v)
            if isinstance(it, It):
                return Text((('r', it.base, it.depth, guarded(it, to_text(it.elem)), sep),))
        if m == 'concat' and isinstance(v, Lst):
            return lst_text(v, Text())
        if m in ('trim', 'trim_end', 'trim_start') and isinstance(v, Text):
            l = v.lit()
            return T(l.strip()) if l is not None else v
        if m in ('to_uppercase', 'to_lowercase', 'to_ascii_uppercase') and isinstance(v, Text) and v.lit() is not None:
            return T(v.lit().upper() if 'upper' in m else v.lit().lower())
        if m in ('starts_with', 'ends_with', 'contains') and isinstance(v, Text) and v.lit() is not None and len(A) == 1:
            a = self.ev(A[0], env)
            if isinstance(a, Text) and a.lit() is not None:
                return {'starts_with': v.lit().startswith, 'ends_with': v.lit().endswith, 'contains': v.lit().__contains__}[m](a.lit())
        if m == 'contains' and isinstance(v, Lst) and v.concrete() and len(A) == 1:
            a = self.ev(A[0], env)
            c = False
            for x in v.p:
                c = self.disj(c, self.equal(x[1], a))
            return c
        if m == 'not' and not A:
            return neg(self.cond(v))
        # methods of the crate
        c = [f for f in self.src.fns.get(m, []) if f['impl'] and f.get('b') is not None and f['sig']['inputs'] and f['sig']['inputs'][0]['k'] == 'Recv']
        if len(c) > 1 and isinstance(v, Rec):
            c = [f for f in c if f['impl'].split('<')[0].strip() == v.name] or c
        if len(c) == 1 and m not in self.opaque and (self.inline_files is None or self.inline_files(c[0]['file'])):
            selfv = RefV(pl) if pl is not None else v
            r = self.call_fn(c[0], [self.rv(a, env) for a in A], selfv)
            if r is not None:
                return r
        args = [self.ev(a, env) for a in A]
        return Sym('%s.%s(%s)' % (keyof(v), m, ', '.join(keyof(a) for a in args)))

    def default(self, m, A, env):
        if m == 'unwrap_or_default':
            return Text()
        d = self.ev(A[0], env)
        if m == 'unwrap_or':
            return d
        if isinstance(d, Rec) and not d.f:
            return Text()
        if isinstance(d, (Clo, FnV)):
            return self.apply(d, [Sym('err')] if isinstance(d, Clo) and d.params else [])
        if isinstance(d, Sym) and d.key.endswith('::new'):
            return Text()
        return Sym(keyof(d))

    def push(self, pl, v, m, x, xp):
        if isinstance(v, Alt):
            return self.branch(Sym(v.c), lambda: self.push(pl, v.a, m, x, xp), lambda: self.push(pl, v.b, m, x, xp))
        if isinstance(v, Rec) and v.name == 'File':
            self.set(pl, Rec('File', dict(v.f, buf=v.f['buf'] + to_text(x))))
            return var('Ok', UNIT)
        if isinstance(v, Text):
            if isinstance(x, Rec) and x.name == 'Other':
                x = Sym('?')
            self.set(pl, v + to_text(x))
            return var('Ok', UNIT) if m.startswith('write') else UNIT
        if isinstance(v, Sym):
            v = Lst() if m in ('push', 'append', 'extend') else Text()
            if isinstance(v, Text):
                self.set(pl, v + to_text(x))
                return UNIT
        if isinstance(v, Lst):
            if m == 'push':
                self.set(pl, Lst(v.p + (('i', x),)))
            else:
                if isinstance(x, Lst):
                    self.set(pl, Lst(v.p + x.p))
                elif isinstance(x, It):
                    self.set(pl, Lst(v.p + (('r', x.base, x.depth, Lst([('i', x.elem)])),)))
                elif isinstance(x, Alt):
                    def app(x):
                        return x if isinstance(x, Lst) else Lst([('i', x)])
                    self.set(pl, Lst(v.p + (('a', x.c, app(x.a), app(x.b)),)))
                elif isinstance(x, Rec) and x.name == 'Some':
                    self.set(pl, Lst(v.p + (('i', x.f['0']),)))
                elif isinstance(x, Rec) and x.name == 'None':
                    pass
                else:
                    self.set(pl, Lst(v.p + (('i', x),)))
                if m == 'append' and xp is not None:
                    self.set(xp, Lst())
            return UNIT
        return UNIT

    def text_empty(self, t, lvl=0):
        if not t.p:
            return True
        c = True
        for x in t.p:
            if isinstance(x, str):
                return False
            if x[0] == 'h':
                c = self.conj(c, Sym('empty(%s)' % x[1]))
            elif x[0] == 'a':
                c = self.conj(c, mk(x[1], self.text_empty(x[2]), self.text_empty(x[3])))
            elif x[0] == 'r':
                ie = self.text_empty(x[3])
                if ie is True:
                    continue
                c = self.conj(c, Sym('empty(%s)' % x[1]) if ie is False else neg(self.exists(x[1], neg(ie))))
            elif x[0] == 'mark':
                # what earlier rounds of the enclosing loops have added, and what was there before
                ms = self.marks.get(x[1], [])
                if lvl < len(ms):
                    base, depth, start = ms[len(ms) - 1 - lvl]
                    c = self.conj(c, neg(Sym('(index(%s)[%s] > 0)' % (base, '*' * (depth + 1)))))
                    c = self.conj(c, self.text_empty(start, lvl + 1))
        return c

    def replace(self, v, a, b):
        if isinstance(v, Text) and isinstance(a, Text) and a.lit() is not None:
            out = []
            for x in v.p:
                if isinstance(x, str):
                    parts = x.split(a.lit())
                    for i, p in enumerate(parts):
                        if i:
                            out.extend(to_text(b).p)
                        out.append(p)
                elif x[0] == 'a':
                    out.append(('a', x[1], self.replace(x[2], a, b), self.replace(x[3], a, b)))
                elif x[0] == 'h':
                    out.append(('h', 'replace(%s, %s, %s)' % (x[1], keyof(a), keyof(b))))
                elif x[0] == 'r':
                    out.append((x[0], x[1], x[2], self.replace(x[3], a, b), x[4]))
                else:
                    out.append(x)
            return Text(out)
        return Sym('replace(%s, %s, %s)' % (keyof(v), keyof(a), keyof(b)))

    def itermethod(self, v, m, A, e, env):
        opt = isinstance(v, Rec) and v.name in ('Some', 'None', 'Ok', 'Err')
        if m in ('iter', 'into_iter', 'iter_mut', 'drain', 'chars', 'lines', 'bytes', 'values', 'keys', 'char_indices', 'split'):
            if opt:
                return self.iterate(v)
            if isinstance(v, Lst) and m in ('iter', 'into_iter', 'iter_mut', 'drain'):
                if m == 'drain':
                    pass
                return v
            k = keyof(v)
            if m in ('chars', 'lines', 'bytes', 'values', 'keys', 'char_indices', 'split'):
                k = '%s.%s(%s)' % (k, m, ','.join(keyof(self.ev(a, env)) for a in A))
            d = self.loopdepth
            it = It(k, d, Sym('%s[%s]' % (k, '*' * (d + 1))))
            if m == 'char_indices':
                it.elem = var('tuple', Sym('index(%s)[%s]' % (k, '*' * (d + 1))), it.elem)
            return it
        if isinstance(v, Sym) and m in ('map', 'and_then', 'filter', 'or_else', 'or', 'flatten', 'any', 'all', 'find', 'position', 'zip', 'enumerate', 'skip', 'take', 'fold', 'filter_map', 'collect', 'last', 'next', 'nth', 'count', 'for_each', 'chain', 'find_map', 'flat_map', 'is_some_and', 'rev', 'first', 'peekable', 'max', 'sum', 'take_while', 'skip_while'):
            if m in ('map', 'and_then', 'filter', 'or_else', 'or', 'is_some_and') and not self.looks_iter(v, e):
                return self.optmethod(v, m, A, env)
            if m in ('last', 'first') and not A or m == 'next':
                return Sym('%s.%s()' % (v.key, m))
            d = self.loopdepth
            v = It(v.key, d, Sym('%s[%s]' % (v.key, '*' * (d + 1))))
        if opt and m in ('map', 'and_then', 'filter', 'or_else', 'or', 'flatten', 'is_some_and'):
            return self.optmethod(v, m, A, env)
        if isinstance(v, Text) and m in ('map', 'and_then') and A:
            return None
        if isinstance(v, Lst):
            if m in ('map',) :
                f = self.ev(A[0], env)
                return self.lmap(v, f)
            if m == 'zip' and not v.concrete() or m == 'enumerate' and not v.concrete() or m == 'skip' and not v.concrete():
                return None
            if m == 'enumerate':
                return Lst([('i', var('tuple', n, x[1])) for n, x in enumerate(v.p)])
            if m == 'skip':
                n = self.ev(A[0], env)
                return Lst(v.p[n:]) if isinstance(n, int) else v
            if m == 'zip':
                o = self.iterate(self.ev(A[0], env))
                if isinstance(o, Lst) and o.concrete():
                    return Lst([('i', var('tuple', x[1], y[1])) for x, y in zip(v.p, o.p)])
                return Lst([('i', var('tuple', x[1], self.field(o.elem, str(n)) if isinstance(o, It) else Sym('zip'))) for n, x in enumerate(v.p)])
            if m == 'unzip':
                return var('tuple', *[self.lst_field(v, k) for k in '01'])
            if m in ('collect', 'rev', 'copied', 'cloned', 'by_ref', 'peekable', 'into_boxed_slice'):
                if m == 'collect' and e.get('tf') and 'String' in e['tf']:
                    return lst_text(v, Text())
                return v if m != 'rev' or not v.concrete() else Lst(v.p[::-1])
            if m in ('any', 'all') and v.concrete():
                f = self.ev(A[0], env)
                c = m == 'all'
                for x in v.p:
                    t = self.cond(self.apply(f, [x[1]]))
                    c = self.disj(c, t) if m == 'any' else self.conj(c, t)
                return c
            if m in ('find', 'find_map', 'position') and v.concrete():
                f = self.ev(A[0], env)
                return self.lfind(v.p, 0, f, m)
            if m == 'filter' and v.concrete():
                f = self.ev(A[0], env)
                out = []
                for x in v.p:
                    c = self.cond(self.apply(f, [x[1]]))
                    if c is True:
                        out.append(x)
                    elif c is not False:
                        out.append(('a', c.key, Lst([x]), Lst()) if isinstance(c, Sym) else x)
                return Lst(out)
            if m == 'filter_map' and v.concrete():
                f = self.ev(A[0], env)
                out = []
                for x in v.p:
                    r = self.apply(f, [x[1]])
                    if isinstance(r, Rec) and r.name == 'Some':
                        out.append(('i', r.f['0']))
                    elif isinstance(r, Alt):
                        g = lambda y: Lst([('i', y.f['0'])]) if isinstance(y, Rec) and y.name == 'Some' else Lst()
                        out.append(('a', r.c, g(r.a), g(r.b)))
                return Lst(out)
            if m == 'fold' and v.concrete():
                acc = self.ev(A[0], env)
                f = self.ev(A[1], env)
                for x in v.p:
                    acc = self.apply(f, [acc, x[1]])
                return acc
            if m == 'chain':
                o = self.iterate(self.ev(A[0], env))
                return Lst(v.p + (o.p if isinstance(o, Lst) else (('r', o.base, o.depth, Lst([('i', o.elem)])),)))
            if m in ('last', 'first') and v.concrete() and v.p:
                return var('Some', v.p[-1 if m == 'last' else 0][1])
            if m == 'next' and v.concrete():
                return var('Some', v.p[0][1]) if v.p else NONE
            if m == 'flat_map':
                f = self.ev(A[0], env)
                out = []
                for x in v.p:
                    if x[0] == 'i':
                        r = self.iterate(self.apply(f, [x[1]]))
                        out.extend(r.p if isinstance(r, Lst) else [('r', r.base, r.depth, Lst([('i', r.elem)]))])
                return Lst(out)
            return None
        if isinstance(v, It):
            star = '*' * (v.depth + 1)
            if m == 'map':
                return It(v.base, v.depth, self.deep(lambda: self.apply(self.ev(A[0], env), [v.elem])), v.cond)
            if m == 'enumerate':
                return It(v.base, v.depth, var('tuple', Sym('index(%s)[%s]' % (v.base, star)), v.elem), v.cond)
            if m == 'zip':
                o = self.iterate(self.ev(A[0], env))
                if isinstance(o, It):
                    if o.depth != v.depth:
                        o = It(o.base, v.depth, o.elem)
                    return It(v.base, v.depth, var('tuple', v.elem, o.elem), v.cond)
                return It(v.base, v.depth, var('tuple', v.elem, Sym('zip')), v.cond)
            if m in ('skip', 'take', 'skip_while', 'take_while', 'step_by'):
                n = self.ev(A[0], env)
                if m == 'skip' and isinstance(n, int) and n == 0:
                    return v
                nb = '%s.%s(%s)' % (v.base, m, keyof(n))
                return It(nb, v.depth, self.rebase(v.elem, v.base, nb, star), v.cond)
            if m in ('rev',):
                return It(v.base + '.rev()', v.depth, self.rebase(v.elem, v.base, v.base + '.rev()', star), v.cond)
            if m in ('copied', 'cloned', 'by_ref', 'peekable', 'fuse', 'inspect'):
                return v
            if m == 'filter':
                c = self.cond(self.apply(self.ev(A[0], env), [v.elem]))
                return It(v.base, v.depth, v.elem, self.conj(v.cond, c))
            if m == 'filter_map':
                r = self.deep(lambda: self.apply(self.ev(A[0], env), [v.elem]))
                return self.itopt(v, r)
            if m in ('any', 'all'):
                c = self.cond(self.apply(self.ev(A[0], env), [v.elem]))
                if m == 'all':
                    if c is True:
                        return True
                    return neg(self.exists(v.base, self.conj(v.cond, neg(c)))) if c is not False else Sym('empty(%s)' % v.base)
                if c is False:
                    return False
                return self.exists(v.base, self.conj(v.cond, c)) if c is not True else neg(Sym('empty(%s)' % v.base))
            if m in ('find', 'position', 'find_map'):
                r = self.apply(self.ev(A[0], env), [v.elem])
                if m == 'find_map':
                    k = 'find_map(%s, %s)' % (v.base, keyof(r))
                    return Sym(k)
                c = self.cond(r)
                k = '%s(%s, %s)' % (m, v.base, keyof(c))
                return mk(self.exists(v.base, c), var('Some', Sym(k)), NONE)
            if m == 'unzip':
                a, b = self.field(v.elem, '0'), self.field(v.elem, '1')
                return var('tuple', *[Lst([('r', v.base, v.depth, Lst([('i', x)]) if v.cond is True else self.lcond(v.cond, Lst([('i', x)])))]) for x in (a, b)])
            if m == 'collect':
                l = Lst([('r', v.base, v.depth, Lst([('i', v.elem)]) if v.cond is True else self.lcond(v.cond, Lst([('i', v.elem)])))])
                if e.get('tf') and re.search(r'\bString\b', e['tf']) and 'Vec' not in e['tf']:
                    return lst_text(l, Text())
                return l
            if m == 'fold' and len(A) == 2:
                return self.fold(v, A, env)
            if m == 'count' or m == 'sum' or m == 'max' or m == 'min':
                return Sym('%s(%s)' % ('len' if m == 'count' and v.cond is True else m, v.base))
            if m in ('next', 'last', 'nth'):
                return Sym('%s.%s(%s)' % (v.base, m, ','.join(keyof(self.ev(a, env)) for a in A)))
            if m == 'for_each':
                f = self.ev(A[0], env)
                self.generic(v.base, v.depth, v.elem, v.cond, dict(pat=f.params[0], b=[dict(k='ExprStmt', e=f.body, semi=True)]), f.env) if isinstance(f, Clo) else None
                return UNIT
            if m == 'chain':
                o = self.iterate(self.ev(A[0], env))
                l = lambda x: x.p if isinstance(x, Lst) else (('r', x.base, x.depth, Lst([('i', x.elem)])),)
                return Lst(l(v) + l(o))
            if m == 'flat_map':
                r = self.iterate(self.deep(lambda: self.apply(self.ev(A[0], env), [v.elem])))
                inner = r if isinstance(r, Lst) else Lst([('r', r.base, r.depth, Lst([('i', r.elem)]))])
                return Lst([('r', v.base, v.depth, inner)])
            if m == 'join':
                sep = to_text(self.ev(A[0], env))
                return Text((('r', v.base, v.depth, guarded(v, to_text(v.elem)), sep),))
        return None

    def lcond(self, c, l):
        if c is True:
            return l
        if c is False:
            return Lst()
        if isinstance(c, Alt):
            return Lst([('a', c.c, self.lcond(c.a, l), self.lcond(c.b, l))])
        return Lst([('a', c.key if isinstance(c, Sym) else c, l, Lst())])

    def itopt(self, v, r):
        def some(x):
            if isinstance(x, Alt):
                return mk(x.c, some(x.a), some(x.b))
            if isinstance(x, Rec) and x.name == 'Some':
                return True
            if isinstance(x, Rec) and x.name == 'None':
                return False
            return Sym('is(%s Some)' % keyof(x))

        def pay(x):
            if isinstance(x, Alt):
                a, b = pay(x.a), pay(x.b)
                return b if a is BOT else a if b is BOT else mk(x.c, a, b)
            if isinstance(x, Rec) and x.name == 'Some':
                return x.f['0']
            if isinstance(x, Rec) and x.name == 'None':
                return BOT
            return Sym(keyof(x) + '?')
        return It(v.base, v.depth, pay(r), self.conj(v.cond, some(r)))

    def deep(self, f):
        self.loopdepth += 1
        try:
            return f()
        finally:
            self.loopdepth -= 1

    def rebase(self, elem, old, new, star):
        f = lambda k: k.replace('%s[%s]' % (old, star), '%s[%s]' % (new, star)).replace('index(%s)[%s]' % (old, star), 'index(%s)[%s]' % (new, star))
        return self.rekey(elem, f)

    def rekey(self, v, f):
        if isinstance(v, Sym):
            return Sym(f(v.key))
        if isinstance(v, Rec):
            return Rec(v.name, {k: self.rekey(x, f) for k, x in v.f.items()})
        if isinstance(v, Alt):
            return mk(f(v.c), self.rekey(v.a, f), self.rekey(v.b, f))
        if isinstance(v, Text):
            return Text([x if isinstance(x, str) else ('h', f(x[1])) if x[0] == 'h' else ('a', f(x[1]), self.rekey(x[2], f), self.rekey(x[3], f)) if x[0] == 'a' else x for x in v.p])
        return v

    def lmap(self, v, f):
        out = []
        for x in v.p:
            if x[0] == 'i':
                out.append(('i', self.apply(f, [x[1]])))
            elif x[0] == 'a':
                out.append(('a', x[1], self.lmap(x[2], f), self.lmap(x[3], f)))
            elif x[0] == 'r':
                out.append(('r', x[1], x[2], self.deep(lambda: self.lmap(x[3], f))))
        return Lst(out)

    def lfind(self, p, i, f, m):
        if i >= len(p):
            return NONE
        r = self.apply(f, [p[i][1]])
        if m == 'find_map':
            if isinstance(r, Rec) and r.name == 'Some':
                return r
            if isinstance(r, Rec) and r.name == 'None':
                return self.lfind(p, i + 1, f, m)
            if isinstance(r, Alt):
                g = lambda x: self.lfind(p, i + 1, f, m) if isinstance(x, Rec) and x.name == 'None' else x
                return vmap(r, g)
            return r
        c = self.cond(r)
        hit = var('Some', p[i][1] if m == 'find' else i)
        if c is True:
            return hit
        rest = self.lfind(p, i + 1, f, m)
        return mk(c, hit, rest)

    def fold(self, v, A, env):
        acc0 = self.ev(A[0], env)
        f = self.ev(A[1], env)
        cell = self.new(Text((('mark', 'f'),)) if isinstance(acc0, Text) else acc0)
        if isinstance(acc0, Text):
            # a separator that is pushed when the accumulator is not empty
            self.loopdepth += 1
            try:
                emp = self.apply(f, [Text((('h', '$acc'),)), v.elem])
            finally:
                self.loopdepth -= 1
            emp = to_text(emp)
            # split into with / without accumulator content
            def after(t, c):
                out = []
                seen = False
                for x in t.p:
                    if x == ('h', '$acc'):
                        seen = True
                        continue
                    if isinstance(x, tuple) and x[0] == 'a':
                        if x[1] == 'empty($acc)':
                            y = x[2] if c else x[3]
                            out.extend(after(y, c).p)
                        else:
                            out.append(('a', x[1], after(x[2], c), after(x[3], c)))
                        continue
                    out.append(x)
                return Text(out)
            first, later = after(emp, True), after(emp, False)
            fp, lp = list(first.p), list(later.p)
            # later = separator + first  or first + separator
            sep = None
            if not fp:
                sep = Text()
            elif first == later:
                sep = Text()
            else:
                ft, lt = first.p, later.p
                if len(lt) >= len(ft) and lt[len(lt) - len(ft):] == ft:
                    sep = Text(lt[:len(lt) - len(ft)])
                elif isinstance(ft[0], str) and isinstance(lt[0], str) and lt[0].endswith(ft[0]) and lt[1:] == ft[1:]:
                    sep = T(lt[0][:len(lt[0]) - len(ft[0])])
            if sep is not None:
                return acc0 + Text((('r', v.base, v.depth, guarded(v, first), sep),))
            return acc0 + Text((('r', v.base, v.depth, guarded(v, later), Text()),))
        return Sym('fold(%s)' % v.base)

    ITERISH = re.compile(r'(iter|methods|items|inputs|args|variants|fields|lines|chars|\.\.|list|\[\*+\]s)$|\.(iter|into_iter|chars|lines|arg_names_without_self|split|keys|values)\(|_iter$')

    def looks_iter(self, v, e):
        r = e['recv']
        # a method chain that went through an iterator adaptor is an iterator
        k = v.key
        if re.search(r'(arg_names|_iter|iter\(\)|\.chars\(\)|names)', k) or k.endswith(')') and re.search(r'\.(args|names|iter\w*|\w*iter)\([^()]*\)$', k):
            return True
        return k.startswith('range(') or bool(re.search(r'(names|iter)$', k))

    def optmethod(self, v, m, A, env):
        f = self.ev(A[0], env) if A else None
        if isinstance(v, Rec):
            full = v.name in ('Some', 'Ok')
            if m == 'map':
                return var(v.name, self.apply(f, [v.f['0']])) if full else v
            if m == 'and_then':
                return self.apply(f, [v.f['0']]) if full else v
            if m == 'is_some_and':
                return self.cond(self.apply(f, [v.f['0']])) if full else False
            if m == 'filter':
                return mk(self.cond(self.apply(f, [v.f['0']])), v, NONE) if full else v
            if m == 'or_else':
                return v if full else self.apply(f, [])
            if m == 'or':
                return v if full else f
            if m == 'flatten':
                return v.f['0'] if full else v
        c = Sym('is(%s Some)' % keyof(v))
        p = self.payload(v, 'Some', '0')
        if m == 'map':
            return self.branch(self.cond(c), lambda: var('Some', self.apply(f, [p])), lambda: NONE)
        if m == 'and_then':
            return self.branch(self.cond(c), lambda: self.apply(f, [p]), lambda: NONE)
        if m == 'filter':
            return self.branch(self.cond(c), lambda: mk(self.cond(self.apply(f, [p])), var('Some', p), NONE), lambda: NONE)
        if m == 'is_some_and':
            return self.branch(self.cond(c), lambda: self.cond(self.apply(f, [p])), lambda: False)
        if m == 'or_else':
            return self.branch(self.cond(c), lambda: var('Some', p), lambda: self.apply(f, []))
        if m == 'or':
            return self.branch(self.cond(c), lambda: var('Some', p), lambda: f)
        return Sym('%s.%s()' % (keyof(v), m))

    # ------------------------------------------------------------ macros
    def e_Macro(self, e, env):
        n = e['name'].split('::')[-1]
        if n in ('format', 'concat'):
            if n == 'concat':
                t = Text()
                for a in e['args'] or []:
                    t = t + to_text(self.ev(a, env))
                return t
            return self.fmt(e['args'], env)
        if n in ('write', 'writeln'):
            if not e['args']:
                return UNIT
            t = self.fmt(e['args'][1:], env) if len(e['args']) > 1 else Text()
            if n == 'writeln':
                t = t + T('\n')
            pl = self.place(e['args'][0], env)
            if pl is None:
                x = self.rv(e['args'][0], env)
                pl = x.place if isinstance(x, RefV) else None
            if pl is not None:
                self.push(pl, self.get(pl), 'push_str', t, None)
            return var('Ok', UNIT)
        if n in ('quote', 'parse_quote', 'quote_spanned', 'parse_type'):
            toks = e['toks']
            if n == 'quote_spanned':
                # skip up to =>
                for i, t in enumerate(toks):
                    if t[0] == 'p' and t[1] == '=' and toks[i + 1][1] == '>':
                        toks = toks[i + 2:]
                        break
            return self.quote(toks, env)
        if n in ('panic', 'unreachable', 'unimplemented', 'todo'):
            raise Bottom()
        if n == 'vec':
            return Lst([('i', self.ev(a, env)) for a in e['args'] or []])
        if n == 'matches':
            c = self.test(e['pat'], self.ev(e['e'], env))
            if e['guard']:
                env2 = dict(env)
                try:
                    self.bind_ref(e['pat'], self.ev(e['e'], env), env2)
                except Bottom:
                    return False
                c = self.conj(c, self.cond(self.ev(e['guard'], env2)))
            return self.cond(c)
        if n in ('assert', 'debug_assert', 'assert_eq', 'debug', 'trace', 'info', 'warn', 'error', 'println', 'eprintln', 'debug_assert_eq', 'assert_ne', 'smol_str', 'format_args'):
            if n in ('format_args',):
                return self.fmt(e['args'], env)
            return UNIT
        if n == 'bail':
            raise Bottom()
        if n == 'stringify':
            return T(toks_text(e['toks']))
        if n == 'file_for_module':
            a = [self.ev(x, env) for x in e['args'] or []]
        return Sym('%s!(%s)' % (n, toks_text(e['toks'])[:80]))

    FMT = re.compile(r'\{\{|\}\}|\{([^{}:]*)(?::([^{}]*))?\}')

    def fmt(self, args, env):
        if not args:
            return Text()
        f = self.ev(args[0], env)
        if not isinstance(f, Text) or f.lit() is None:
            return to_text(f)
        pos, named = [], {}
        for a in args[1:]:
            if a['k'] == 'Assign' and a['a']['k'] == 'Path':
                named[re.sub(r'^r#', '', a['a']['p'])] = self.ev(a['b'], env)
            else:
                pos.append(self.ev(a, env))
        out = []
        last = 0
        nxt = 0
        s = f.lit()
        for m in self.FMT.finditer(s):
            out.append(s[last:m.start()])
            last = m.end()
            if m.group(0) == '{{':
                out.append('{')
                continue
            if m.group(0) == '}}':
                out.append('}')
                continue
            n = m.group(1).strip()
            if n == '':
                v = pos[nxt] if nxt < len(pos) else Sym('?')
                nxt += 1
            elif n.isdigit():
                v = pos[int(n)] if int(n) < len(pos) else Sym('?')
            elif n in named:
                v = named[n]
            elif n in env:
                v = self.get(env[n])
            else:
                v = self.e_Path(dict(p=n), env)
            if v is BOT:
                raise Bottom()
            out.extend(to_text(v).p)
        out.append(s[last:])
        return Text(out)

    def quote(self, toks, env):
        out = []
        i = 0
        while i < len(toks):
            t = toks[i]
            nx = toks[i + 1] if i + 1 < len(toks) else None
            if t[0] == 'p' and t[1] == '#' and nx is not None and nx[0] == 'i' and (nx[1] in env or nx[1] == 'self'):
                v = self.get(env[nx[1]])
                if v is BOT:
                    raise Bottom()
                isstr = env[nx[1]] in self.strcells
                out.extend((['"'] if isstr else []) + list(to_text(v).p) + (['" '] if isstr else [' ']))
                i += 2
                continue
            if t[0] == 'p' and t[1] == '#' and nx is not None and nx[0] == 'i' and nx[1].isupper() and len(self.src.consts.get(nx[1], ())) == 1:
                v = self.const(nx[1])
                out.extend(['"'] + list(to_text(v).p) + ['" '])
                i += 2
                continue
            if t[0] == 'p' and t[1] == '#' and nx is not None and nx[0] == 'g' and nx[1] == '(':
                # repetition, if an interpolated name occurs inside
                names = self.names(nx[3], env)
                j = i + 2
                sep = ''
                while j < len(toks) and not (toks[j][0] == 'p' and toks[j][1] in '*'):
                    sep += toks[j][1] if isinstance(toks[j][1], str) else ''
                    j += 1
                if names and j < len(toks) and j - i <= 4:
                    out.append(self.rep(nx[3], names, env, sep))
                    out.append(' ')
                    i = j + 1
                    continue
            if t[0] == 'g':
                o, c = {'(': '()', '{': '{}', '[': '[]', '': ('', '')}[t[1]]
                out.append(o + ' ')
                out.extend(self.quote(t[3], env).p)
                out.append(' ' + c + ' ')
            elif t[0] == 's':
                import json
                out.append(json.dumps(t[1], ensure_ascii=False) + ' ')
            elif t[0] == 'p':
                out.append(t[1] if len(t) > 3 and t[3] else t[1] + ' ')
            else:
                out.append(t[1] + ' ')
            i += 1
        return Text(out)

    def names(self, toks, env):
        r = []
        for i, t in enumerate(toks):
            if t[0] == 'g':
                r += self.names(t[3], env)
            if t[0] == 'p' and t[1] == '#' and i + 1 < len(toks) and toks[i + 1][0] == 'i' and toks[i + 1][1] in env:
                r.append(toks[i + 1][1])
        return r

    def rep(self, toks, names, env, sep):
        """repetition over all sequences among the names, in step"""
        seqs = {}
        for n in names:
            v = self.get(env[n])
            if isinstance(v, (Lst, It)):
                seqs[n] = v
            elif isinstance(v, Sym):
                seqs[n] = self.iterate(v)
            elif isinstance(v, Alt):
                seqs[n] = v
        return ('zip', self.zipseq(toks, seqs, env), T(sep + ' '))

    def zipseq(self, toks, seqs, env):
        if not seqs:
            return self.quote(toks, env)
        n0 = next(iter(seqs))
        v = seqs[n0]
        if isinstance(v, Alt):
            return Text((('a', v.c, self.zipseq(toks, dict(seqs, **{n0: self.aslist(v.a)}), env), self.zipseq(toks, dict(seqs, **{n0: self.aslist(v.b)}), env)),))
        ls = {n: self.aslist(x) for n, x in seqs.items()}
        k = max(len(x.p) for x in ls.values())
        out = []
        for i in range(k):
            items = {n: x.p[i] if i < len(x.p) else ('i', Sym('missing')) for n, x in ls.items()}
            kinds = {x[0] for x in items.values()}
            if kinds == {'i'}:
                env2 = dict(env)
                for n, x in items.items():
                    env2[n] = self.new(x[1])
                out.append(('item', self.quote(toks, env2)))
            elif 'r' in kinds:
                base = [x for x in items.values() if x[0] == 'r'][0]
                sub = {n: x[3] if x[0] == 'r' else Lst([x]) for n, x in items.items()}
                out.append(('r', base[1], base[2], Text((('zip', self.zipseq(toks, sub, env), Text()),)), Text()))
            else:
                a = [x for x in items.values() if x[0] == 'a'][0]
                l = {n: x[2] if x[0] == 'a' else Lst([x]) for n, x in items.items()}
                r = {n: x[3] if x[0] == 'a' else Lst([x]) for n, x in items.items()}
                out.append(('a', a[1], Text((('zip', self.zipseq(toks, l, env), Text()),)), Text((('zip', self.zipseq(toks, r, env), Text()),))))
        return Text(out)

    def aslist(self, v):
        if isinstance(v, Lst):
            return v
        if isinstance(v, It):
            return Lst([('r', v.base, v.depth, Lst([('i', v.elem)]))])
        if isinstance(v, Alt):
            return Lst([('a', v.c, self.aslist(v.a), self.aslist(v.b))])
        if isinstance(v, Rec) and v.name == 'Some':
            return Lst([('i', v.f['0'])])
        if isinstance(v, Rec) and v.name == 'None':
            return Lst()
        return Lst([('i', v)])


# ------------------------------------------------------------------ rendering
class Undecided(Exception):
    def __init__(self, c):
        self.c = c


def span_args(s, i):
    """arguments [(text, start)] of the call whose parenthesis opens before i, and where it closes"""
    out, d, st, q = [], 0, i, False
    while i < len(s):
        ch = s[i]
        if q:
            if ch == '\\':
                i += 1
            elif ch == '"':
                q = False
        elif ch == '"':
            q = True
        elif ch in '([':
            d += 1
        elif ch in ')]':
            if d == 0:
                break
            d -= 1
        elif ch == ',' and d == 0:
            out.append((s[st:i], st))
            st = i + 1
        i += 1
    return out + [(s[st:i], st)], i


class Render:
    """text of a template: decide(key) -> bool | None for conditions, hole(key) -> str, items(base) -> [tag]"""

    def __init__(self, decide, hole, items):
        self.decide, self.hole, self.items = decide, hole, items
        self.extra = {}

    def key(self, k, env):
        # the element inside exists(base, ...) and the like is bound there, not by the repetition around
        pat = re.compile(r'(?<!\w)(?:exists|find|position|find_map)\(')
        masked = set()
        if env and '[*' in k:
            for m in pat.finditer(k):
                d = 0
                for i in range(m.end(), len(k)):
                    if k[i] in '([':
                        d += 1
                    elif k[i] in ')]':
                        d -= 1
                    elif k[i] == ',' and d == 0:
                        masked.add(k[m.end():i])
                        break
            out = []
            for m in re.finditer(r'(?<!\w)each\(', k):
                a, e = span_args(k, m.end())
                if len(a) == 3 and a[1][0].strip().isdigit():
                    out.append((a[2][1], e, int(a[1][0]) + 1))
            for x, e, n in out:
                k = k[:x] + re.sub(r'\[\*{%d}\]' % n, '[' + '\x01' * n + ']', k[x:e]) + k[e:]
            for b in sorted(masked, key=len):
                k = re.sub(re.escape(b) + r'\[(\*+)\]', lambda m: b + '[' + m.group(1).replace('*', '\x01') + ']', k)
        for d, tag in env:
            k = re.sub(r'\[\*{%d}\]' % (d + 1), '[%s]' % tag, k)
        return k.replace('\x01', '*')

    def cond(self, c, env):
        c = self.key(c, env)
        r = self.decide(c)
        if r is None:
            if c not in self.extra:
                raise Undecided(c)
            r = self.extra[c]
        return r

    def parts(self, t, env=()):
        """list of separately separable parts (for separators)"""
        out = []
        for x in t.p:
            if isinstance(x, str):
                out.append(x)
            elif x[0] == 'h':
                out.append(self.hole(self.key(x[1], env)))
            elif x[0] == 'a':
                out.append(self.text(x[2] if self.cond(x[1], env) else x[3], env))
            elif x[0] == 'r':
                tags = self.items(self.key(x[1], env))
                ps = [self.text(x[3], env + ((x[2], tag),)) for tag in tags]
                out.append(self.text(x[4], env).join(p for p in ps if p != ''))
            elif x[0] == 'sep':
                out.append(self.text(x[1], env))
            elif x[0] == 'zip':
                out.append(self.text(x[2], env).join(self.zipitems(x[1], env)))
            elif x[0] == 'item':
                out.append(self.text(x[1], env))
            elif x[0] == 'mark':
                pass
        return out

    def zipitems(self, t, env):
        r = []
        for x in t.p:
            if isinstance(x, str):
                if x.strip():
                    r.append(x)
            elif x[0] == 'item':
                r.append(self.text(x[1], env))
            elif x[0] == 'r':
                for tag in self.items(self.key(x[1], env)):
                    r += self.zipitems(x[3], env + ((x[2], tag),))
            elif x[0] == 'a':
                r += self.zipitems(x[2] if self.cond(x[1], env) else x[3], env)
            elif x[0] == 'zip':
                r += self.zipitems(x[1], env)
            else:
                r.append(self.text(Text((x,)), env))
        return r

    def text(self, t, env=()):
        return ''.join(self.parts(t, env))

    def all(self, t, limit=64):
        """renderings under every assignment of the conditions the driver leaves open: (assignment, text)"""
        out = []
        work = [{}]
        while work:
            self.extra = work.pop()
            try:
                out.append((dict(self.extra), self.text(t)))
            except Undecided as u:
                if len(work) + len(out) > limit:
                    raise
                work.append(dict(self.extra, **{u.c: False}))
                work.append(dict(self.extra, **{u.c: True}))
        return out


def conditions(t, acc=None):
    """all conditions and holes of a template"""
    acc = acc if acc is not None else (set(), set(), set())
    for x in t.p:
        if isinstance(x, str):
            continue
        if x[0] == 'h':
            acc[1].add(x[1])
        elif x[0] == 'a':
            acc[0].add(x[1])
            conditions(x[2], acc)
            conditions(x[3], acc)
        elif x[0] == 'r':
            acc[2].add(x[1])
            conditions(x[3], acc)
        elif x[0] in ('zip', 'item', 'sep'):
            conditions(x[1], acc)
    return acc


def flat(l, conds=()):
    """items of a sequence with the conditions and repetitions around them"""
    for x in l.p:
        if x[0] == 'i':
            yield conds, x[1]
        elif x[0] == 'a':
            yield from flat(x[2], conds + ((x[1], True),))
            yield from flat(x[3], conds + ((x[1], False),))
        elif x[0] == 'r':
            yield from flat(x[3], conds + (('for', x[1], x[2]),))
