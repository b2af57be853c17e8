"""P09 Contradictory declarations are rejected by every backend."""
import copy
from core import Check
import rast
from declmodel import *

R1 = 'a declaration that contradicts itself is refused'
R2 = 'a declaration without contradiction is accepted'
R3 = 'an accepted declaration is understood as written'
R4 = 'a contradiction ends in a diagnostic, not in a panic'
R5 = 'unknown derives and attributes are refused by every back end'
R6 = 'the verdict reaches the caller'

T, U = O('Type', 'T'), O('Type', 'U')
SEMI = ('p', ';')
INLINE = ('g', '{', Stream([]))


def recv(ref=True, mut=False):
    return E('Receiver', [S('Receiver', {'self_token': O('token', 'self'), 'reference': some((O('token', '&'), NONE)) if ref else NONE,
                                         'mutability': some(O('token', 'mut')) if mut else NONE, 'attrs': L([]), 'colon_token': NONE, 'ty': O('Type', 'Self')})])


def arg(n, t='i32'):
    if n == '_':
        pat = E('Wild', [S('PatWild', {'underscore_token': O('token', '_')})])
    elif n == '(a,b)':
        pat = E('Tuple', [O('PatTuple', '(a, b)')])
    else:
        pat = E('Ident', [S('PatIdent', {'ident': ident(n), 'by_ref': NONE, 'mutability': NONE, 'subpat': NONE, 'attrs': L([])})])
    return E('Typed', [S('PatType', {'pat': pat, 'ty': O('Type', t), 'attrs': L([]), 'colon_token': O('token', ':')})])


def attr(name, doc=None, derive=None, lst=None):
    if doc is not None:
        meta = E('NameValue', [S('MetaNameValue', {'path': path('doc'), 'eq_token': O('token', '='),
                                                   'value': E('Lit', [S('ExprLit', {'lit': E('Str', [O('LitStr', doc)]), 'attrs': L([])})])})])
    elif derive is not None:
        meta = E('List', [S('MetaList', {'path': path('derive'), 'tokens': Stream([('names', derive)]), 'delimiter': O('d', 'd')})])
    elif lst is not None:
        meta = E('List', [S('MetaList', {'path': path(name), 'tokens': Stream([('names', lst)]), 'delimiter': O('d', 'd')})])
    else:
        meta = E('Path', [path(name)])
    return ('attr', S('Attribute', {'meta': meta, 'style': E('Outer'), 'pound_token': O('token', '#'), 'text': name}))


SELFK = {'&self': ('Rptr', dict(ref=True)), '&mut self': ('RptrMut', dict(ref=True, mut=True)), 'self': ('Default', dict(ref=False)), 'mut self': ('Mut', dict(ref=False, mut=True))}


def mkarg(a):
    return recv(**SELFK[a][1]) if a in SELFK else arg(a, 'i32' if a != 'z' else 'Zed')


class Item:
    """an item of a class body: its tokens and what it means"""

    def __init__(self, kind, name=None, args=(), ret=None, access=(), inline=False, alias=None, attrs=(), end=True, text=None, toks=None, gen=False):
        self.kind, self.name, self.args, self.ret, self.access, self.inline, self.alias, self.attrs, self.end = kind, name, list(args), ret, list(access), inline, alias, list(attrs), end
        self.gen = gen
        self.text = text or self.mktext()
        self.raw = toks

    def mktext(self):
        a = ' '.join(self.access)
        at = ''.join('#[%s] ' % x for x in self.attrs)
        k = self.kind
        if k == 'self_type':
            b = 'self_type %s;' % self.ret
        elif k == 'dummy':
            b = 'constructor = empty%s;' % (' -> %s' % self.ret if self.ret else '')
        elif k == 'code':
            b = 'foreign_code "…";'
        else:
            b = '%s %s%s(%s)%s%s%s' % (k, self.name, "<'a>" if self.gen else '', ', '.join(self.args), ' -> %s' % self.ret if self.ret else '', ' {…}' if self.inline else ';' if self.end else '',
                                       ' alias %s;' % self.alias if self.alias else '')
        return (at + a + ' ' + b).strip()

    def toks(self):
        if self.raw is not None:
            return list(self.raw)
        t = [attr(x, doc='text') if x == 'doc' else attr(x) for x in self.attrs] + [('id', x) for x in self.access]
        k = self.kind
        if k == 'self_type':
            return t + [('id', 'self_type'), ('ty', self.ret)] + ([SEMI] if self.end else [])
        if k == 'dummy':
            return t + [('id', 'constructor'), ('p', '='), ('id', 'empty')] + ([('p', '->'), ('ty', self.ret)] if self.ret else []) + ([SEMI] if self.end else [])
        if k == 'code':
            return t + [('id', 'foreign_code'), ('lit', 'code')] + ([SEMI] if self.end else [])
        t += [('id', k), ('path', self.name)] + ([('gen', "<'a>")] if self.gen else []) + [('g', '(', Stream([('arg', mkarg(a)) for a in self.args]))]
        if self.ret:
            t += [('p', '->'), ('ty', self.ret)]
        if self.inline:
            t.append(INLINE)
        elif self.end:
            t.append(SEMI)
        if self.alias:
            t += [('id', 'alias'), ('id', self.alias), SEMI]
        return t


class State:
    def __init__(self):
        self.self_type = None
        self.ret = None
        self.dummy = False
        self.methods = []
        self.code = 0

    def add(self, it):
        """None, or why the item contradicts what came before or itself; 'free' = neither verdict is required"""
        k = it.kind
        if it.raw is not None:
            return 'no such item'
        if not it.end:
            return 'the terminator is missing'
        if len(it.access) > 1 or any(a not in ('private', 'protected') for a in it.access):
            return 'two access levels'
        unknown = [a for a in it.attrs if a != 'doc']
        if k in ('self_type', 'code'):
            if it.access:
                return 'an access level on what is not a function'
            if unknown:
                return 'an unknown attribute on what is not a function'
            if k == 'code':
                self.code += 1
                return None
            if self.self_type is not None:
                return 'two self types'
            self.self_type = it.ret
            return None
        access = {'private': 'Private', 'protected': 'Protected'}[it.access[0]] if it.access else 'Public'
        if k == 'dummy':
            if access != 'Private':
                return 'the empty constructor is not private'
            if any(m['variant'] == 'Constructor' for m in self.methods):
                return 'an empty constructor beside another constructor'
            if it.ret is None and self.self_type is None:
                return 'an empty constructor without a self type'
            self.ret = it.ret or self.self_type
            self.dummy = True
            self.methods.append(dict(variant='Constructor', selfk=None, access=access, alias=None, path='', args=[], dummy=True, inline=False, attrs=unknown, ret=None))
            return None
        if k not in ('constructor', 'fn', 'method', 'static_method'):
            return 'an unknown kind of item'
        args = it.args
        selfs = [i for i, a in enumerate(args) if a in SELFK]
        names = [a for a in args if a not in SELFK and a != '_']
        if '(a,b)' in args:
            return 'an argument that is a pattern'
        if any(i > 0 for i in selfs):
            return 'a self argument that is not the first'
        if len(set(names)) != len(names):
            return 'two arguments of the same name'
        if k in ('constructor', 'static_method') and selfs:
            return 'a self argument where there is no self'
        if k == 'method' and not selfs:
            return 'a method without self'
        if it.inline and '_' in args:
            return 'an inline body that cannot name its argument'
        if it.inline and it.alias:
            return 'an alias for an inline function'
        if k == 'constructor':
            if it.alias:
                return 'an alias for a constructor'
            if it.ret is None:
                return 'a constructor that returns nothing'
            if self.dummy:
                return 'a constructor beside the empty constructor'
            if self.ret is not None and self.ret != it.ret:
                return 'constructors of different types'
            self.ret = it.ret
        self.methods.append(dict(variant='Constructor' if k == 'constructor' else 'Method' if selfs else 'StaticMethod', selfk=SELFK[args[0]][0] if selfs else None,
                                 access=access, alias=it.alias, path=it.name, args=args, dummy=False, inline=it.inline, attrs=unknown, ret=it.ret))
        return None

    def close(self, derives):
        if self.self_type is not None and self.ret is None:
            return 'a self type without a constructor'
        if self.self_type is None and self.ret is not None:
            return 'a constructor without a self type'
        if 'Copy' in derives and not any(m['path'].split('::')[-1] == 'clone' for m in self.methods):
            return 'Copy without clone'
        return None

    def validate(self, lang, derives, smart):
        """why the back end refuses the class although the parser takes it"""
        if self.self_type is None and any(m['variant'] == 'Method' for m in self.methods):
            return 'a method on self without a self type'
        if lang in ('cpp', 'java') and 'SmartPtrCopy' in derives and self.self_type is not None:
            if smart not in ('Rc', 'Arc'):
                return 'SmartPtrCopy of what is neither Rc nor Arc'
            if lang == 'cpp' and any(m['variant'] != 'Constructor' and (m['alias'] or m['path'].split('::')[-1]) == 'clone' for m in self.methods):
                return 'SmartPtrCopy beside a clone method'
        return None


def alphabet():
    r = []
    add = lambda *a, **k: r.append(Item(*a, **k))
    add('self_type', ret=T)
    add('self_type', ret=T, access=['private'])
    add('self_type', ret=T, access=['protected'])
    add('self_type', ret=T, attrs=['weird'])
    add('self_type', ret=T, attrs=['doc'])
    add('self_type', ret=T, end=False)
    add('code')
    add('code', access=['private'])
    add('code', attrs=['weird'])
    for acc in ([], ['private'], ['protected'], ['private', 'protected'], ['protected', 'private'], ['private', 'private'], ['public']):
        add('constructor', 'Foo::new', ['a'], T, access=acc)
        add('dummy', access=acc)
        add('fn', 'Foo::get', ['&self', 'a'], U, access=acc)
        add('fn', 'helper', ['a'], access=acc)
    add('constructor', 'Foo::make', [], U)
    add('constructor', 'Foo::make', [], None)
    add('constructor', 'make', ['a', 'b'], T, inline=True)
    add('constructor', 'Foo::new', ['&self'], T)
    add('constructor', 'Foo::new', ['a', 'self'], T)
    add('constructor', 'Foo::new', ['a'], T, alias='other')
    add('constructor', 'Foo::new', ['a', 'a'], T)
    add('constructor', 'Foo::new', ['_', '_'], T)
    add('constructor', 'Foo::new', ['_'], T, inline=True)
    add('constructor', 'Foo::new', ['a'], T, attrs=['weird'])
    add('constructor', 'Foo::new', ['a'], T, end=False)
    add('dummy', access=['private'], ret=T)
    add('dummy', access=['private'], ret=U)
    add('dummy', access=['private'], end=False)
    for k in ('&self', '&mut self', 'self', 'mut self'):
        add('fn', 'Foo::m', [k])
        add('method', 'Foo::m', [k, 'z'], U)
        add('static_method', 'Foo::m', [k, 'z'], U)
        add('fn', 'Foo::m', [k, 'a', k])
        add('method', 'Foo::m', [k, '&self'])
        add('fn', 'Foo::m', ['a', k])
    add('method', 'Foo::m', [])
    add('method', 'Foo::m', ['a'])
    add('static_method', 'Foo::s', ['a'], U)
    add('static_method', 'Foo::s', [], alias='renamed')
    add('fn', 'Foo::s', [], U)
    add('fn', 'Foo::clone', ['&self'], T)
    add('fn', 'Foo::dup', ['&self'], T, alias='clone')
    add('fn', 'Foo::m', ['&self', 'a', 'b', 'a'])
    add('fn', 'Foo::m', ['a', 'a'])
    add('fn', 'Foo::m', ['&self', '_', 'a0', '_'])
    add('fn', 'Foo::m', ['&self', '(a,b)'])
    add('fn', 'Foo::m', ['&self', 'a'], inline=True)
    add('fn', 'm', ['a'], inline=True, ret=U)
    add('fn', 'Foo::m', ['&self', '_'], inline=True)
    add('fn', 'm', ['_'], inline=True)
    add('fn', 'Foo::m', ['&self'], inline=True, alias='n')
    add('fn', 'Foo::m', ['&self'], alias='n')
    add('fn', 'Foo::long_name', ['a'], access=['protected'], alias='n2', attrs=['doc'])
    add('fn', 'Foo::m', ['&self'], attrs=['weird'])
    add('fn', 'Foo::m', ['&self', 'a'], gen=True)
    add('fn', 'Foo::m', ['&self'], end=False)
    for kind in ('destructor', 'function', 'const', 'Fn', 'self_typ', 'constructors'):
        add(kind, 'Foo::m', ['a'], T)
    r.append(Item('raw', text='constructor = default;', toks=[('id', 'constructor'), ('p', '='), ('id', 'default'), SEMI]))
    r.append(Item('raw', text='fn = empty;', toks=[('id', 'fn'), ('p', '='), ('id', 'empty'), SEMI]))
    r.append(Item('raw', text='fn Foo::m(&self);;', toks=Item('fn', 'Foo::m', ['&self']).toks() + [SEMI]))
    return r


CFG = {'cpp': 'CppConfig', 'java': 'JavaConfig', 'python': 'PythonConfig'}
FILE = {'cpp': 'cpp/mod.rs', 'java': 'java_jni/mod.rs', 'python': 'python/mod.rs'}


class Machine:
    def __init__(self, c, src):
        self.c, self.src = c, src
        self.visited = set()
        self.undecided = []

    def interp(self, **over):
        d = {'normalize_type': lambda t: strip(t).t,
             'DiagnosticError::new': lambda *a: O('diagnostic', str(strip(a[-1]))),
             'DiagnosticError::from_syn_err': lambda *a: strip(a[-1])}
        d.update(over)
        return Interp(self.src, d)

    def run(self, what, f):
        """('ok', value) | ('err', message) | ('panic', why) | ('undecided', why)"""
        try:
            r = strip(f())
        except Panic as p:
            return ('panic', str(p))
        except Undec as u:
            self.undecided.append('%s: %s' % (what, u))
            return ('undecided', str(u))
        if isinstance(r, E) and r.n == 'Ok':
            return ('ok', strip(r.a[0]))
        if isinstance(r, E) and r.n == 'Err':
            return ('err', str(r.a[0]))
        self.undecided.append('%s: result %r' % (what, r))
        return ('undecided', repr(r)[:60])

    def parse_class(self, lang, attrs, items, hook=None):
        content = Stream([], [x.toks() for x in items], 'body')
        content.hook = hook
        toks = list(attrs) + [('id', 'class'), ('id', 'Foo'), ('g', '{', content)]
        it = self.interp()
        fn = self.src.fn('parse_foreigner_class')
        if fn is None:
            return ('undecided', 'parse_foreigner_class not found')
        it.file = fn['file']
        r = self.run('parser', lambda: it.call_fn(fn, [O('SourceId', 's'), E(CFG[lang], [O('cfg', 'cfg')]), Stream(toks)]))
        self.visited |= it.visited
        return r

    def parse_with(self, fname, toks):
        it = self.interp()
        fn = self.src.fn(fname)
        if fn is None:
            return ('undecided', fname + ' not found')
        it.file = fn['file']
        r = self.run(fname, lambda: it.call_fn(fn, [O('SourceId', 's'), Stream(toks)]))
        self.visited |= it.visited
        return r

    def register(self, lang, cls, smart):
        cands = [f for f in self.src.fns.get('register_class', []) if f['file'] == FILE[lang]]
        if len(cands) != 1:
            return ('undecided', 'register_class of %s: %d candidates' % (lang, len(cands)))
        rust_type = O('RustType', 'this', smart=smart)

        def pointer(ty, name, *rest):
            return some(O('RustType', 'inner')) if smart == strip(name) else NONE
        it = self.interp(check_if_smart_pointer_return_inner_type=pointer,
                         if_ty_result_return_ok_type=lambda t: NONE,
                         register_typemap_for_self_type=lambda *a: ok(UNIT))
        it.mover = {'find_or_alloc_rust_type_that_implements': lambda i, s, a: rust_type,
                    'find_or_alloc_rust_type': lambda i, s, a: rust_type, 'ty_to_rust_type': lambda i, s, a: rust_type}
        it.file = FILE[lang]
        r = self.run('register_class of ' + lang, lambda: it.call_fn(cands[0], [O('cfg', 'cfg'), O('ctx', 'ctx'), copy.deepcopy(cls)]))
        self.visited |= it.visited
        return r

    def extend(self, name, owner, reserved, handlers=(), mhandlers=()):
        fn = self.src.fn(name)
        if fn is None:
            return ('undecided', name + ' not found')
        it = self.interp()
        it.file = fn['file']
        calls = []
        mk = lambda hs: M({h: PyFn(lambda *a, h=h: calls.append(h) or UNIT) for h in hs})
        args = {'cnt': O('opaque', 'cnt'), 'reserved_class_derives': L(reserved), 'class_ext_handlers': mk(handlers), 'method_ext_handlers': mk(mhandlers), 'ext_enum_handlers': mk(handlers)}
        vals = []
        ps = fn['sig']['inputs']
        for i, p in enumerate(ps):
            t = (p.get('ty') or '').replace(' ', '')
            if i == 0 or t.endswith(('ForeignClassInfo', 'ForeignEnumInfo')):
                vals.append(copy.deepcopy(owner))
            elif 'Vec<u8>' in t:
                vals.append(args['cnt'])
            elif 'str]' in t or 'Vec<&' in t or 'str;' in t:
                vals.append(L(reserved))
            elif 'MethodExt' in t:
                vals.append(mk(mhandlers))
            elif 'ExtHandlers' in t:
                vals.append(mk(handlers))
            else:
                return ('undecided', 'parameter %d of %s' % (i, name))
        r = self.run(name, lambda: it.call_fn(fn, vals))
        self.visited |= it.visited
        return r + (calls,)

    def python_class(self, cls):
        """verdict of the Python back end before it generates anything"""
        fn = self.src.fn('generate_class', FILE['python'])
        if fn is None:
            return ('undecided', 'generate_class not found')

        class Reached(Exception):
            pass

        def stop(*a):
            raise Reached()
        over = {'py_wrapper_mod_name': lambda *a: 'm', 'generate_method_code': stop,
                'storage_smart_pointer_for_class': stop, 'DiagnosticError::new': lambda *a: O('diagnostic', str(strip(a[-1])))}
        it = self.interp(**over)
        it.over['parse'] = lambda *a: ok(ident('m'))
        it.file = fn['file']
        vals = []
        for p in fn['sig']['inputs']:
            t = (p.get('ty') or '').replace(' ', '')
            if p['k'] == 'Recv':
                vals.append(O('cfg', 'cfg'))
            elif t.endswith('ForeignClassInfo'):
                vals.append(copy.deepcopy(cls))
            elif 'ExtHandlers' in t:
                vals.append(M())
            else:
                vals.append(O('conv_map', 'conv_map'))
        n0 = len(self.undecided)
        try:
            r = self.run('generate_class', lambda: it.call_fn(fn, vals))
        except Reached:
            r = ('ok', None)
        self.visited |= it.visited
        if r[0] == 'undecided' and any(f[1] == 'generate_rust_instance_field_and_methods' for f in it.visited):
            # the code generation proper has begun
            del self.undecided[n0:]
            r = ('ok', None)
        return r


def abstract(it, st):
    """the values of all live variables, methods reduced to what decisions can depend on"""
    out = []
    for sc in it.scopes:
        d = []
        for n, v in sorted(sc.items()):
            v = strip(v)
            if isinstance(v, L) and v.v and isinstance(strip(v.v[0]), S) and strip(v.v[0]).n == 'ForeignMethod':
                ms = set()
                for m in v.v:
                    m = strip(m)
                    segs = m.f['rust_id'].f['segments'].v if isinstance(m.f.get('rust_id'), S) else []
                    last = segs[-1].f['ident'].t if segs else ''
                    ms.add((m.f['variant'].n, not segs, last == 'clone'))
                d.append((n, tuple(sorted(ms))))
            elif isinstance(v, str):
                continue
            else:
                d.append((n, key(v)))
        out.append(tuple(d))
    return repr(out)


def describe(cls):
    """what the parser says about a class, in the terms of State"""
    ms = []
    for m in cls.f['methods'].v:
        m = strip(m)
        segs = [s.f['ident'].t for s in m.f['rust_id'].f['segments'].v]
        v = strip(m.f['variant'])
        args = []
        for a in m.f['fn_decl'].f['inputs'].v:
            a = strip(a)
            if a.n == 'SelfArg':
                args.append(('self', strip(a.a[1]).n))
            else:
                na = strip(a.a[0])
                args.append(('arg', na.f['name'] if isinstance(na.f['name'], str) else na.f['name'].t, strip(na.f['ty']).t))
        out = strip(m.f['fn_decl'].f['output'])
        ms.append(dict(variant=v.n, selfk=strip(v.a[0]).n if v.a else None, access=strip(m.f['access']).n, alias=None if strip(m.f['name_alias']).n == 'None' else strip(strip(m.f['name_alias']).a[0]).t,
                       path='::'.join(segs), args=args, dummy=not segs, inline=strip(m.f['inline_block']).n == 'Some',
                       attrs=[x if isinstance(x, str) else x.t for x in map(strip, m.f['unknown_attrs'].v)], ret=strip(out.a[1]).t if out.n == 'Type' else None))
    sd = strip(cls.f['self_desc'])
    return dict(methods=ms, self_type=strip(sd.a[0]).f['self_type'].t if sd.n == 'Some' else None, ret=strip(strip(sd.a[0]).f['constructor_ret_type']).t if sd.n == 'Some' else None,
                derives=[x if isinstance(x, str) else x.t for x in map(strip, cls.f['derive_list'].v)])


def differences(want, got, camel=False):
    """of State and describe()"""
    out = []
    if len(want.methods) != len(got['methods']):
        return ['%d functions instead of %d' % (len(got['methods']), len(want.methods))]
    st = want.self_type.t if want.self_type else None
    rt = want.ret.t if want.ret else None
    if (st, rt) != (got['self_type'], got['ret']):
        out.append('self type and constructor type %s instead of %s' % ((got['self_type'], got['ret']), (st, rt)))
    for w, g in zip(want.methods, got['methods']):
        for k in ('variant', 'selfk', 'access', 'path', 'dummy', 'inline'):
            if w[k] != g[k]:
                out.append('%s: %s is %s, declared %s' % (w['path'] or 'constructor', k, g[k], w[k]))
        if len(w['attrs']) != len(g['attrs']) or any(a not in b for a, b in zip(w['attrs'], g['attrs'])):
            out.append('%s: attributes %s, declared %s' % (w['path'], g['attrs'], w['attrs']))
        if not w['dummy'] and (w['ret'].t if w['ret'] else None) != g['ret']:
            out.append('%s: returns %s, declared %s' % (w['path'], g['ret'], w['ret']))
        al = w['alias']
        if camel and not al and not w['dummy']:
            if g['alias'] is None:
                out.append('%s: no alias in spite of the derive' % w['path'])
        elif al != g['alias']:
            out.append('%s: alias %s, declared %s' % (w['path'], g['alias'], al))
        if len(w['args']) != len(g['args']):
            out.append('%s: %d arguments, declared %d' % (w['path'], len(g['args']), len(w['args'])))
            continue
        names = []
        for a, b in zip(w['args'], g['args']):
            if a in SELFK:
                if b != ('self', SELFK[a][0]):
                    out.append('%s: %s became %s' % (w['path'], a, b))
            else:
                names.append(b[1])
                if b[0] != 'arg' or (a != '_' and b[1] != a) or b[2] != ('Zed' if a == 'z' else 'i32'):
                    out.append('%s: argument %s became %s' % (w['path'], a, b))
                if a == '_' and b[1] == '_':
                    out.append('%s: an unnamed argument stays without a name' % w['path'])
    return out


def reserved_of(src, call):
    """the list of derives a call of extend_foreign_class sets apart"""
    it = Interp(src)
    for a in call['args']:
        n = a
        while n['k'] in ('Ref', 'Paren'):
            n = n['e']
        if n['k'] == 'Array' or (n['k'] == 'Path' and src.consts.get(n['p'].split('::')[-1])):
            v = strip(it.ev(n, [{}]))
            if isinstance(v, L):
                return [x for x in map(strip, v.v)]
    return None


def sites(src, names):
    """calls of the functions with their chain of parents: (file, fn, call, parents)"""
    out = []

    def go(n, parents, f):
        if isinstance(n, list):
            for x in n:
                go(x, parents, f)
            return
        if not isinstance(n, dict):
            return
        if n.get('k') == 'Call' and n['f']['k'] == 'Path' and n['f']['p'].split('::')[-1].strip() in names:
            out.append((f, n['f']['p'].split('::')[-1].strip(), n, parents))
        if n.get('k') == 'MCall' and n['m'] in names:
            out.append((f, n['m'], n, parents))
        for k, v in n.items():
            if k not in ('toks', 'src'):
                go(v, parents + [n] if 'k' in n else parents, f)
    for fs in src.fns.values():
        for f in fs:
            go(f.get('b') or [], [], f)
    return out


def passes_on(call, parents, f):
    """is the verdict of the call handed to the caller?"""
    cur = call
    for p in reversed(parents):
        k = p['k']
        if k == 'Try' or k == 'Return':
            return True
        if k == 'MCall' and p['recv'] is cur and p['m'] in ('map_err', 'map', 'and_then', 'and'):
            cur = p
            continue
        if k in ('Paren', 'Block'):
            cur = p
            continue
        if k == 'Match' and p['e'] is cur:
            return any(n['k'] == 'Return' for n in rast.walk(p['arms'])) or None
        if k in ('If', 'Match', 'Arm'):
            cur = p
            continue
        if k == 'ExprStmt':
            if p['semi']:
                return False
            cur = p
            continue
        if k == 'Let':
            return None
        if k in ('Call', 'Closure', 'MCall', 'Macro'):
            return None
        cur = p
    return True


def run():
    c = Check("P09", explanation())
    viol, count = c.violation, {}

    def few(rule, key, msg):
        count[rule, key] = count.get((rule, key), 0) + 1
        if count[rule, key] <= 2:
            viol(rule, key, msg)
    c.violation = few
    src = rast.Source()
    m = Machine(c, src)
    alpha = alphabet()

    # ---- class bodies: all reachable states of the parser, every item in each
    seen = {}
    work = [[]]
    reps = []
    n_eval = 0
    while work and n_eval < 60000:
        seq = work.pop(0)
        keyv = []
        r = m.parse_class('cpp', [], seq, hook=lambda it, st: keyv.append(abstract(it, st)) if not st.items else None)
        n_eval += 1
        st = State()
        bad = None
        for i in seq:
            bad = st.add(i)
            if bad:
                break
        txt = ' '.join(i.text for i in seq)
        if bad:
            c.ok(R1, txt)
            c.ok(R4, txt)
            if r[0] == 'ok' or (r[0] == 'err' and keyv):
                c.violation(R1, 'class/' + bad, 'class Foo { %s } is taken although there is %s (%s)' % (txt, bad, 'code_parse.rs'))
            elif r[0] == 'panic':
                c.violation(R4, 'class/' + bad, 'class Foo { %s } (%s): the parser panics (%s)' % (txt, bad, r[1]))
            continue
        if not keyv:
            c.ok(R2, txt)
            if r[0] in ('err', 'panic'):
                c.violation(R2, 'class item', 'class Foo { %s }: the last item is refused (%s) although nothing contradicts it' % (txt, r[1]))
            continue
        k = (keyv[-1], st.self_type is None, st.ret and st.ret.t, st.dummy, tuple(sorted({(x['variant'], x['path'].split('::')[-1] == 'clone') for x in st.methods})))
        final = st.close([])
        if final:
            c.ok(R1, txt)
            if r[0] == 'ok':
                c.violation(R1, 'class/' + final, 'class Foo { %s } is taken although there is %s' % (txt, final))
            elif r[0] == 'panic':
                c.violation(R4, 'class/' + final, 'class Foo { %s } (%s): the parser panics (%s)' % (txt, final, r[1]))
        else:
            c.ok(R2, txt)
            if r[0] in ('err', 'panic'):
                c.violation(R2, 'class', 'class Foo { %s } is refused (%s) although nothing contradicts it' % (txt, r[1]))
            elif r[0] == 'ok':
                c.ok(R3, txt)
                for d in differences(st, describe(r[1])):
                    c.violation(R3, 'class/' + d.split(':')[-1].strip()[:60], 'class Foo { %s }: %s' % (txt, d))
        if k not in seen:
            seen[k] = seq
            if not final:
                reps.append(seq)
            for a in alpha:
                work.append(seq + [a])
    c.analysed('reachable abstract states of the class parser', len(seen))
    c.analysed('items in the alphabet', len(alpha))
    c.analysed('class bodies evaluated', n_eval)

    # ---- what follows the parser, per back end and derive
    good = dict(derives=[[], ['Clone'], ['Copy'], ['Clone', 'Copy'], ['SmartPtrCopy'], ['SmartPtrCopy', 'Copy'], ['camelCaseAliases'], ['Clone', 'camelCaseAliases']])
    calls = sites(src, {'extend_foreign_class', 'extend_foreign_enum'})
    reserved = {}
    for f, nm, call, parents in calls:
        if nm == 'extend_foreign_class':
            lang = 'cpp' if f['file'].startswith('cpp/') else 'java' if f['file'].startswith('java_jni/') else f['file']
            try:
                reserved.setdefault(lang, []).append(reserved_of(src, call))
            except Undec:
                reserved.setdefault(lang, []).append(None)
    for lang in ('cpp', 'java'):
        c.require(reserved.get(lang), R5, 'the %s back end checks the derives of a class' % lang, lang, 'the %s back end never calls extend_foreign_class: unknown derives of a class pass unnoticed' % lang)
    n = 0
    for lang in ('cpp', 'java', 'python'):
        for seq in reps:
            for der in good['derives']:
                st = State()
                for i in seq:
                    st.add(i)
                txt = '#[derive(%s)] class Foo { %s }' % (', '.join(der), ' '.join(i.text for i in seq))
                r = m.parse_class(lang, [attr('derive', derive=der)] if der else [], seq)
                n += 1
                why = st.close(der)
                if why:
                    c.ok(R1, lang + ' ' + txt)
                    if r[0] == 'ok':
                        c.violation(R1, 'class/' + why, '%s: %s is taken although there is %s' % (lang, txt, why))
                    elif r[0] == 'panic':
                        c.violation(R4, 'class/' + why, '%s: %s: the parser panics (%s)' % (lang, txt, r[1]))
                    continue
                if r[0] == 'undecided':
                    continue
                c.ok(R2, lang + ' ' + txt)
                if r[0] != 'ok':
                    c.violation(R2, 'class', '%s: %s is refused (%s) although nothing contradicts it' % (lang, txt, r[1]))
                    continue
                got = describe(r[1])
                c.ok(R3, lang + ' ' + txt)
                for d in differences(st, got, 'camelCaseAliases' in der):
                    c.violation(R3, 'class/' + d.split(':')[-1].strip()[:60], '%s: %s: %s' % (lang, txt, d))
                if sorted(set(got['derives']) - {'camelCaseAliases'}) != sorted(set(der) - {'camelCaseAliases'}):
                    c.violation(R3, 'derives', '%s: %s: the derives are understood as %s' % (lang, txt, got['derives']))
                for smart in (None, 'Rc', 'Arc') if 'SmartPtrCopy' in der and lang != 'python' else (None,):
                    why = st.validate(lang, der, smart)
                    v = m.register(lang, r[1], smart)
                    if v[0] == 'ok' and lang == 'python':
                        if st.code or any(x['inline'] or x['attrs'] for x in st.methods):
                            why = why or 'what Python does not support (code, body or attribute)'
                        v = m.python_class(r[1])
                    if why:
                        c.ok(R1, '%s %s %s' % (lang, smart, txt))
                        if v[0] == 'ok':
                            c.violation(R1, 'class/' + why, '%s: %s%s is taken although there is %s' % (lang, txt, ' whose constructor returns %s' % smart if smart else '', why))
                        elif v[0] == 'panic':
                            c.violation(R4, 'class/' + why, '%s: %s: %s' % (lang, txt, v[1]))
                    elif v[0] != 'undecided':
                        c.ok(R2, '%s %s %s' % (lang, smart, txt))
                        if v[0] != 'ok':
                            c.violation(R2, 'register', '%s: %s%s is refused (%s) although nothing contradicts it' % (lang, txt, ' whose constructor returns %s' % smart if smart else '', v[1]))
    # bodies that Python cannot express, attributes, foreign code
    st_ = Item('self_type', ret=T)
    ct_ = Item('constructor', 'Foo::new', ['a'], T)
    base = [st_, ct_, Item('fn', 'Foo::get', ['&self', 'a'], U)]
    for extra in (Item('code'), Item('fn', 'Foo::m', ['&self', 'a'], inline=True), Item('fn', 'Foo::m', ['&self'], attrs=['weird']), Item('fn', 's', ['a'], inline=True), Item('constructor', 'mk', ['a'], T, inline=True),
                  Item('constructor', 'Foo::new2', [], T, attrs=['weird'])):
        r = m.parse_class('python', [], base + [extra])
        if r[0] == 'ok':
            v = m.python_class(r[1])
            c.require(v[0] in ('err', 'undecided'), R1, 'python ' + extra.text, 'python/' + extra.text, 'python: class Foo { … %s } is taken although the back end ignores that item' % extra.text)
    v = m.parse_class('python', [], base)
    if v[0] == 'ok':
        w = m.python_class(v[1])
        c.require(w[0] in ('ok', 'undecided'), R2, 'python plain class', 'python plain', 'python: a plain class is refused (%s)' % (w[1],))

    # ---- unknown derives and attributes
    for lang in ('cpp', 'java', 'python'):
        for der in (['Weird'], ['Clone', 'Weird'], ['clone'], ['Debug']):
            r = m.parse_class(lang, [attr('derive', derive=der)], base)
            inst = '%s derive(%s)' % (lang, ', '.join(der))
            if r[0] != 'ok':
                c.require(r[0] != 'panic', R4, inst, 'derive', '%s: the parser panics' % inst)
                continue
            bad = [d for d in der if d not in ('Clone', 'Copy')]
            if lang == 'python':
                v = m.python_class(r[1])
                c.require(v[0] in ('err', 'undecided'), R5, inst, 'python class derive', 'python: a class with #[derive(%s)] is taken, the derive is ignored' % ', '.join(der))
                continue
            for res in reserved.get(lang) or []:
                if res is None:
                    continue
                v = m.extend('extend_foreign_class', r[1], res)
                c.require(v[0] in ('err', 'undecided'), R5, inst, lang + ' class derive', '%s: a class with the unknown #[derive(%s)] is taken' % (lang, ', '.join(der)))
                v = m.extend('extend_foreign_class', r[1], res, handlers=bad)
                if v[0] != 'undecided':
                    c.require(v[0] == 'ok' and v[2] == bad, R5, inst + ' with a handler', lang + ' class handler', '%s: the handler registered for %s is not called exactly once (%s)' % (lang, bad, v[0]))
        rm = m.parse_class(lang, [], base + [Item('fn', 'Foo::m', ['&self'], attrs=['weird']), Item('fn', 'Foo::n', ['&self'], attrs=['weird'])])
        if rm[0] == 'ok' and lang != 'python':
            for res in reserved.get(lang) or []:
                v = m.extend('extend_foreign_class', rm[1], res or [])
                c.require(v[0] in ('err', 'undecided'), R5, lang + ' method attribute', lang + ' method attribute', '%s: an unknown attribute of a method is taken' % lang)
                v = m.extend('extend_foreign_class', rm[1], res or [], mhandlers=['weird'])
                if v[0] != 'undecided':
                    c.require(v[0] == 'ok' and len(v[2]) == 2, R5, lang + ' method handler', lang + ' method handler', '%s: the handler of a method attribute is called %d times for two methods' % (lang, len(v[2])))
        for res in reserved.get(lang) or []:
            if res is not None:
                for d in ('Clone', 'Copy', 'SmartPtrCopy'):
                    c.require(d in res, R2, '%s: %s is known' % (lang, d), '%s knows %s' % (lang, d), '%s: the documented derive %s is refused' % (lang, d))
                for d in res:
                    c.require(d in ('Clone', 'Copy', 'SmartPtrCopy', 'PlainClass', 'camelCaseAliases'), R5, '%s: reserved derive %s' % (lang, d), '%s reserves %s' % (lang, d),
                              '%s: the derive %s is taken without a handler' % (lang, d))
    for at in (attr('weird'), attr('weird', lst=['x']), attr('doc', lst=['hidden']), attr('repr', lst=['C'])):
        for lang in ('cpp', 'java', 'python'):
            r = m.parse_class(lang, [at], base)
            c.require(r[0] in ('err', 'undecided'), R5, '%s class attribute %s' % (lang, at[1].f['text']), 'class attribute', '%s: a class with the attribute #[%s…] is taken, or the parser panics (%s)' % (lang, at[1].f['text'], r[0]))
    for toks in ([('id', 'klass'), ('id', 'Foo'), ('g', '{', Stream([]))], [('id', 'class'), ('g', '{', Stream([]))], [('id', 'class'), ('id', 'Foo'), SEMI],
                 [('id', 'class'), ('id', 'Foo'), ('g', '{', Stream([], [], 'body')), ('id', 'rest')]):
        it = m.interp()
        fn = src.fn('parse_foreigner_class')
        if fn:
            it.file = fn['file']
            r = m.run('parser', lambda: it.call_fn(fn, [O('SourceId', 's'), E('CppConfig', [O('cfg', 'cfg')]), Stream(toks)]))
            c.require(r[0] in ('err', 'undecided'), R1, 'class header %s' % [t[1] for t in toks], 'class header', 'a class macro that starts with %s is taken (%s)' % ([t[1] for t in toks], r[0]))

    # ---- enums
    enum(c, m, src)
    callbacks(c, m)

    # ---- the verdicts reach the caller
    for f, nm, call, parents in sites(src, {'parse_foreigner_class', 'parse_foreign_enum', 'parse_foreign_interface', 'register_class', 'extend_foreign_class', 'extend_foreign_enum', 'validate_class',
                                           'do_parse_foreigner_class', 'parse_fn_args', 'parse_attrs'}):
        inst = '%s in %s %s:%d' % (nm, f['name'], f['file'], call['l'])
        v = passes_on(call, parents, f)
        c.ok(R6, inst)
        if v is False:
            c.violation(R6, '%s in %s' % (nm, f['name']), '%s: the verdict of %s is dropped' % (inst, nm))
        if nm.startswith('extend_'):
            for p in parents:
                if p['k'] == 'If' and p['c']['k'] not in ('LetCond',):
                    c.violation(R6, '%s in %s is conditional' % (nm, f['name']), '%s: unknown derives are only looked for under a condition' % inst)
    for nm, files in (('extend_foreign_enum', ('cpp/', 'java_jni/')), ('register_class', ('cpp/', 'java_jni/', 'python/')), ('validate_class', ('cpp/', 'java_jni/'))):
        for d in files:
            c.require(any(x[1] == nm and x[0]['file'].startswith(d) for x in sites(src, {nm})), R6, '%s is called in %s' % (nm, d), '%s in %s' % (nm, d), 'the back end %s never calls %s' % (d, nm))

    c.analysed('functions interpreted', len(m.visited))
    und = sorted(set(m.undecided))
    c.notes.append('undecided evaluations: %d%s' % (len(m.undecided), ' — ' + '; '.join(und[:6]) if und else ''))
    total = sum(len(v) for v in c.obl.values())
    if len(m.undecided) > max(20, total // 10):
        c.violation('vacuity', 'undecided', '%d evaluations could not be decided: %s' % (len(m.undecided), '; '.join(und[:4])))
    for rule, k in ((R1, 1500), (R2, 400), (R3, 300), (R4, 1200), (R5, 30), (R6, 15)):
        c.floor(rule, k)
    return c.finish(assumptions=["syn parses tokens as its documentation says", "std containers, Option and Result behave as documented"])


def explanation():
    return ('The parser of class, enum and callback declarations (code_parse.rs), the class validation (types.rs), the registration of classes of the three back ends and the derive checks (extension.rs, python/mod.rs) are '
            'interpreted over token classes: types, paths and arguments are symbols, a declaration body is a sequence of items from a finite alphabet of valid and malformed items. All abstract states the class parser can '
            'reach between two items (the values of its local variables) are explored to a fixpoint, and in each of them every item of the alphabet and the end of the body is judged against an independent statement of the '
            'rules of the declaration language; what an accepted declaration is understood as is compared with what was written. The verdicts are followed at every call site up to a `?` or a return.')


def enum(c, m, src):
    def item(name, p=None, attrs=(), comma=True):
        return [attr(a, doc='d') if a == 'doc' else attr(a) for a in attrs] + [('id', name)] + ([('p', '='), ('path', p)] if p else []) + ([('p', ',')] if comma else [])
    good = [[], [item('A')], [item('A'), item('B', 'En::Bee')], [item('A', 'x::En::A', attrs=['doc']), item('B'), item('C', 'C')]]
    for items in good:
        for der in (None, ['Weird']):
            toks = ([attr('derive', derive=der)] if der else []) + [('id', 'enum'), ('id', 'En'), ('g', '{', Stream([], [list(x) for x in items], 'enum'))]
            r = m.parse_with('parse_foreign_enum', toks)
            txt = 'enum En of %d items%s' % (len(items), ' with a derive' if der else '')
            if r[0] == 'undecided':
                continue
            if c.require(r[0] == 'ok', R2, txt, 'enum', '%s is refused (%s)' % (txt, r[1])):
                names = [strip(x).f['name'].t for x in r[1].f['items'].v]
                want = [[t for t in i if t[0] == 'id'][0][1] for i in items]
                c.require(names == want, R3, txt, 'enum items', '%s: items %s, declared %s' % (txt, names, want))
                paths = ['::'.join(s.f['ident'].t for s in strip(x).f['rust_name'].f['segments'].v) for x in r[1].f['items'].v]
                for i, p in zip(items, paths):
                    d = [t[1] for t in i if t[0] == 'path']
                    if d:
                        c.require(p == d[0], R3, txt + ' ' + d[0], 'enum path', '%s: the Rust name of an item is %s, declared %s' % (txt, p, d[0]))
                for lang in ('cpp', 'java', 'python'):
                    if lang == 'python':
                        continue
                    v = m.extend('extend_foreign_enum', r[1], [])
                    if v[0] == 'undecided':
                        continue
                    if der:
                        c.require(v[0] == 'err', R5, '%s enum derive' % lang, 'enum derive', '%s: an enum with an unknown derive is taken' % lang)
                        v = m.extend('extend_foreign_enum', r[1], [], handlers=der)
                        c.require(v[0] == 'ok' and v[2] == der, R5, '%s enum handler' % lang, 'enum handler', 'the handler of an enum derive is not called exactly once')
                    else:
                        c.require(v[0] == 'ok', R2, '%s enum without derive' % lang, 'enum plain', 'an enum without derives is refused')
                fn = src.fn('generate_enum', FILE['python'])
                if fn and der:
                    it = m.interp()
                    it.file = fn['file']
                    vals = []
                    for p in fn['sig']['inputs']:
                        t = (p.get('ty') or '').replace(' ', '')
                        vals.append(O('cfg', 'cfg') if p['k'] == 'Recv' else r[1] if t.endswith('ForeignEnumInfo') else M() if 'Handlers' in t else O('conv_map', 'conv_map'))
                    n0 = len(m.undecided)
                    v = m.run('generate_enum', lambda: it.call_fn(fn, vals))
                    if v[0] == 'undecided':
                        del m.undecided[n0:]
                    c.require(v[0] == 'err', R5, 'python enum derive', 'python enum derive', 'python: an enum with a derive is taken, the derive is ignored')
    bad = {'unknown attribute of an item': [item('A', attrs=['weird'])], 'derive on an item': [[attr('derive', derive=['X'])] + item('A')],
           'a number as value': [[('id', 'A'), ('p', '='), ('lit', '5'), ('p', ',')]], 'an item with arguments': [[('id', 'A'), ('g', '(', Stream([])), ('p', ',')]],
           'fn item': [[('id', 'fn'), ('path', 'f'), ('g', '(', Stream([])), SEMI]], 'a keyword as name': [[('id', 'fn'), ('p', ',')]]}
    for why, items in bad.items():
        toks = [('id', 'enum'), ('id', 'En'), ('g', '{', Stream([], [list(x) for x in items], 'enum'))]
        r = m.parse_with('parse_foreign_enum', toks)
        c.require(r[0] in ('err', 'undecided'), R1, 'enum with ' + why, 'enum/' + why, 'an enum with %s is taken (%s)' % (why, r[0]))
    for at in (attr('weird'), attr('repr', lst=['u8'])):
        r = m.parse_with('parse_foreign_enum', [at, ('id', 'enum'), ('id', 'En'), ('g', '{', Stream([], [item('A')], 'enum'))])
        c.require(r[0] in ('err', 'undecided'), R5, 'enum attribute ' + at[1].f['text'], 'enum attribute', 'an enum with the attribute #[%s…] is taken (%s)' % (at[1].f['text'], r[0]))


def trait(n):
    return E('Trait', [S('TraitBound', {'path': path(n), 'paren_token': NONE, 'modifier': E('TraitBoundModifier::None'), 'lifetimes': NONE})])


def life(n):
    return E('Lifetime', [O('Lifetime', n, ident=ident(n[1:]))])


def callbacks(c, m):
    def sty(*bounds):
        return ('self_type ' + ' + '.join(b if isinstance(b, str) else '?' for b in bounds) + ';', [('id', 'self_type'), ('dyn', [life(b) if b.startswith("'") else trait(b) for b in bounds]), SEMI], None)

    def fn(name, p, args, ret=None, attrs=(), end=True):
        toks = [attr(a, doc='d') if a == 'doc' else attr(a) for a in attrs] + [('id', name), ('p', '='), ('path', p), ('g', '(', Stream([('arg', mkarg(a)) for a in args]))]
        toks += ([('p', '->'), ('ty', ret)] if ret else []) + ([SEMI] if end else [])
        return ('%s = %s(%s);' % (name, p, ', '.join(args)), toks, (name, p, args, ret))
    items = [
        (sty('Cb'), None), (sty('Cb', 'Send'), None), (sty('Cb', 'Send', 'Sync'), None), (sty('Cb', "'a"), None),
        (sty('Cb', 'Debug'), 'a bound other than Send and Sync'), (sty('Cb', 'Send', 'x::Clone'), 'a bound other than Send and Sync'),
        (fn('on', 'Cb::on', ['&self', 'a']), None), (fn('on2', 'Cb::on2', ['&mut self', 'z', 'b'], U, attrs=['doc']), None), (fn('on3', 'Cb::on3', ['&self', '_']), None),
        (fn('s', 'Cb::s', ['a']), 'a method without self'), (fn('s', 'Cb::s', []), 'a method without self'), (fn('s', 'Cb::s', ['a', '&self']), 'a method whose self is not first'),
        (fn('s', 'Cb::s', ['&self', 'a', 'a']), 'two arguments of the same name'), (fn('s', 'Cb::s', ['&self', 'a', '&self']), 'a second self argument'),
        (fn('s', 'Cb::s', ['&self', '(a,b)']), 'an argument that is a pattern'), (fn('s', 'Cb::s', ['&self'], attrs=['weird']), 'an unknown attribute'), (fn('s', 'Cb::s', ['&self'], end=False), 'no terminator'),
        (('s(&self);', [('id', 's'), ('g', '(', Stream([('arg', recv())])), SEMI], None), 'a method without the name of the Rust function'),
    ]
    for kw in ('callback', 'interface'):
        seqs = [[i] for i in items] + [[items[0], i] for i in items] + [[items[6], i] for i in items] + [[items[1], items[6], i] for i in items]
        for seq in seqs:
            why = None
            selfs = 0
            for (txt, toks, d), bad in seq:
                if bad:
                    why = why or bad
                if txt.startswith('self_type'):
                    selfs += 1
            why = why or ('two self types' if selfs > 1 else 'no self type' if selfs == 0 else None)
            body = Stream([], [copy.deepcopy(i[0][1]) for i in seq], 'cb')
            r = m.parse_with('parse_foreign_interface', [('id', kw), ('id', 'Obs'), ('g', '{', body)])
            txt = '%s Obs { %s }' % (kw, ' '.join(i[0][0] for i in seq))
            if r[0] == 'undecided':
                continue
            if why:
                c.ok(R1, txt)
                if r[0] == 'ok':
                    c.violation(R1, 'callback/' + why, '%s is taken although there is %s' % (txt, why))
                elif r[0] == 'panic':
                    c.violation(R4, 'callback/' + why, '%s (%s): the parser panics (%s)' % (txt, why, r[1]))
                continue
            if not c.require(r[0] == 'ok', R2, txt, 'callback', '%s is refused (%s)' % (txt, r[1])):
                continue
            got = []
            for x in r[1].f['items'].v:
                x = strip(x)
                a = []
                for y in x.f['fn_decl'].f['inputs'].v:
                    y = strip(y)
                    a.append(strip(y.a[1]).n if y.n == 'SelfArg' else strip(y.a[0]).f['name'] if isinstance(strip(y.a[0]).f['name'], str) else strip(y.a[0]).f['name'].t)
                o = strip(x.f['fn_decl'].f['output'])
                got.append((x.f['name'].t, '::'.join(s.f['ident'].t for s in x.f['rust_name'].f['segments'].v), a, strip(o.a[1]).t if o.n == 'Type' else None))
            want = [i[0][2] for i in seq if i[0][2]]
            okk = len(got) == len(want)
            for g, w in zip(got, want):
                okk = okk and g[0] == w[0] and g[1] == w[1] and g[3] == (w[3].t if w[3] else None) and len(g[2]) == len(w[2]) and \
                    all((a in SELFK and b == SELFK[a][0]) or a == b or (a == '_' and b != '_') for a, b in zip(w[2], g[2]))
            c.require(okk, R3, txt, 'callback', '%s is understood as %s' % (txt, got))
    for toks in ([('id', 'trait'), ('id', 'Obs'), ('g', '{', Stream([]))], [attr('derive', derive=['Clone']), ('id', 'callback'), ('id', 'Obs'), ('g', '{', Stream([], [sty('Cb')[1]], 'cb'))],
                 [attr('weird'), ('id', 'callback'), ('id', 'Obs'), ('g', '{', Stream([], [sty('Cb')[1]], 'cb'))]):
        r = m.parse_with('parse_foreign_interface', toks)
        c.require(r[0] in ('err', 'undecided'), R1, 'callback header', 'callback header', 'a callback declaration that starts with %s is taken (%s)' % (toks[0][:2], r[0]))


if __name__ == '__main__':
    run()
