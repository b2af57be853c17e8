"""P27 Python conversions map errors to exceptions and containers elementwise."""
from core import Check, REPO
from pybase import *

R1 = 'an error becomes a raised exception with its message, never a value'
R2 = 'the converted result of the call is what is returned'
R3 = 'optional values, sequences and tuples are converted element by element'
R4 = 'the method gets the converted arguments, in order'
R5 = 'a type that has no conversion is refused'
R6 = 'the message of an error names it and its causes'

RET = ['()', 'i32', 'u64', 'f64', 'bool', 'String', 'En', '&En', '&String', 'Foo', '&Foo', 'Option<i32>', 'Option<String>', 'Option<Foo>', 'Option<En>', 'Vec<i32>', 'Vec<En>', 'Vec<Foo>', 'Vec<Option<En>>',
       '&[En]', '&[i32]', '&[Foo]', '&Vec<En>', 'Result<i32,VfErr>', 'Result<(),VfErr>', 'Result<Foo,VfErr>', 'Result<Option<i32>,VfErr>', 'Result<Vec<Foo>,VfErr>',
       'Result<(i32,Foo),VfErr>', '(i32,u8)', '(i32,i32,i32)', '(En,En)', '(Foo,En,String)', '(Option<En>,Vec<Foo>)', 'Option<Vec<(i32,En)>>', 'Vec<Result<i32,VfErr>>', 'Option<Result<En,VfErr>>', 'Option<()>', 'Vec<Vec<En>>']
ARG = ['i32', '&str', 'String', 'bool', 'En', '&En', '&i32', '&String', 'Option<i32>', 'Option<En>', 'Option<Foo>', 'Vec<i32>', 'Vec<En>', 'Vec<Foo>', '&[i32]', '&[En]', '&[Foo]', '&Vec<En>', '&Vec<Foo>',
       'Option<Vec<En>>', 'Vec<Option<En>>', 'Vec<Option<Foo>>', '&Option<En>', 'Vec<Vec<En>>', '&[Option<Foo>]']
NOARG = ['&mut i32', '&mut [i32]', '&mut En', 'VfErr', '&VfErr', 'Vec<VfErr>', 'Option<VfErr>', '*const i32', 'char']
NORET = ['VfErr', 'Vec<VfErr>', 'Option<VfErr>', '*const i32', 'Result<VfErr,VfErr>', '(i32,VfErr)']
PRIM = {'bool', 'i8', 'i16', 'i32', 'i64', 'isize', 'u8', 'u16', 'u32', 'u64', 'usize', 'f32', 'f64', 'String', '&str'}


class No(Exception):
    pass


class Conv:
    """is a value the conversion of another at a type?"""

    def __init__(self, it, p, ret):
        self.it, self.p, self.ret = it, p, ret

    def discr(self, src):
        for k, v in self.p.facts.items():
            if k[:2] == ('fn', 'discr') and self.same(k[2], src) and isinstance(v, int):
                return v
        return None

    def same(self, a, b):
        a, b = self.core(a), self.core(b)
        return a == b

    def core(self, v):
        """without references and clones, at any depth"""
        v = peel(v)
        if isinstance(v, tuple) and v[:1] == ('clone',):
            return self.core(v[2])
        if isinstance(v, tuple) and v and v[0] in ('fld', 'as'):
            return (v[0], self.core(v[1])) + v[2:]
        return v

    def need(self, ok, msg):
        if not ok:
            raise No(msg)

    def conv(self, ty, out, src):
        ty = nows(ty)
        if ty in PRIM:
            return self.need(self.same(out, src), '%s is not %s' % (show(out)[:150], show(src)[:100]))
        if ty == '()':
            return self.need(callname(peel(out)) == 'None', 'the result is %s, not None' % show(out)[:150])
        if ty == 'En':
            if self.ret:
                v = peel(out)
                while isinstance(v, tuple) and v[:2] == ('fn', 'cast'):
                    self.need(v[3] not in ('u8', 'i8', 'u16', 'i16', 'bool', 'char'), '%s loses the upper part of the number' % show(out)[:150])
                    v = v[-1]
                return self.need(isinstance(v, tuple) and v[:2] == ('fn', 'discr') and self.same(v[2], src), '%s is not the number of %s' % (show(out)[:150], show(src)[:100]))
            x = peel(payload(peel(out), 'Ok') or ())
            return self.need(callname(x) == 'from_u32' and len(x[3]) == 2 and self.same(x[3][1], src), '%s is not the variant of %s' % (show(out)[:150], show(src)[:100]))
        if ty == 'Foo':
            if self.ret:
                x = peel(payload(peel(out), 'Ok') or ())
                self.need(callname(x) == 'create_instance', '%s is not a new object' % show(out)[:150])
                y = peel(x[3][1])
                self.need(fullname(y) == 'Mutex::new', 'the object is wrapped as %s' % show(y)[:100])
                return self.need(self.same(y[3][0], src), 'the new object is made of %s, not of %s' % (show(y[3][0])[:150], show(src)[:100]))
            v = out
            o = []
            while True:
                v = peel(v)
                if isinstance(v, tuple) and v[:1] == ('clone',):
                    v = v[2]
                elif payload(v, 'Ok') is not None:
                    v = payload(v, 'Ok')
                elif fullname(v) == 'Mutex::lock':
                    v = v[3][0]
                else:
                    break
            return self.need(callname(v) == 'rust_instance' and self.same(v[3][0], src), '%s is not the object of %s' % (show(out)[:150], show(src)[:100]))
        g = generic(ty, 'Option')
        if g:
            d = self.discr(src)
            if d is None:
                return self.need(self.same(out, src) and nows(g[0]) in PRIM, 'None or Some of %s is not decided' % show(src)[:100])
            if d == 0:
                return self.need(agg(peel(out), 'None') is not None, 'None becomes %s' % show(out)[:150])
            o = agg(peel(out), 'Some')
            self.need(o is not None, 'Some becomes %s' % show(out)[:150])
            return self.conv(g[0], o[0], ('fld', ('as', src, 'Some'), 0))
        g = generic(ty, 'Result')
        if g:
            self.need(self.discr(src) == 0, 'the value of %s is used where it can be an error' % show(src)[:100])
            return self.conv(g[0], out, ('fld', ('as', src, 'Ok'), 0))
        g = generic(ty, 'Vec') or (ty.startswith('&[') and [ty[2:-1]]) or (ty.startswith('[') and [ty[1:-1]])
        if g:
            return self.seq(g[0], out, src)
        if ty.startswith('('):
            o = agg(peel(out), None) or (dict(out[3]) if isinstance(out, tuple) and out[:1] == ('agg',) else None)
            ts = args_of(ty[1:-1])
            self.need(o is not None and len(o) == len(ts), '%s is no tuple of %d' % (show(out)[:100], len(ts)))
            for i, t in enumerate(ts):
                self.conv(t, o[i], ('fld', src, i))
            return
        if ty.startswith('&'):
            return self.conv(ty[1:], out, src)
        raise No('unknown type ' + ty)

    def seq(self, ty, out, src):
        v = peel(out)
        if self.same(v, src) and nows(ty) in PRIM:
            return
        if payload(v, 'Ok') is not None:
            v = peel(payload(v, 'Ok'))
        self.need(callname(v) == 'collect', '%s is not collected from the elements' % show(out)[:150])
        v = peel(v[3][0])
        fns = []
        while isinstance(v, tuple) and v[:1] == ('call',) and callname(v) in ('map', 'cloned', 'copied', 'into_iter', 'iter', 'by_ref'):
            if callname(v) == 'map':
                fns.append(v[3][1])
            v = peel(v[3][0])
        self.need(self.same(v, src), 'the elements come from %s, not from %s' % (show(v)[:200], show(src)[:100]))
        if not fns:
            return self.need(nows(ty) in PRIM, 'the elements are not converted')
        self.need(len(fns) == 1, 'the elements are mapped twice')
        fn = fns[0]
        self.need(isinstance(fn, tuple) and fn[:1] == ('agg',) and fn[1].startswith('{closure'), 'unknown function of the elements')
        f = self.it.g.closure_of_type(fn[1])
        self.need(f is not None and len(f.params) == 2, 'unknown function of the elements')
        n, el = 0, ('p', 'elem')
        for p in self.it.run(f, [('p', 'env'), el]):
            q = Conv(self.it, p, self.ret)
            o = agg(p.ret, 'Ok')
            if o is not None:
                n += 1
                q.conv(ty, o[0], el)
                q.unconsumed()
            else:
                q.failure(p.ret, None)
        self.need(n > 0, 'no element is converted')

    def unconsumed(self):
        """no error known on this path is dropped"""
        for k, v in self.p.facts.items():
            if k[:2] == ('fn', 'discr') and v == 1 and callname(peel(k[2])) in ('create_instance', 'from_u32', 'collect', 'lock'):
                raise No('the failure of %s is dropped' % show(k[2])[:150])

    def failure(self, ret, src):
        """Err(..) of a path: the failure of a conversion, or the exception for an error of the method"""
        o = agg(ret, 'Err')
        e = peel(o[0]) if o is not None else ret
        x = payload(e, 'Err')
        if x is not None:
            return self.need(callname(peel(x)) in ('create_instance', 'from_u32', 'collect'), 'the failure %s is not one of a conversion' % show(x)[:150])
        self.need(fullname(e) == 'PyErr::new' and len(e[3]) == 2, 'an error is raised as %s' % show(e)[:200])
        self.need('py_error::Error' in self.full(e), 'an error is raised as %s' % self.full(e)[:120])
        m = peel(e[3][1])
        self.need(callname(m) == 'swig_collect_error_message', 'the message is %s' % show(m)[:150])
        y = payload(self.core(m[3][0]), 'Err')
        self.need(y is not None and self.discr(y) == 1, 'the message is that of %s' % show(m[3][0])[:150])

    def full(self, call):
        for e in self.p.events:
            if e[0] == 'call' and len(e) > 4 and e[4] == call[1]:
                return e[3]
        return ''


def message(c):
    """the function that makes the message of an exception"""
    import os
    text = open(os.path.join(REPO, 'macroslib/src/python/python-include.rs')).read()
    text = re.sub(r'(?m)^use cpython.*$', '', text)
    text = re.sub(r'#!\[.*?\]', '', text)
    g, msg = rown.compile_mir(text, name='pyinc')
    fs = [f for n, f in (g.fns if g else {}).items() if last_seg(n) == 'swig_collect_error_message']
    if not fs:
        return c.violation('analysis', 'swig_collect_error_message', 'the function that makes messages cannot be read: %s' % (msg or '')[:400])
    f = fs[0]
    it = rown.Interp(g, inline=lambda h: False)
    try:
        ps = it.run(f)
    except Unsupported as e:
        return c.violation('analysis', 'swig_collect_error_message', str(e))
    for p in ps:
        calls = [e for e in p.events if e[0] == 'call']
        src = [e for e in calls if e[1].split('::')[-1] == 'source']
        rec = [e for e in calls if e[1].split('::')[-1] == 'swig_collect_error_message']
        shown = [e for e in calls if re.search(r'(new_display|new_debug|to_string)$', e[1])] + [e for e in p.events if e[0] == 'fn' and 'to_string' in str(e)]
        txt = ' '.join(show(e[2][0]) for e in shown if e[2]) + ' ' + show(p.ret)
        own = any(e[2] and show(peel(e[2][0])) == 'error' for e in shown)
        whole = all(show(peel(e[2][0])) in show(p.ret) for e in shown if e[2])
        some = [v for k, v in p.facts.items() if k[:2] == ('fn', 'discr') and src and k[2][:1] == ('call',) and k[2][1] == src[0][4]]
        if some == [1]:
            c.require(len(rec) == 1 and payload(peel(rec[0][2][0]), 'Some') is not None and own and whole and 'swig_collect_error_message(' in show(p.ret), R6, 'an error with a cause', 'cause', 'the message of an error with a cause does not contain the error and its cause: %s' % txt[:300])
        else:
            c.require(len(src) == 1 and some == [0] and not rec and own and whole, R6, 'an error without a cause', 'plain', 'the message of an error is not the text of the error: %s' % txt[:300])
    c.floor(R6, 2)


def run():
    c = Check('P27', 'Python method glue rendered from the templates for every kind of type; type-checked and followed on MIR paths')
    src = rast.Source()
    ms, what = [], {}

    def add(n, kind, args, ret, decl):
        ms.append((method('Foo::' + n, kind, args, ret, 'Rptr' if kind == 'Method' else None), decl))
    st = lambda t: t.replace('&', "&'static ")
    for i, t in enumerate(RET):
        add('r%d' % i, 'StaticMethod', [], None if t == '()' else t, '() -> %s' % st(t))
        what['r%d' % i] = ('ret', t)
    for i, t in enumerate(ARG):
        add('a%d' % i, 'StaticMethod', [('x', t)], 'i32', '(x: %s) -> i32' % t)
        what['a%d' % i] = ('arg', t)
    for i, t in enumerate(NORET):
        add('nr%d' % i, 'StaticMethod', [], t, '() -> %s' % t)
        what['nr%d' % i] = ('noret', t)
    for i, t in enumerate(NOARG):
        add('na%d' % i, 'StaticMethod', [('x', t)], 'i32', '(x: %s) -> i32' % t)
        what['na%d' % i] = ('noarg', t)
    add('m0', 'Method', [('a', 'i32'), ('b', 'i32'), ('d', 'Vec<En>'), ('e', 'En')], 'Result<Option<i32>,VfErr>', '(&self, a: i32, b: i32, d: Vec<En>, e: En) -> Result<Option<i32>, VfErr>')
    add('m1', 'StaticMethod', [('a', 'En'), ('b', 'Option<i32>'), ('d', 'i32')], 'i32', '(a: En, b: Option<i32>, d: i32) -> i32')
    add('m2', 'Constructor', [('a', 'i32'), ('b', 'i32')], 'Foo', '(a: i32, b: i32) -> Foo')
    add('m3', 'Constructor', [('a', 'i32')], 'Result<Foo,VfErr>', '(a: i32) -> Result<Foo, VfErr>')
    what.update({'m0': ('args', ['self', 'i32', 'i32', 'Vec<En>', 'En'], ['self', 'a', 'b', 'd', 'e'], 'Result<Option<i32>,VfErr>'), 'm1': ('args', ['En', 'Option<i32>', 'i32'], ['a', 'b', 'd'], 'i32'),
                 'm2': ('args', ['i32', 'i32'], ['a', 'b'], 'Foo'), 'm3': ('args', ['i32'], ['a'], 'Result<Foo,VfErr>')})
    S, it, fns, msg = load(src, 'Foo', ('Clone',), ms, 'p27')
    if it is None:
        c.violation('glue', 'conversions', 'the generated glue does not fit the declared types: %s' % msg[:2500])
        return c.finish([])
    c.analysed('methods rendered', len(S.text))
    for n, w in what.items():
        t = w[1] if isinstance(w[1], str) else ', '.join(w[1])
        desc = {'ret': 'a result of type %s', 'arg': 'an argument of type %s', 'noret': 'a result of type %s', 'noarg': 'an argument of type %s', 'args': 'a method of (%s)'}[w[0]] % t
        if w[0] in ('noret', 'noarg'):
            c.require(n in S.refused, R5, desc, n + t, '%s is accepted' % desc)
            continue
        if n in S.refused:
            c.violation('refused', desc, '%s is refused though it has a conversion' % desc)
            continue
        try:
            ps = it.run(fns[n])
        except Unsupported as e:
            c.violation('analysis', desc, '%s: %s' % (desc, e))
            continue
        order = [x.split(':')[0].strip() for x in S.params[n] if x.replace(' ', '') not in ('&self', '_cls')]
        have = [x for x in (['x'] if w[0] == 'arg' else [] if w[0] == 'ret' else w[2]) if x != 'self']
        c.require(order == have, R4, 'parameters of ' + desc, desc + '/params', '%s: the parameters seen from Python are (%s), not (%s)' % (desc, ', '.join(order), ', '.join(have)))
        ok = 0
        rt = w[1] if w[0] == 'ret' else 'i32' if w[0] == 'arg' else w[3]
        for p in ps:
            us = ucalls(p, n)
            q = Conv(it, p, True)
            rule = R2
            try:
                good = agg(p.ret, 'Ok') is not None
                if good:
                    q.need(len(us) == 1, 'the method is called %d times' % len(us))
                    q.unconsumed()
                q.need(len(us) <= 1, 'the method is called %d times' % len(us))
                if us:
                    rule = R4
                    d = Conv(it, p, False)
                    names = ['x'] if w[0] == 'arg' else [] if w[0] == 'ret' else w[2]
                    tys = [w[1]] if w[0] == 'arg' else [] if w[0] == 'ret' else w[1]
                    q.need(len(us[0][2]) == len(names), 'the method gets %d arguments' % len(us[0][2]))
                    for a, an, ty in zip(us[0][2], names, tys):
                        if ty == 'self':
                            q.need(ops(a)[-1] == 'instance of self', 'the receiver is %s' % show(a)[:100])
                        else:
                            d.conv(ty, a, ('p', an))
                    rule = R1 if 'Result' in rt else R3 if re.search(r'Option|Vec|\[|\(.', rt) else R2
                    u = ('call', us[0][4], us[0][1], tuple(us[0][2]))
                    if good:
                        ok += 1
                        q.conv(rt, agg(p.ret, 'Ok')[0], u)
                    else:
                        q.failure(p.ret, u)
                else:
                    q.failure(p.ret, None)
                c.ok(rule if w[0] != 'arg' else R3 if re.search(r'Option|Vec|\[', t) else R4, desc)
            except No as e:
                c.violation(rule, desc, '%s: %s' % (desc, e))
            except Unsupported as e:
                c.violation('analysis', desc, '%s: %s' % (desc, e))
        if not ok:
            c.violation(R2, desc + '/never', '%s: no path returns a value' % desc)
    message(c)
    for r, k in ((R1, 15), (R2, 10), (R3, 60), (R4, 20), (R5, 15)):
        c.floor(r, k)
    return c.finish(['the python binding behaves as documented', 'std iterators, Option and Result behave as documented'])
