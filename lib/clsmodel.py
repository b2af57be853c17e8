"""Text of generated C++ class wrappers for sample class declarations: templates of cpp/fclass.rs (tmpl.py) rendered by a model."""
from tmpl import *
from model import *
import rast

_ev = {}


def evaluated(src):
    if id(src) not in _ev:
        ev = Eval(src, inline_files=lambda f: f.startswith('cpp/') or f in ('typemap/utils.rs',))
        fn = src.fn('do_generate', 'cpp/fclass.rs')
        ev.run(fn)
        _ev[id(src)] = ev
    return _ev[id(src)]


def values(derive, methods, separate=False, name='Foo', ns='vfns'):
    """methods: [(tag, variant, name, dict of extra keys)]"""
    V = {'class.name': name, 'ctx.cfg.namespace_name': ns, 'class.doc_comments': [], 'req_includes': [], 'ctx.cfg.separate_impl_headers': separate,
         'class.foreign_code': '', '(ctx.target_pointer_width / 8)': '8',
         'class.methods': [m[0] for m in methods], 'class.derive_list': ['d%d' % i for i in range(len(derive))],
         'class.copy_derived()': 'Copy' in derive, 'class.smart_ptr_copy_derived()': 'SmartPtrCopy' in derive,
         'class.clone_derived()': 'Clone' in derive}
    for i, d in enumerate(derive):
        V['class.derive_list[d%d]' % i] = d
    for tag, variant, mname, extra in methods:
        p = 'class.methods[%s].' % tag
        V[p + 'variant'] = ('variant', variant)
        V[p + 'access'] = ('variant', extra.get('access', 'Public'))
        V[p + 'short_name()'] = mname
        V[p + 'is_dummy_constructor()'] = extra.get('dummy', False)
        V[p + 'rust_id.segments.last()'] = V[p + 'rust_id.segments.last()?.ident'] = extra.get('rust_id', mname)
        V[p + 'variant~Method.0.is_read_only()'] = extra.get('ro', True)
        V[p + 'variant~Method.0'] = ('variant', extra.get('self', 'Rptr'))
        q = 'methods_sign[%s].' % tag
        V[q + 'output.name'] = extra.get('out_c', 'void')
        V[q + 'output.base.name'] = extra.get('out_c', 'void')
        if 'out_cpp' in extra:
            V[q + 'output.cpp_converter'] = 'conv'
            V[q + 'output.cpp_converter?.typename'] = extra['out_cpp']
        V.update(extra.get('keys', {}))
    return V


RULES = [(r'class\.methods\[\w+\]\.doc_comments', []), (r'methods_sign\[\w+\]\.input', []), (r'class\.methods\[\w+\]\.fn_decl\.inputs', ['self']),
         (r'new_unique_name\(.*, "(\w+)"\)', lambda m: m.group(1)),
         (r'methods_sign\[\w+\]\.output\.cpp_converter\?\.converter\.generate_code_with_subst_func\(fn\)\?', 'Foo{ret}'),
         (r'methods_sign\[\w+\]\.output\.cpp_converter\?\.converter\.has_param\(.*\)', False),
         (r'methods_sign\[\w+\]\.output\.cpp_converter', ('variant', 'None')),
         (r'is\(carried.*', True), (r'eq\(carried.*', False)]


def files(src, derive, methods, limit=8, **kw):
    """[(path, text, assignment of the conditions the shape leaves open)], unknown keys"""
    ev = evaluated(src)
    m = Model(values(derive, methods, **kw), RULES)
    R = Render(m.decide, m.hole, m.items)
    out = []
    for cc, x in flat(ev.store[('s', '$files')]):
        p, b = x.f['0'], x.f['1']
        ok = True
        for c in cc:
            if c[0] != 'for' and m.decide(c[0]) is not None and m.decide(c[0]) != c[1]:
                ok = False
        if not ok:
            continue
        for a, t in R.all(b, limit):
            out.append((R.text(p), t, a))
    return out, m


def expand(l, R, env=(), limit=64):
    """items of a sequence under the model of R: [(assignment, value, env)], repetitions unrolled, undecided conditions split"""
    def rec(l, env, asg):
        # all ways to lay out l: list of (asg, [(value, env)])
        res = [(asg, [])]
        for x in l.p:
            nxt = []
            for a, got in res:
                if x[0] == 'i':
                    nxt.append((a, got + [(x[1], env)]))
                elif x[0] == 'a':
                    c = R.key(x[1], env)
                    v = R.decide(c)
                    if v is None:
                        v = a.get(c)
                    for b in ([v] if v is not None else [False, True]):
                        a2 = a if v is not None else dict(a, **{c: b})
                        for a3, g in rec(x[2] if b else x[3], env, a2):
                            nxt.append((a3, got + g))
                elif x[0] == 'r':
                    cur = [(a, got)]
                    for tag in R.items(R.key(x[1], env)):
                        cur = [(a3, g0 + g) for a2, g0 in cur for a3, g in rec(x[3], env + ((x[2], tag),), a2)]
                    nxt += cur
                if len(nxt) > limit:
                    raise Undecided('too many variants')
            res = nxt
        return res
    return rec(l, env, {})


def texts(l, R, limit=256):
    """[(assignment, [text])] of a sequence of templates"""
    out = []
    for asg, items in expand(l, R, limit=limit):
        work = [dict(asg)]
        while work:
            R.extra = work.pop()
            ts = []
            try:
                for v, env in items:
                    if isinstance(v, Text):
                        ts.append(R.text(v, env))
                    elif isinstance(v, Sym):
                        ts.append(R.hole(R.key(v.key, env)))
                    else:
                        ts.append(R.text(to_text(v), env))
                out.append((dict(R.extra), ts))
            except Undecided as u:
                if len(work) + len(out) > limit:
                    raise
                work.append(dict(R.extra, **{u.c: False}))
                work.append(dict(R.extra, **{u.c: True}))
    return out
