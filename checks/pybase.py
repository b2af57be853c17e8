"""Python glue of sample classes, compiled against stand-ins of the python binding and read as paths."""
import re
import rast, rown
from rown import show, Unsupported
from pymodel import *
from mir import last_seg

INL = lambda h: bool(re.fullmatch(r'(?:\w+::)*(?:rust_instance|create_instance)', h.name)) and h.name.split('::')[-2:-1] != ['Foo']
_glue = {}


def load(src, ctor, derive, methods, tag):
    """(Sample, Interp, {method: fn}, message)"""
    S = Sample(src, ctor, derive, methods)
    if S.rejected:
        return S, None, {}, 'the class is refused'
    if S.open:
        return S, None, {}, 'the text of %s is not determined by the declaration: %s' % (S.open[0][0], S.open[0][1][:300])
    c = S.crate()
    if c is None:
        return S, None, {}, 'the text of the class is not of the expected form: %s' % (S.field[:200])
    g, msg = rown.compile_mir(c, name='py_' + tag)
    if g is None:
        return S, None, {}, msg
    it = rown.Interp(g, inline=INL)
    fns = {last_seg(n)[3:]: f for n, f in g.fns.items() if last_seg(n).startswith('vf_') and '{' not in last_seg(n)}
    return S, it, fns, None


def peel(v):
    """without references, dereferences and casts of pointers"""
    while isinstance(v, tuple) and v:
        if v[0] == 'fn' and v[1] in ('deref', 'deref_mut', 'as_ref', 'borrow', 'unbox', 'boxptr'):
            v = v[2]
        elif v[0] in ('deref', 'addr', 'boxptr') and len(v) == 2:
            v = v[1]
        elif v[0] == 'box':
            v = v[1]
        elif v[0] == 'call' and re.search(r'<(?:vfsync::)?Arc\b.* as (?:AsRef|Borrow|Deref)\b.*>::(?:as_ref|borrow|deref)$', v[2]) and len(v[3]) == 1:
            v = v[3][0]
        else:
            break
    return v


def is_call(v, name):
    return isinstance(v, tuple) and v[:1] == ('call',) and last_seg(re.sub(r'<.*?>::', '', v[2])) == name and True


def callname(v):
    return v[2].split('::')[-1] if isinstance(v, tuple) and v[:1] == ('call',) else None


def fullname(v):
    return '::'.join(v[2].split('::')[-2:]) if isinstance(v, tuple) and v[:1] == ('call',) else None


def payload(v, variant):
    """x of `(x as variant).0`"""
    if isinstance(v, tuple) and v[:1] == ('fld',) and v[2] == 0 and isinstance(v[1], tuple) and v[1][:1] == ('as',) and v[1][2] == variant:
        return v[1][1]
    return None


def agg(v, name):
    """fields of the aggregate `..::name`"""
    if isinstance(v, tuple) and v[:1] == ('agg',) and v[2] == name:
        return dict(v[3])
    return None


def ops(v):
    """operations between a value and where it comes from, outermost first"""
    out = []
    while True:
        v = peel(v)
        if isinstance(v, tuple) and v[:1] == ('clone',):
            out.append('clone')
            v = v[2]
        elif payload(v, 'Ok') is not None and fullname(peel(payload(v, 'Ok'))) == 'Mutex::lock':
            out.append('lock')
            v = peel(payload(v, 'Ok'))[3][0]
        elif payload(v, 'Ok') is not None:
            v = payload(v, 'Ok')
        elif callname(v) == 'rust_instance':
            return out + ['instance of ' + show(peel(v[3][0]))]
        elif fullname(v) in ('Mutex::new', 'Arc::new', 'Box::new') and len(v[3]) == 1:
            out.append(fullname(v))
            v = v[3][0]
        elif fullname(v) and fullname(v).startswith('Foo::') and not re.search(r'::(rust_instance|create_instance)$', v[2]):
            return out + ['result']
        else:
            return out + [show(v)]


def ucalls(p, name):
    return [e for e in p.events if e[0] == 'call' and e[1].split('::')[-2:] == ['Foo', name]]
