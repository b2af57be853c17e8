import core, mir
from mir import *
_c = None


def crate():
    global _c
    if _c is None:
        _c = mir.load(core.REPO, core.CACHE)
    return _c[0]


def unparsed():
    crate()
    return _c[1]


def root_fn(name):
    """name without closures"""
    return re.sub(r'(::\{closure#\d+\})+$', '', name)


def fn_label(f):
    """stable display name of a function: impl target and name, no positions"""
    n = root_fn(f.name.split('#')[0] if not f.name.endswith('}') else f.name)
    base = last_seg(n)
    imp = None
    c = crate()
    if IMPLRE.search(n):
        imp = c._impl_of(n)
    if imp and imp[1]:
        return '%s%s::%s' % (imp[1], (' as ' + imp[0]) if imp[0] else '', base)
    mod = n.split('::')
    return '::'.join(mod[-2:])


def callers():
    """callee Fn name -> set of caller root names (closures folded into their parent)"""
    c = crate()
    if hasattr(c, '_callers'):
        return c._callers
    r = {}
    for n, f in c.fns.items():
        for b, t in f.calls():
            k = c.resolve(t.callee)
            if k is not None:
                r.setdefault(root_fn(k.name), set()).add(root_fn(n))
            for a in t.args:
                # function items passed as values
                if a.place is None and a.const:
                    k = c.resolve(a.const) if re.match(r'^[\w:<>]+$', a.const) else None
                    if k is not None:
                        r.setdefault(root_fn(k.name), set()).add(root_fn(n))
    c._callers = r
    return r


def owned_by(fname, owners, seen=None):
    """True if function fname is one of `owners` (predicate) or is called only from functions that are"""
    fname = root_fn(fname)
    f = crate().fns.get(fname)
    if owners(fname):
        return True
    seen = seen or set()
    if fname in seen:
        return True
    seen = seen | {fname}
    cs = callers().get(fname, set())
    if not cs:
        return False
    return all(owned_by(x, owners, seen) for x in cs)
