"""MIR inlining of crate-local callees and closures, and path queries on the result."""
import re
from mir import *


def clone_place(p, off):
    if p is None:
        return None
    proj = []
    for x in p.proj:
        if x[0] == 'index':
            m = re.match(r'_(\d+)$', x[1])
            proj.append(('index', '_%d' % (int(m.group(1)) + off)) if m else x)
        else:
            proj.append(x)
    return Place(p.base + off, proj)


def clone_op(o, off):
    return Op(o.kind, clone_place(o.place, off), o.const)


class Inliner:
    def __init__(self, crate, allow=None, max_depth=5, max_blocks=6000, ext_closures=False, desugar=False):
        self.desugar = desugar
        self.c, self.allow, self.max_depth, self.max_blocks = crate, allow, max_depth, max_blocks
        self.ext_closures = ext_closures
        self.inlined = set()

    def inline(self, f):
        g = Fn(f.name, list(f.params), f.ret)
        g.types = dict(f.types)
        g.debug = dict(f.debug)
        g.file, g.line = f.file, f.line
        g.origin = {}
        g.nlocals = max(g.types) + 1
        g.nblocks = max(f.blocks) + 1
        g.spliced = set()
        for b in f.live():
            g.blocks[b] = f.blocks[b]
            g.origin[b] = f
        work = [(b, 0, (f.name,)) for b in f.live()]
        while work:
            b, depth, stack = work.pop()
            if depth >= self.max_depth or len(g.blocks) > self.max_blocks:
                continue
            ss, t = g.blocks[b]
            if t.kind != 'call' or not t.targets:
                # a diverging call may still be inlined, but adds nothing for our queries
                continue
            callee, args = self.target(g, t)
            if callee is None and self.desugar and b not in g.spliced and self.combinator(g, b, ss, t, depth, stack, work):
                continue
            if callee is None and self.ext_closures and b not in g.spliced:
                b = self.splice(g, b, ss, t, depth, stack, work)
                continue
            if callee is None or callee.name in stack:
                continue
            if self.allow and not self.allow(callee, t):
                continue
            self.inlined.add(callee.name)
            off = g.nlocals
            boff = g.nblocks
            for l, ty in callee.types.items():
                g.types[l + off] = ty
            for l, n in callee.debug.items():
                g.debug[l + off] = n
            g.nlocals += max(callee.types) + 1
            g.nblocks += max(callee.blocks) + 1
            cont = t.targets[0][1]
            entry = list(ss)
            for p, a in zip(callee.params, args):
                entry.append(Stmt(Place(p + off), a if isinstance(a, RV) else RV('use', [a]), t.span, '_%d = arg' % (p + off)))
            nt = Term('goto', 'goto (inlined %s)' % callee.short(), t.span)
            nt.targets = [('goto', boff + 0)]
            g.blocks[b] = (entry, nt)
            self.copy_in(g, callee, off, boff, t.dest, cont, t.span, depth, stack, work)
        return g

    def splice(self, g, b, ss, t, depth, stack, work):
        """an external function that is given a closure of the crate: the closure may run (once per
        element / when absent / ...) before the call returns; its parameters stand for args[0]"""
        g.spliced.add(b)
        for a in t.args:
            cl = self.closure_of(g, a)
            if cl is None or cl.name in stack or len(g.blocks) > self.max_blocks:
                continue
            if self.allow and not self.allow(cl, t):
                continue
            self.inlined.add(cl.name)
            callb = g.nblocks
            ent = callb + 1
            off, boff = g.nlocals, callb + 2
            for l, ty in cl.types.items():
                g.types[l + off] = ty
            for l, n in cl.debug.items():
                g.debug[l + off] = n
            g.nlocals += max(cl.types) + 1
            g.nblocks += max(cl.blocks) + 3
            sw = Term('switch', 'switch (closure runs?)', t.span)
            sw.op = Op('const', None, None)
            sw.targets = [('0', callb), ('otherwise', ent)]
            g.blocks[b] = (ss, sw)
            g.blocks[callb] = ([], t)
            g.origin[callb] = g.origin[b]
            g.spliced.add(callb)
            byref = cl.types[cl.params[0]].startswith('&') and a.place is not None and not g.types.get(a.place.base, '').startswith('&')
            es = [Stmt(Place(cl.params[0] + off), RV('refmut' if byref else 'use', [a]), t.span, 'closure env')]
            a0 = t.args[0]
            for q in cl.params[1:]:
                if a0 is not a:
                    es.append(Stmt(Place(q + off), RV('use', [a0]), t.span, 'closure param of element'))
            go = Term('goto', 'goto closure', t.span)
            go.targets = [('goto', boff + 0)]
            g.blocks[ent] = (es, go)
            g.origin[ent] = g.origin[b]
            self.copy_in(g, cl, off, boff, Place(off), callb, t.span, depth, stack, work)
            break
        return b

    # what the combinators of Option and Result do: (variant, action)...
    # call: payload given to the closure; val: the value of the closure is the result; wrap X: it is wrapped in X; keep: the value itself; arg: the plain argument; false/true
    COMB = {
        ('Option', 'map'): (('Some', 'wrap', 'Some'), ('None', 'none')),
        ('Option', 'map_or'): (('Some', 'val'), ('None', 'arg')),
        ('Option', 'and_then'): (('Some', 'val'), ('None', 'none')),
        ('Option', 'unwrap_or_else'): (('Some', 'payload'), ('None', 'val0')),
        ('Option', 'is_some_and'): (('Some', 'val'), ('None', 'false')),
        ('Option', 'is_none_or'): (('Some', 'val'), ('None', 'true')),
        ('Option', 'ok_or_else'): (('Some', 'payload', 'Ok'), ('None', 'val0', 'Err')),
        ('Option', 'or_else'): (('Some', 'payload', 'Some'), ('None', 'val0')),
        ('Result', 'map'): (('Ok', 'wrap', 'Ok'), ('Err', 'payload', 'Err')),
        ('Result', 'map_err'): (('Err', 'wrap', 'Err'), ('Ok', 'payload', 'Ok')),
        ('Result', 'and_then'): (('Ok', 'val'), ('Err', 'payload', 'Err')),
        ('Result', 'unwrap_or_else'): (('Ok', 'payload'), ('Err', 'val')),
        ('Result', 'or_else'): (('Err', 'val'), ('Ok', 'payload', 'Ok')),
        ('Result', 'map_or'): (('Ok', 'val'), ('Err', 'arg')),
        ('Result', 'is_ok_and'): (('Ok', 'val'), ('Err', 'false')),
        ('Result', 'is_err_and'): (('Err', 'val'), ('Ok', 'false')),
    }
    VIDX = {'None': '0', 'Some': '1', 'Ok': '0', 'Err': '1'}

    def combinator(self, g, b, ss, t, depth, stack, work):
        m = re.search(r'(?:^|::)(Option|Result)::(\w+)$', strip_generics(t.callee))
        spec = self.COMB.get(m.groups()) if m else None
        if spec is None or not t.targets or not t.args or t.args[0].place is None or len(g.blocks) > self.max_blocks:
            return False
        cl = self.closure_of(g, t.args[-1])
        if cl is None or cl.name in stack or (self.allow and not self.allow(cl, t)):
            return False
        self.inlined.add(cl.name)
        a0 = t.args[0].place
        cont = t.targets[0][1]
        dl = g.nlocals
        g.types[dl] = 'isize'
        g.nlocals += 1
        sw = Term('switch', 'switch (%s)' % strip_generics(t.callee), t.span)
        sw.op = Op('move', Place(dl))
        sw.targets = []
        g.blocks[b] = (list(ss) + [Stmt(Place(dl), RV('discr', [Op('copy', a0)]), t.span, 'discriminant (%s)' % t.callee)], sw)
        clarg = t.args[-1]
        enum = m.group(1)
        for row in spec:
            var, act = row[0], row[1]
            wrap = row[2] if len(row) > 2 else None
            nb = g.nblocks
            g.nblocks += 1
            sw.targets.append((self.VIDX[var], nb))
            g.origin[nb] = g.origin[b]
            payload = Op('move', Place(a0.base, a0.proj + (('variant', var), ('field', 0, '?'))))
            go = Term('goto', 'goto', t.span)
            go.targets = [('goto', cont)]
            if act in ('payload', 'none', 'arg', 'true', 'false'):
                if act == 'none':
                    rv = RV('agg', [], 'Option::None')
                elif act == 'arg':
                    rv = RV('use', [t.args[1]])
                elif act in ('true', 'false'):
                    rv = RV('use', [Op('const', None, act)])
                elif wrap:
                    rv = RV('agg', [payload], ('Option::' if wrap in ('Some', 'None') else 'std::result::Result::') + wrap)
                else:
                    rv = RV('use', [payload])
                g.blocks[nb] = ([Stmt(t.dest, rv, t.span, 'combinator arm')], go)
                continue
            # the closure is called
            off, boff = g.nlocals, g.nblocks
            for l, ty in cl.types.items():
                g.types[l + off] = ty
            for l, n in cl.debug.items():
                g.debug[l + off] = n
            g.nlocals += max(cl.types) + 1
            g.nblocks += max(cl.blocks) + 2
            endb = g.nblocks - 1
            byref = cl.types[cl.params[0]].startswith('&') and clarg.place is not None and not g.types.get(clarg.place.base, '').startswith('&')
            es = [Stmt(Place(cl.params[0] + off), RV('refmut' if byref else 'use', [clarg]), t.span, 'closure env')]
            if act != 'val0':
                for q in cl.params[1:]:
                    es.append(Stmt(Place(q + off), RV('use', [payload]), t.span, 'closure param'))
            g2 = Term('goto', 'goto closure', t.span)
            g2.targets = [('goto', boff + 0)]
            g.blocks[nb] = (es, g2)
            w = wrap
            rv = RV('agg', [Op('move', Place(off))], ('Option::' if w == 'Some' else 'std::result::Result::') + w) if w else RV('use', [Op('move', Place(off))])
            g.blocks[endb] = ([Stmt(t.dest, rv, t.span, 'combinator result')], go)
            g.origin[endb] = g.origin[b]
            self.copy_in(g, cl, off, boff, Place(off), endb, t.span, depth, stack, work)
        return True

    def copy_in(self, g, callee, off, boff, dest, cont, span, depth, stack, work):
            for cb in callee.live():
                css, ct = callee.blocks[cb]
                nss = [Stmt(clone_place(s.place, off), RV(s.rv.kind, [clone_op(o, off) for o in s.rv.ops], s.rv.name, s.rv.fields), s.span, s.text) for s in css]
                if ct.kind == 'return':
                    nss.append(Stmt(dest, RV('use', [Op('move', Place(off))]), span, '%s = ret' % dest))
                    x = Term('goto', 'goto (return)', ct.span)
                    x.targets = [('goto', cont)]
                else:
                    x = Term(ct.kind, ct.text, ct.span)
                    x.dest = clone_place(ct.dest, off)
                    x.callee = ct.callee
                    m = re.match(r'(move|copy) _(\d+)$', ct.callee or '')
                    if m:
                        x.callee = '%s _%d' % (m.group(1), int(m.group(2)) + off)
                    x.args = [clone_op(o, off) for o in ct.args]
                    x.op = clone_op(ct.op, off) if ct.op else None
                    x.place = clone_place(ct.place, off)
                    x.targets = [(l, tb + boff) for l, tb in ct.targets]
                g.blocks[cb + boff] = (nss, x)
                g.origin[cb + boff] = callee
                work.append((cb + boff, depth + 1, stack + (callee.name,)))

    def target(self, g, t):
        c = strip_generics(t.callee)
        nm = last_seg(c)
        if nm in ('call', 'call_mut', 'call_once') and re.match(r'^<.* as (std::ops::|core::ops::)?(Fn|FnMut|FnOnce)>::', c) and len(t.args) == 2:
            cl = self.closure_of(g, t.args[0])
            if cl is None:
                return None, None
            tup = self.tuple_of(g, t.args[1])
            n = len(cl.params) - 1
            env = t.args[0]
            if tup is not None and len(tup) == n:
                return cl, [env] + tup
            if t.args[1].place is not None:
                return cl, [env] + [Op('move', Place(t.args[1].place.base, t.args[1].place.proj + (('field', i, '?'),))) for i in range(n)]
            return None, None
        r = self.c.resolve(t.callee)
        if r is not None and len(r.params) == len(t.args):
            return r, t.args
        return None, None

    def defs(self, g, l):
        r = []
        for b, (ss, t) in g.blocks.items():
            for s in ss:
                if s.place.base == l and not s.place.proj:
                    r.append(s)
            if t.kind == 'call' and t.dest is not None and t.dest.base == l and not t.dest.proj:
                r.append(t)
        return r

    def closure_of(self, g, op, depth=0):
        if op.place is None:
            m = CLOSURE_RE.search(op.const or '')
            return self.c.closures.get(m.group(1)) if m else None
        ty = g.types.get(op.place.base, '')
        for p in op.place.proj:
            if p[0] == 'field':
                ty = p[2]
        cl = self.c.closure_of_type(ty)
        if cl is not None or depth > 12:
            return cl
        if any(p[0] == 'field' for p in op.place.proj):
            return None
        for d in self.defs(g, op.place.base):
            if isinstance(d, Stmt):
                for o in d.rv.ops:
                    if d.rv.kind in ('use', 'ref', 'refmut', 'cast'):
                        cl = self.closure_of(g, o, depth + 1)
                        if cl is not None:
                            return cl
                if d.rv.kind == 'agg':
                    m = CLOSURE_RE.search(d.rv.name or '')
                    if m and m.group(1) in self.c.closures:
                        return self.c.closures[m.group(1)]
        return None

    def tuple_of(self, g, op, depth=0):
        if op.place is None or op.place.proj or depth > 5:
            return None
        for d in self.defs(g, op.place.base):
            if isinstance(d, Stmt):
                if d.rv.kind == 'agg' and d.rv.name == '(tuple)':
                    return list(d.rv.ops)
                if d.rv.kind == 'use':
                    return self.tuple_of(g, d.rv.ops[0], depth + 1)
        return None


PASS_THROUGH = {'deref', 'deref_mut', 'as_ref', 'as_mut', 'as_slice', 'as_mut_slice', 'borrow', 'borrow_mut', 'clone', 'into', 'from',
                'as_path', 'as_str', 'as_bytes', 'to_owned', 'into_iter', 'iter', 'iter_mut', 'by_ref', 'unwrap', 'expect', 'branch', 'map_err', 'index', 'index_mut',
                'to_path_buf', 'as_deref', 'to_string', 'unwrap_or_else', 'as_deref_mut', 'into_vec', 'to_vec', 'as_mut_ptr', 'as_ptr', 'into_boxed_slice', 'cloned', 'copied', 'ok', 'as_os_str'}


class Prov:
    """flow-insensitive provenance: which (root local, field path) a value may come from"""

    def __init__(self, g, through=PASS_THROUGH, through_arg=None):
        self.g = g
        self.through = through
        self.through_arg = through_arg or {}
        self.def_map = {}
        self.partial = {}
        for b, (ss, t) in g.blocks.items():
            for s in ss:
                self._add(s.place, ('s', b, s))
            if t.kind == 'call' and t.dest is not None:
                self._add(t.dest, ('c', b, t))
        self.memo = {}

    def _add(self, place, d):
        if not place.proj or all(p[0] == 'variant' for p in place.proj):
            self.def_map.setdefault(place.base, []).append(d)
        else:
            self.partial.setdefault(place.base, []).append((place, d))

    def of_op(self, op, depth=0, seen=None):
        if op.place is None:
            return {('const', op.const)}
        return self.of_place(op.place, depth, seen)

    def of_place(self, p, depth=0, seen=None):
        seen = seen or frozenset()
        fields = tuple(x[1] for x in p.proj if x[0] == 'field')
        key = (p.base, fields)
        if key in seen or depth > 60:
            return set()
        seen = seen | {key}
        if p.base in self.g.params:
            return {('param', p.base, fields)}
        out = set()
        ds = self.def_map.get(p.base, [])
        if fields:
            for pl, d in self.partial.get(p.base, []):
                f2 = tuple(x[1] for x in pl.proj if x[0] == 'field')
                if f2 == fields[:len(f2)]:
                    rest = fields[len(f2):]
                    out |= self._of_def(d, rest, depth, seen)
        if not ds and not out:
            return {('local', p.base, fields)}
        for d in ds:
            out |= self._of_def(d, fields, depth, seen)
        return out

    def _of_def(self, d, fields, depth, seen):
        kind, b, x = d
        out = set()
        if kind == 's':
            rv = x.rv
            if rv.kind in ('use', 'ref', 'refmut', 'rawptr', 'cast'):
                for o in rv.ops:
                    if o.place is None:
                        out.add(('const', o.const))
                    else:
                        q = Place(o.place.base, o.place.proj + tuple(('field', i, '?') for i in fields))
                        out |= self.of_place(q, depth + 1, seen)
            elif rv.kind == 'agg':
                if fields and fields[0] < len(rv.ops) and (rv.name not in ('[array]', '[repeat]')):
                    o = rv.ops[fields[0]]
                    if o.place is None:
                        out.add(('const', o.const))
                    else:
                        q = Place(o.place.base, o.place.proj + tuple(('field', i, '?') for i in fields[1:]))
                        out |= self.of_place(q, depth + 1, seen)
                else:
                    out.add(('agg', rv.name, b))
                    if not fields:
                        for o in rv.ops:
                            if o.place is not None and re.search(r'(Option::Some|Result::Ok|^\(tuple\)|\[array\]|Box)', re.sub(r'::<.*>', '', rv.name or '')):
                                out |= self.of_place(o.place, depth + 1, seen)
            elif rv.kind in ('bin', 'un', 'discr', 'len'):
                out.add(('expr', rv.kind, rv.name, b))
            else:
                out.add(('expr', rv.kind, rv.name, b))
        else:
            nm = last_seg(strip_generics(x.callee))
            if nm in self.through_arg and len(x.args) > self.through_arg[nm]:
                out |= self.of_op(x.args[self.through_arg[nm]], depth + 1, seen)
            elif nm in self.through and x.args:
                out |= self.of_op(x.args[0], depth + 1, seen) if x.args[0].place is None or not fields else \
                    self.of_place(Place(x.args[0].place.base, x.args[0].place.proj + tuple(('field', i, '?') for i in fields if nm not in ('branch',))), depth + 1, seen)
            else:
                out.add(('call', strip_generics(x.callee), b, fields))
        return out


def call_chain(g, op, limit=40):
    """names of the calls a value was derived through (first argument of each), nearest first,
    together with the final places: [(names tuple, place or const)]"""
    P = Prov(g, set())
    out = []
    seen = set()

    def go(o, names, d):
        if d > limit:
            return
        if o.place is None:
            out.append((names, o.const))
            return
        k = (o.place.base, tuple(x[1] for x in o.place.proj if x[0] == 'field'), names)
        if k in seen:
            return
        seen.add(k)
        b = o.place.base
        ds = P.def_map.get(b, [])
        fields = tuple(x[1] for x in o.place.proj if x[0] == 'field')
        if b in g.params or not ds:
            out.append((names, o.place))
            return
        for kind, bb, x in ds:
            if kind == 's':
                rv = x.rv
                if rv.kind in ('use', 'ref', 'refmut', 'rawptr', 'cast'):
                    for q in rv.ops:
                        if q.place is None:
                            out.append((names, q.const))
                        else:
                            go(Op(q.kind, Place(q.place.base, q.place.proj + tuple(p for p in o.place.proj if p[0] == 'field'))), names, d + 1)
                elif rv.kind == 'agg' and fields and fields[0] < len(rv.ops):
                    q = rv.ops[fields[0]]
                    rest = [p for p in o.place.proj if p[0] == 'field'][1:]
                    if q.place is None:
                        out.append((names, q.const))
                    else:
                        go(Op(q.kind, Place(q.place.base, q.place.proj + tuple(rest))), names, d + 1)
                else:
                    out.append((names, o.place))
            else:
                nm = last_seg(strip_generics(x.callee))
                if x.args:
                    go(x.args[0], names + (nm,), d + 1)
                else:
                    out.append((names + (nm,), None))
    go(op, (), 0)
    return out
