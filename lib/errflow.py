"""P01: error discipline over MIR.  Every value of type Result<_, E> produced by a
call, and every diagnostic value constructed, must reach the caller, a panic or a
recorded place that is itself consumed."""
import re
from mir import *

RES = re.compile(r'^(?:std|core)::result::Result<')


def result_types(t):
    t = t.strip()
    m = re.match(r'^(?:(?:std|core)::result::)?Result<', t)
    if not m:
        return None
    a = split_top(t[m.end():-1])
    return (a[0], a[1]) if len(a) == 2 else ((a[0], 'io::Error') if len(a) == 1 else None)


def strip_fnitem(c):
    return c.strip()


class Uses:
    """uses of whole locals in the non-cleanup part of a function"""

    def __init__(self, f):
        self.f = f
        self.uses = {}
        for b in f.live():
            ss, t = f.blocks[b]
            for i, s in enumerate(ss):
                for o in s.rv.ops:
                    if o.place is not None:
                        self.uses.setdefault(o.place.base, []).append(('stmt', b, i, s, o))
                        for p in o.place.proj:
                            if p[0] == 'index':
                                m = re.match(r'_(\d+)$', p[1])
                                if m:
                                    self.uses.setdefault(int(m.group(1)), []).append(('idx', b, i, s, o))
            if t.kind == 'call':
                for k, o in enumerate(t.args):
                    if o.place is not None:
                        self.uses.setdefault(o.place.base, []).append(('arg', b, k, t, o))
                m = re.match(r'(?:move|copy) _(\d+)$', t.callee or '')
                if m:
                    self.uses.setdefault(int(m.group(1)), []).append(('callee', b, 0, t, None))
            elif t.kind in ('switch', 'assert') and t.op.place is not None:
                self.uses.setdefault(t.op.place.base, []).append((t.kind, b, 0, t, t.op))
            elif t.kind == 'drop' and t.place is not None:
                self.uses.setdefault(t.place.base, []).append(('drop', b, 0, t, None))

    def of(self, l):
        return self.uses.get(l, [])


KEEP = {'map_err', 'map', 'and_then', 'or_else', 'and', 'or', 'from', 'into', 'with_context', 'inspect_err', 'cloned', 'copied',
        'as_ref', 'as_mut', 'as_deref', 'clone', 'by_ref', 'inspect', 'transpose', 'flatten'}
PANICS = {'unwrap', 'expect', 'unwrap_err', 'expect_err'}
DISCARD = {'ok', 'unwrap_or', 'unwrap_or_default', 'is_ok', 'is_err', 'map_or', 'is_ok_and', 'is_err_and', 'unwrap_or_else', 'map_or_else', 'iter', 'into_iter', 'err', 'unwrap_unchecked'}


def diverges_or_err(f, start):
    """True if no path from block start reaches a return without first setting _0 to an Err
    (from_residual or Err(..)) on that path"""
    seen = set()
    st = [start]
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        ss, t = f.blocks[b]
        done = False
        for s in ss:
            if s.place.base == 0 and not s.place.proj and s.rv.kind == 'agg' and re.search(r'::Err(::<.*>)?$', s.rv.name or ''):
                done = True
        if t.kind == 'call' and t.dest.base == 0 and 'from_residual' in t.callee:
            done = True
        if done:
            continue
        if t.kind == 'return':
            return False
        st.extend(t.succ())
    return True


class ErrFlow:
    def __init__(self, crate, exempt):
        self.c = crate
        self.exempt = exempt
        self.findings = []
        self.sites = 0
        self.by_how = {}

    def note(self, how):
        self.by_how[how] = self.by_how.get(how, 0) + 1

    def report(self, f, what, span, why):
        self.findings.append((f, what, span, why))

    def check_fn(self, f):
        U = Uses(f)
        for b, t in f.calls():
            d = t.dest
            if d.proj:
                ty = d.proj[-1][2] if d.proj[-1][0] == 'field' else ''
                continue
            rt = result_types(f.types.get(d.base, ''))
            if rt is None:
                continue
            nm = last_seg(strip_generics(t.callee))
            self.sites += 1
            if d.base == 0:
                self.note('returned')
                continue
            why = self.consume(f, U, d.base, set(), t)
            if why:
                self.report(f, strip_generics(t.callee), t.span, why)
        # results that are elements of something: taken out of an option, a tuple or a container
        for b in f.live():
            ss, t = f.blocks[b]
            for s in ss:
                if s.rv.kind != 'use' or s.place.proj or s.place.base == 0 or s.rv.ops[0].place is None or not s.rv.ops[0].place.proj or s.rv.ops[0].kind != 'move':
                    continue
                rt = result_types(f.types.get(s.place.base, ''))
                if rt is None or rt[0] == '!':
                    continue
                self.sites += 1
                why = self.consume(f, U, s.place.base, set(), t)
                if why:
                    self.report(f, 'element', s.span, why)
            if t.kind != 'call':
                continue
            nm = last_seg(strip_generics(t.callee))
            # adaptors that throw the errors of their elements away
            if nm in ('flatten', 'count', 'last', 'for_each') and ' as Iterator>' in t.callee and self.yields_results(f, t):
                self.report(f, strip_generics(t.callee), t.span, 'errors of the elements are thrown away by %s()' % nm)
            if nm == 'flat_map' and t.args and (lambda cl: cl is not None and result_types(cl.ret))(self.closure(f, t)):
                self.report(f, strip_generics(t.callee), t.span, 'errors of the elements are thrown away by flat_map()')
            for a in t.args:
                if a.place is None:
                    m = re.search(r'Result::<.*>::(\w+)$', strip_fnitem(a.const or ''))
                    if m and m.group(1) in DISCARD:
                        self.report(f, strip_generics(t.callee), t.span, 'errors are thrown away by Result::%s given to %s()' % (m.group(1), nm))

    def closure(self, f, t):
        for a in t.args:
            if a.place is not None:
                cl = self.c.closure_of_type(f.types.get(a.place.base, ''))
                if cl is not None:
                    return cl
        ms = CLOSURE_RE.findall(t.callee)
        return self.c.closures.get(ms[-1]) if ms else None

    def yields_results(self, f, t):
        m = re.match(r'<(.*) as Iterator>', t.callee)
        ty = (m.group(1) if m else '').strip()
        if re.match(r'^(&mut )?(std::fs::)?(ReadDir|std::io::(Lines|Split|Bytes)|Lines<|Bytes<)', ty):
            return 'str::Lines' not in ty
        ms = CLOSURE_RE.findall(ty)
        if re.match(r'^(std::iter::)?Map<', ty) and ms:
            cl = self.c.closures.get(ms[-1])
            return cl is not None and result_types(cl.ret) is not None
        if re.search(r'(IntoIter|Drain|Iter)<.*\bResult<', ty) and 'Map<' not in ty:
            return True
        return False

    def consume(self, f, U, l, seen, origin):
        """None if the Result in local l is consumed properly, otherwise the reason"""
        if l in seen:
            return None
        seen.add(l)
        uses = U.of(l)
        switched = None
        refs = []
        bad = None
        for u in uses:
            kind = u[0]
            if kind == 'stmt':
                s, o = u[3], u[4]
                if o.place.proj:
                    continue      # payload access, judged with the switch
                if s.rv.kind == 'discr':
                    switched = (u[1], s)
                    continue
                if s.rv.kind == 'ref' or s.rv.kind == 'refmut' or s.rv.kind == 'rawptr':
                    refs.append(s.place.base)
                    continue
                if s.rv.kind in ('use', 'cast'):
                    if s.place.proj or s.place.base == 0:
                        self.note('stored' if s.place.proj else 'returned')
                        return None
                    return self.consume(f, U, s.place.base, seen, origin)
                if s.rv.kind == 'agg':
                    self.note('wrapped')
                    return None
            elif kind == 'arg':
                t = u[3]
                return self.call_use(f, U, t, u[2], seen, origin)
        if switched is not None:
            return self.switch_use(f, U, l, switched, origin)
        for r in refs:
            x = self.ref_use(f, U, r, seen)
            if x == 'ok':
                return None
            if x:
                bad = x
        if bad:
            return bad
        return 'result dropped'

    def ref_use(self, f, U, r, seen):
        for u in U.of(r):
            if u[0] == 'arg':
                nm = last_seg(strip_generics(u[3].callee))
                if nm in ('is_err', 'is_ok', 'ok', 'is_err_and', 'is_ok_and'):
                    return self.test_use(f, U, u[3], nm)
                if nm in ('as_ref', 'as_mut'):
                    return self.consume(f, U, u[3].dest.base, seen, u[3]) or 'ok'
                if nm in ('drop',):
                    return 'result dropped'
                # passed by reference to something else: fmt for debug is not consumption
                if 'fmt' in u[3].callee or nm.startswith('new_'):
                    continue
                return 'ok'
            if u[0] == 'stmt':
                if u[3].rv.kind in ('use', 'ref', 'refmut', 'cast') and not u[3].place.proj:
                    x = self.ref_use(f, U, u[3].place.base, seen)
                    if x:
                        return x
                if u[3].rv.kind == 'discr':
                    return 'ok'
        return None

    def test_use(self, f, U, t, nm):
        # bool result: find the switch on it; the error side must diverge or return Err
        for u in U.of(t.dest.base):
            if u[0] == 'switch':
                tg = dict(u[3].targets)
                false_bb = tg.get('0')
                true_bb = tg.get('otherwise', tg.get('1'))
                errbb = true_bb if nm.startswith('is_err') else false_bb
                if errbb is not None and diverges_or_err(f, errbb):
                    self.note('tested, error side fails')
                    return 'ok'
        return 'only tested with %s and dropped' % nm

    def call_use(self, f, U, t, k, seen, origin):
        c = strip_generics(t.callee)
        nm = last_seg(c)
        is_res_method = re.search(r'\bresult::Result\b|\bResult\b', c.rsplit('::', 1)[0]) is not None
        if nm == 'branch':
            self.note('?')
            return None
        if is_res_method:
            if nm in PANICS:
                self.note('panic on error')
                return None
            if nm in ('unwrap_or_else', 'map_or_else', 'or_else'):
                # the closure must diverge
                cl = None
                for a in t.args:
                    if a.place is not None:
                        cl = cl or self.c.closure_of_type(f.types.get(a.place.base, ''))
                m = CLOSURE_RE.search(t.callee)
                if cl is None and m:
                    cl = self.c.closures.get(m.group(1))
                if cl is not None and not any(cl.blocks[b][1].kind == 'return' for b in cl.live()):
                    self.note('panic on error (closure)')
                    return None
                if nm == 'or_else':
                    return self.consume(f, U, t.dest.base, seen, origin) if t.dest.base else None
                if cl is not None and result_types(cl.ret):
                    return self.consume(f, U, t.dest.base, seen, origin) if t.dest.base else None
                return 'error replaced by a default (%s)' % nm
            if nm in KEEP:
                if t.dest.base == 0:
                    self.note('returned')
                    return None
                if nm in ('or', 'flatten', 'transpose') and result_types(f.types.get(t.dest.base, '')) is None:
                    self.note('wrapped')
                    return None
                return self.consume(f, U, t.dest.base, seen, origin)
            if nm in DISCARD:
                return 'error discarded by %s()' % nm
        if nm == 'drop':
            return 'result dropped'
        # std::mem::forget, closure call etc.: handed to another function
        self.note('passed on')
        return None

    def switch_use(self, f, U, l, sw, origin):
        b, s = sw
        dl = s.place.base
        tb = None
        for u in U.of(dl):
            if u[0] == 'switch':
                tb = u[3]
        if tb is None:
            return None
        tg = dict(tb.targets)
        errbb = tg.get('1', tg.get('otherwise'))
        okbb = tg.get('0', tg.get('otherwise'))
        if errbb is None:
            return None
        used = []
        for u in U.of(l):
            if u[0] in ('stmt', 'arg') and u[4] is not None and u[4].place.proj and u[4].place.proj[0] == ('variant', 'Err'):
                used.append(u)
        if diverges_or_err(f, errbb):
            self.note('matched, error side fails')
            return None
        # does the payload escape (moved somewhere)?
        for u in used:
            if u[0] == 'stmt' and u[3].rv.kind in ('use',) and not u[3].place.proj:
                if self.escapes(f, U, u[3].place.base, set()):
                    self.note('matched, payload kept')
                    return None
            elif u[0] == 'arg' or (u[0] == 'stmt' and u[3].rv.kind == 'agg'):
                self.note('matched, payload kept')
                return None
        return 'error arm falls through without reporting the error'

    def escapes(self, f, U, l, seen):
        if l in seen:
            return False
        seen.add(l)
        for u in U.of(l):
            if u[0] == 'arg' and u[4].kind == 'move' and not u[4].place.proj:
                nm = last_seg(strip_generics(u[3].callee))
                if nm == 'drop':
                    continue
                return True
            if u[0] == 'stmt' and u[3].rv.kind in ('use', 'agg') and u[4].kind == 'move':
                if u[3].place.base == 0 or u[3].place.proj or u[3].rv.kind == 'agg':
                    return True
                if self.escapes(f, U, u[3].place.base, seen):
                    return True
        return False
