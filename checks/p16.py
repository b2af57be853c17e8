"""P16: the heap handle of an object is created and consumed by matching operations."""
import re
from core import Check
import handlebase as H
from handlebase import tynorm, pointee, show
import rast, rown, rustcls, cppglue, jniglue
from tmpl import to_text

MATCH = 'every operation on a handle uses the pointer kind and type it was made with'
GIVE = 'an object that leaves is made into one raw handle, which is returned'
TAKE = 'a handle is taken back once and the object handed on'
FREE = 'the release function drops the object once'
BORROW = 'passing by reference neither consumes nor frees the object'
CLONE = 'a copy of a shared object leaves its reference count balanced'
FOREIGN = 'the foreign side gives up its handle exactly when the Rust side takes it'
POINTEE = 'a handle is read as what it points to'
GENERIC = 'generic glue boxes and unboxes each object once'


def occurs(v, x):
    """occurrences of the value x in v, not looking into copies made of it"""
    if v == x:
        return 1
    if isinstance(v, tuple):
        if v[:1] == ('clone',):
            return 0
        return sum(occurs(y, x) for y in v)
    return 0


class P16:
    def __init__(self, c):
        self.c = c
        self.src = src = rast.Source()
        cs = H.confs(src)
        c.analysed('kinds of class (self type, derives, backend) analysed', len(cs))
        for k in cs:
            if k.msg is not None or not k.fns:
                c.violation('analysis', k.key, 'the glue of a %s does not compile with stand-ins: %s' % (k.label, (k.msg or '')[:600]))
                continue
            self.conf(k)
            self.foreign(k)
        self.generic()
        c.floor(MATCH, 60)
        c.floor(GIVE, 40)
        c.floor(TAKE, 30)
        c.floor(FREE, 15)
        c.floor(BORROW, 60)
        c.floor(CLONE, 8)
        c.floor(FOREIGN, 60)
        c.floor(GENERIC, 4)
        c.floor(POINTEE, 2)

    # ---- Rust side
    def conf(self, k):
        c = self.c
        box = [f for f in k.fns if f.name == 'box_object']
        kind = None
        if box and not isinstance(box[0].paths, str):
            for p in box[0].paths:
                for e in p.events:
                    if e[0] == 'into_raw':
                        kind = (e[1], tynorm(e[2]))
        if kind is None:
            c.violation(GIVE, k.key + '/box_object', '%s: box_object does not make a raw handle' % k.label)
            return
        for role, n in (('give', 3), ('take', 1), ('free', 1), ('borrow', 3), ('method', 2)):
            have = len([f for f in k.fns if f.role == role])
            if have < n:
                c.violation('analysis', '%s/%s' % (k.key, role), '%s: only %d functions or conversions of kind %s found' % (k.label, have, role))
        for f in k.fns:
            key = '%s/%s' % (k.key, f.name if f.frm is None else '%s=>%s' % (tynorm(f.frm), tynorm(f.to)))
            where = '%s: %s' % (k.label, f.where)
            if isinstance(f.paths, str):
                c.violation('analysis', key, '%s cannot be analysed: %s' % (where, f.paths))
                continue
            for p in f.paths:
                self.path(k, kind, f, p, where, key)
            if not f.paths:
                c.violation(GIVE if f.role == 'give' else TAKE, key, '%s never returns' % where)

    def path(self, k, kind, f, p, where, key):
        c = self.c
        ev = p.events
        gives = [e for e in ev if e[0] == 'into_raw']
        takes = [e for e in ev if e[0] == 'from_raw']
        for e in gives + takes:
            have = (e[1], tynorm(e[2]))
            c.require(have == kind, MATCH, '%s in %s' % (e[0], where), '%s/%s' % (key, e[0]),
                      '%s: %s::%s of %s, but handles of this class are made by %s::into_raw of %s' % (where, have[0], e[0], have[1], kind[0], kind[1]))
        # type behind a handle that is read
        last = {}
        for i, l in enumerate(f.f.params):
            t = f.f.types.get(l, '')
            if pointee(t):
                last[('p', f.f.debug.get(l) or 'arg%d' % i)] = pointee(t)
        for e in ev:
            if e[0] == 'ptrcast':
                t = pointee(e[3])
                if t is not None:
                    last[e[1]] = t
            elif e[0] == 'deref' and e[1] in last and e[1][0] == 'p' and e[1][1] != 'env':
                c.require(last[e[1]] == kind[1], MATCH, 'dereference in %s' % where, key + '/deref',
                          '%s reads the handle as a pointer to %s; it points to %s' % (where, last[e[1]], kind[1]))
        own = []
        for e in takes:
            r = ('own', e[1], e[3])
            n = {x: sum(1 for q in ev if q[0] == x and q[1] == r) for x in ('drop', 'forget', 'freebox')}
            n['back'] = sum(1 for q in gives if q[3] == r)
            n['out'] = occurs(p.ret, r) if not (p.ret[0] == 'raw') else 0
            n['arg'] = sum(occurs(q[2], r) for q in ev if q[0] == 'call' and q[1] not in ('drop',))
            if n['freebox']:        # the box was moved out of: the value is the thing that lives on
                n['out'] = occurs(p.ret, ('deref', e[3]))
            own.append((e, r, n))
        hs = lambda e: show(e[3])
        if f.role == 'give':
            if p.ret[0] == 'call':      # the conversion of the result type makes the handle
                c.ok(GIVE, where)
                return
            good = len(gives) == 1 and p.ret[0] == 'raw' and p.ret[2] == gives[0][3] and not takes and not any(e[0] in ('drop', 'forget', 'freebox') for e in ev)
            c.require(good, GIVE, where, key, '%s makes %d raw handles and returns %s%s' % (where, len(gives), show(p.ret)[:120], ' after dropping or forgetting an object' if len(gives) == 1 and p.ret[0] == 'raw' else ''))
        elif f.role in ('take', 'free'):
            rule = TAKE if f.role == 'take' else FREE
            if len(own) != 1 or gives:
                c.violation(rule, key, '%s takes %d objects back (one is needed)%s' % (where, len(own), ' and makes a new handle' if gives else ''))
                return
            e, r, n = own[0]
            par = e[3][0] == 'p'
            if f.role == 'take':
                good = par and n['forget'] == 0 and n['drop'] == 0 and n['back'] == 0 and n['arg'] == 0 and n['out'] == 1
                c.require(good, rule, where, key, '%s: the object taken from the handle is dropped %d times, forgotten %d times and returned %d times' % (where, n['drop'], n['forget'], n['out']))
            else:
                good = par and n['forget'] == 0 and n['back'] == 0 and n['out'] == 0 and n['drop'] + n['arg'] + n['freebox'] == 1
                c.require(good, rule, where, key, '%s: the object taken from the handle is dropped %d times and forgotten %d times' % (where, n['drop'] + n['arg'] + n['freebox'], n['forget']))
        elif f.role == 'clone':
            bad = [n for e, r, n in own if n['forget'] + n['back'] != 1 or n['drop'] or n['freebox'] or n['arg'] or n['out']]
            v = p.ret[2] if p.ret[0] == 'raw' else p.ret
            good = not bad and v[0] == 'clone' and len([e for e in ev if e[0] == 'clone']) == 1
            if k.lang == 'cpp':
                good = good and p.ret[0] == 'raw' and len(gives) == 1 + sum(n['back'] for e, r, n in own)
            else:
                good = good and len(gives) == sum(n['back'] for e, r, n in own)
            c.require(good, CLONE, where, key, '%s: the original is not left as it was, or what is returned (%s) is not one copy of it' % (where, show(p.ret)[:120]))
        elif f.role in ('borrow', 'method'):
            bad = [n for e, r, n in own if n['forget'] + n['back'] != 1 or n['drop'] or n['freebox'] or n['arg'] or n['out']]
            made = [g for g in gives if not any(g[3] == r for e, r, n in own)]
            gone = [e for e in ev if e[0] in ('drop', 'freebox', 'forget') and not any(e[1] == r for _, r, n in own) and self.handle(e[1])]
            what = 'the object is taken out of its handle' if bad else 'a new handle is made' if made else 'the object is dropped' if gone else None
            if what is None and f.role == 'borrow' and not own:
                x = p.ret
                if x[0] in ('fld', 'as') or x[0] == 'agg' or x[0] == 'fn':
                    x = self.find(x)
                if x is None or x[0] not in ('p', 'ref', 'addr') and not (x[0] == 'deref'):
                    what = 'what is returned (%s) is not the object of the handle' % show(p.ret)[:100]
            c.require(what is None, BORROW, where, key, '%s: %s' % (where, what))
        elif f.role == 'object':
            good = len(gives) == 1 and not takes
            if good:
                raw = ('raw', gives[0][1], gives[0][3])
                good = sum(1 for e in ev if e[0] == 'call' and raw in e[2]) == 1 and not any(e[0] in ('drop', 'freebox', 'forget') and occurs(e[1], gives[0][3]) for e in ev)
            c.require(good, GIVE, where, key, '%s: the object is not stored once as a raw handle in the new Java object' % where)

    @staticmethod
    def handle(v):
        while isinstance(v, tuple) and v and v[0] in ('own', 'deref'):
            v = v[-1]
        return isinstance(v, tuple) and v[:1] == ('p',)

    @staticmethod
    def find(v):
        """parameter inside a value made by library calls"""
        if isinstance(v, tuple):
            if v[:1] == ('p',):
                return v
            for x in v:
                r = P16.find(x)
                if r:
                    return r
        return None

    # ---- foreign side: the texts of the two directions of every type of the class
    def foreign(self, k):
        c = self.c
        n = 0
        for ft in k.cls.ftypes:
            for side in ('from_into_rust', 'into_from_rust'):
                r = self.opt(ft, side)
                if r is None:
                    continue
                ty, code = self.rule(r)
                if code is None:
                    continue
                n += 1
                by_value = tynorm(ty) == tynorm(k.this)
                ref = ty.strip().startswith('&')
                if not by_value and not ref:
                    continue
                where = '%s: the %s text for %s' % (k.label, 'C++' if k.lang == 'cpp' else 'Java', ('argument ' if side == 'from_into_rust' else 'result ') + ty.strip())
                key = '%s/%s/%s' % (k.key, side, tynorm(ty))
                if k.lang == 'cpp':
                    if side == 'from_into_rust':
                        gives_up = re.search(r'\{from_var\}\s*\.\s*release\s*\(\s*\)', code) is not None
                        c.require(gives_up == by_value, FOREIGN, where, key, '%s %s the handle: `%s`' % (where, 'keeps' if by_value else 'gives up', code.strip()))
                    else:
                        owner = re.match(r'\s*@class\.name@\s*[({]', code) is not None
                        lent = re.match(r'\s*@class\.name@Ref\s*[({]', code) is not None
                        c.require(owner if by_value else lent, FOREIGN, where, key, '%s makes %s: `%s`' % (where, 'no owner' if by_value else 'no reference', code.strip()))
                else:
                    if side == 'from_into_rust':
                        rust = [f for f in k.fns if f.frm is not None and tynorm(f.to) == tynorm(k.this)]
                        takes = by_value and bool(rust) and all(not isinstance(f.paths, str) and self.consumes(f) for f in rust)
                        m = re.search(r'\{to_var\}\s*=\s*\{from_var\}\s*\.\s*(\w+)\s*;', code)
                        zero = m is not None and re.search(r'\{from_var\}\s*\.\s*%s\s*=\s*0\s*;' % m.group(1), code[m.end():]) is not None
                        c.require(m is not None and zero == takes, FOREIGN, where, key,
                                  '%s %s its handle, but the Rust side %s' % (where, 'gives up' if zero else 'keeps', 'takes the object' if takes else 'leaves the object there') if m else '%s does not read the handle: `%s`' % (where, code.strip()))
                    else:
                        c.require(re.search(r'new\s+@class\.name@\s*\(\s*InternalPointerMarker\.RAW_PTR\s*,\s*\{from_var\}\s*\)', code) is not None, FOREIGN, where, key, '%s does not make the Java object of the handle: `%s`' % (where, code.strip()))
        return n

    @staticmethod
    def consumes(f):
        return any(e[0] == 'from_raw' and not any(q[0] == 'forget' and q[1] == ('own', e[1], e[3]) for q in p.events) for p in f.paths for e in p.events)

    @staticmethod
    def opt(ft, side):
        v = H.rustcls.rec_get(ft, side)
        return v

    @staticmethod
    def rule(r):
        ty = H.rustcls.rec_get(r, 'rust_ty')
        im = H.rustcls.rec_get(r, 'intermediate')
        code = H.rustcls.rec_get(im, 'conv_code') if im is not None else None
        return H.rustcls.plain(ty), None if code is None else H.rustcls.plain(code)

    # ---- built-in glue for any class
    def generic(self):
        c = self.c
        for nm, G, ex in (('cpp-include.rs', cppglue.CppGlue(self.src), ()), ('jni-include.rs', jniglue.JniGlue(self.src), jniglue.flags())):
            g, msg = rown.compile_mir(G.text, name='p16g', extra=ex)
            if g is None:
                c.violation('analysis', nm, 'the Rust half of %s does not compile with stand-in types: %s' % (nm, msg[:800]))
                continue
            rules = {r.name: r for r in G.rules}
            it = rown.Interp(g, inline=lambda h: not rown.last_seg(h.name).startswith('vf_'), unroll=2)
            for name, f in sorted(g.fns.items()):
                l = rown.last_seg(name)
                if l.startswith('vf_') and l not in rules or '{closure' in name or '<impl' in name:
                    continue
                r = rules.get(l)
                where = 'the conversion of %s to %s (%s:%d)' % (r.frm, r.to, nm, r.rule.line) if r else '%s (%s)' % (l, nm)
                key = '%s/%s' % (nm, '%s=>%s' % (tynorm(r.frm), tynorm(r.to)) if r else l)
                try:
                    ps = it.run(f)
                except rown.Unsupported as e:
                    if re.search(r'box_object|Foreign|VfFoo', ' '.join(f.types.values())):
                        c.violation('analysis', key, '%s cannot be analysed: %s' % (where, e))
                    continue
                for p in ps:
                    self.gen_path(p, r, where, key)
                if nm.startswith('jni') and not r:
                    self.pointee(G.text, l, ps, where, key)
                if r and nm.startswith('jni'):
                    used = {e[1] for p in ps for e in p.events if e[0] == 'call'}
                    if used & {'vf_unbox_object', 'vf_to_pointer'}:
                        self.java_texts(r, 'vf_unbox_object' in used, where, key)

    def pointee(self, text, l, ps, where, key):
        """a handle points to PointedType: reading it as the class type itself needs a bound which makes them the same"""
        m = re.search(r'\bfn\s+%s\s*<(.*?)\{' % re.escape(l), text, re.S)
        if not m:
            return
        head = m.group(1)
        for t in sorted(set(re.findall(r'\b([A-Z]\w*)\s*:[^,]*?\bSwigForeignClass\b', head))):
            same = re.search(r'\b%s\s*:[^{;()]*?\bSwigForeignClass\s*<\s*PointedType\s*=\s*%s\s*>' % (t, t), head) is not None
            for p in ps:
                casts = [e for e in p.events if e[0] == 'ptrcast' and pointee(e[3]) == t and pointee(e[2]) != t]
                if casts or 'SwigForeignClass' in head:
                    self.c.require(same or not casts, POINTEE, where, key + '/' + t, '%s reads a handle as a pointer to %s, but a handle of a class points to its PointedType' % (where, t))

    def java_texts(self, r, takes, where, key):
        c = self.c
        fs = [q for q in r.block.rules if q.kind == 'f_type' and q.dir in ('<=', '=>') and q.code]
        for q in fs:
            if r.frm.strip() != 'jlong' or q.dir != '<=':
                continue
            code = q.code if isinstance(q.code, str) else ''.join(t[1] for t in q.code)
            m = re.search(r'\$out\s*=\s*\$p\s*\.\s*(\w+)\s*;', code)
            zero = m is not None and re.search(r'\$p\s*\.\s*%s\s*=\s*0\s*;' % m.group(1), code[m.end():]) is not None
            c.require(m is not None and zero == takes, FOREIGN, 'Java text (jni-include.rs:%d)' % q.line, key + '/java',
                      '%s %s, but its Java text (line %d) %s' % (where, 'takes the object' if takes else 'leaves the object in place', q.line, 'keeps the handle' if takes else 'gives the handle up'))

    def gen_path(self, p, r, where, key):
        c = self.c
        for e in p.events:
            if e[0] != 'call' or e[1] not in ('vf_box_object', 'vf_unbox_object'):
                continue
            res = [x for x in self.calls(p) if x[1] == e[4]]
            v = res[0] if res else None
            n = 0
            if v is not None:
                n = sum(occurs(q[2], v) for q in p.events if q[0] == 'call' and q is not e) + occurs(p.ret, v) + sum(1 for q in p.events if q[0] == 'store' and occurs(q[3], v))
            drops = sum(1 for q in p.events if q[0] in ('drop', 'forget') and q[1] == v)
            what = 'handle made by box_object' if e[1] == 'vf_box_object' else 'object taken by unbox_object'
            twice = sum(1 for q in p.events if q[0] == 'call' and q[1] == e[1] and q[2] == e[2])
            c.require(n >= 1 and drops == 0 and twice == 1, GENERIC, where, key + '/' + e[1], '%s: the %s is handed on %d times, dropped or forgotten %d times and made %d times of the same value' % (where, what, n, drops, twice))

    @staticmethod
    def calls(p):
        out = []

        def walk(v):
            if isinstance(v, tuple):
                if len(v) >= 3 and v[0] == 'call' and isinstance(v[1], int):
                    out.append(v)
                for x in v:
                    walk(x)
        walk(p.ret)
        for e in p.events:
            walk(e)
        return out


def run():
    c = Check('P16', 'abstract interpretation of the MIR of generated glue (ownership ledger)')
    P16(c)
    return c.finish(['classes are represented by eight kinds of self type (plain, Box, Rc, Arc, with RefCell, Mutex or RwLock inside) and samples of each kind of method',
                     'loops of built-in helpers are followed for up to two rounds'])
