"""Paths of the Rust half of the Java back end as sequences of JNI calls, with the destructors of guard values followed."""
import re
import rast, rown, jniglue, jnispec, model

_cache = {}


class J:
    """one event of a path: kind 'jni' (fn = JFn), 'sink', 'leave', 'call', 'panic'"""

    def __init__(self, kind, e, fn=None, args=(), facts=None, guard=None):
        self.kind, self.e, self.fn, self.args, self.facts, self.guard = kind, e, fn, args, facts or {}, guard

    @property
    def name(self):
        return self.fn.name if self.fn else None

    @property
    def id(self):
        return self.e[4] if self.kind == "jni" else -1

    def __repr__(self):
        return '%s(%s)' % (self.name or self.kind, ', '.join(rown.show(a)[:60] for a in self.args))


class JPath:
    def __init__(self, p, evs):
        self.p, self.evs, self.ret, self.facts = p, evs, p.ret, p.facts


class JFunc:
    def __init__(self, name, f, rule, paths, err):
        self.name, self.f, self.rule, self.paths, self.err = name, f, rule, paths, err
        self.short = rown.last_seg(name)


def load(src=None, text=None, rules=(), name='jg'):
    """functions of jni-include.rs (or of `text`) with their paths"""
    key = text
    if key in _cache:
        return _cache[key]
    if text is None:
        G = jniglue.JniGlue(src or rast.Source())
        text, rules = G.text, G.rules
    g, msg = rown.compile_mir(text, name=name, extra=jniglue.flags())
    if g is None:
        _cache[key] = None, msg
        return _cache[key]
    m = Model(g, {r.name: r for r in rules})
    _cache[key] = m, ''
    return _cache[key]


class Model:
    def __init__(self, g, rules):
        self.g, self.rules = g, rules
        self.it = rown.Interp(g, inline=lambda h: not rown.last_seg(h.name).startswith('vf_'), unroll=2)
        self.drops = {}
        self.count = 100000
        for n, f in g.fns.items():
            if re.sub(r'#\d+$', '', rown.last_seg(n)) == 'drop' and '<impl' in n and len(f.params) == 1:
                t = re.sub(r"^&mut |<.*", '', re.sub(r"'\w+ ", '', f.types.get(f.params[0]) or ''))
                self.drops[rown.last_seg(t)] = f
        self.fns = []
        inl = {}
        for n, f in sorted(g.fns.items()):
            l = rown.last_seg(n)
            if l.startswith('vf_') and l not in rules or '{closure' in n:
                continue
            self.it.inlined = set()
            try:
                ps, err = [JPath(p, self.events(p)) for p in self.it.run(f)], None
            except rown.Unsupported as e:
                ps, err = [], str(e)
            self.fns.append(JFunc(n, f, rules.get(l), ps, err))
            inl[n] = self.it.inlined
        self.all_fns = self.fns
        self.fns = [f for f in self.all_fns if not self.helper(f, inl)]

    def helper(self, f, inl):
        """a function that is reached only through callers that are followed, and is followed there with what they pass"""
        if f.rule is not None or f.f.impl and f.f.impl[0] or f.short in self.it.opaque or re.match(r'Java_', f.short):
            return False
        if f.short.startswith('vf_') or 'extern "C"' in f.f.sig_text if hasattr(f.f, 'sig_text') else False:
            return False
        return any(f.name in inl[g.name] for g in self.all_fns if g.rule is not None and not g.err or g.f.impl and g.f.impl[0] and not g.err)

    def guards(self, v, out=None):
        """values with a destructor inside v, outermost first"""
        out = [] if out is None else out
        if isinstance(v, tuple):
            if v[:1] == ('call',) or v[:1] == ('mut',):
                return out
            if v[:1] == ('agg',) and rown.last_seg(v[1]) in self.drops:
                out.append(v)
            for x in v[1:]:
                self.guards(x, out)
        return out

    def destroy(self, v, facts):
        """paths of the destructor of the aggregate v"""
        f = self.drops[rown.last_seg(v[1])]
        s = rown.St()
        s.facts = dict(facts)
        self.count += 1000
        s.n = self.count
        key = ('vfguard', 1)
        s.env[key] = v
        return self.it.run(f, [('ref', key, ())], s)

    def events(self, p, depth=0):
        out = []
        for e in p.events:
            j = jnispec.jni_call(e)
            if j:
                out.append(J('jni', e, j[0], j[1], e[6]))
                continue
            if e[0] == 'call':
                l = rown.last_seg(e[1])
                out.append(J('sink' if l == 'vf_sink' else 'leave' if l == 'vf_leave' else 'call', e, None, e[2], e[6]))
                if l in ('vf_sink', 'vf_leave'):
                    for v in e[2]:
                        out += self.dropped(v, e[6], depth)
            elif e[0] == 'drop':
                out += self.dropped(e[1], p.facts, depth)
            elif e[0] == 'forget':
                out.append(J('forget', e, None, (e[1],)))
        if depth == 0:
            out += self.dropped(p.ret, p.facts, depth, 'returned')
        return out

    def dropped(self, v, facts, depth, how='guard'):
        out = []
        if depth > 3:
            return out
        for a in self.guards(v):
            alt = {}
            for q in self.destroy(a, facts):
                seq = [x for x in self.events(q, depth + 1) if x.kind == 'jni']
                # paths that differ only in what they log are alike
                alt.setdefault((tuple(repr(x) for x in seq), attach_failed(seq, q.facts)), (seq, q.facts))
            alts = list(alt.values())
            for seq, fs in alts:
                for x in seq:
                    x.guard = how
            if len(alts) > 1:
                out.append(J('split', (None, None, None, None, 0), None, (a,), guard=alts))
            elif alts:
                out += alts[0][0]
        return out

    def runs(self, p):
        """(events, facts) of a path for every way its destructors can go"""
        out = [([], p.facts)]
        for j in p.evs:
            if j.kind == 'split':
                out = [(evs + seq, {**fs, **f2}) for evs, fs in out for seq, f2 in j.guard][:64]
            else:
                out = [(evs + [j], fs) for evs, fs in out]
        return out


def attach_failed(seq, facts):
    return any(x.name in ('AttachCurrentThread', 'AttachCurrentThreadAsDaemon', 'GetEnv') and num_fact(facts, x) == 1 for x in seq) and \
        not any(x.name in ('AttachCurrentThread', 'AttachCurrentThreadAsDaemon') and num_fact(facts, x) == 0 for x in seq)


def is_result(v, j):
    """v is the result of the JNI call j"""
    while isinstance(v, tuple) and v[:2] == ('fn', 'cast'):
        v = v[-1]
    return isinstance(v, tuple) and v[:1] == ('call',) and v[1] == j.id


def mentions(v, j, deep=False):
    if not isinstance(v, tuple):
        return False
    if is_result(v, j):
        return True
    if v[:1] == ('call',) and not deep and 'from_raw_parts' not in str(v[2]):
        return False
    if v[:1] == ('mut',) and not deep:
        return False
    return any(mentions(x, j, deep) for x in v)


def null_fact(facts, j):
    """what the facts say about the result of j being null: 1, 0 or None"""
    for k, n in facts.items():
        if isinstance(k, tuple) and k[:2] == ('fn', 'is_null') and is_result(k[2], j):
            return n
        if isinstance(k, tuple) and k[:2] == ('fn', 'eq') and any(is_result(a, j) and b == ('c', 'null') for a, b in ((k[2], k[3]), (k[3], k[2]))):
            return n
    return None


def num_fact(facts, j):
    """what the facts say about the numeric result of j: 0 if it is zero, 1 if it is not, or None"""
    for k, n in facts.items():
        if is_result(k, j) if isinstance(k, tuple) else False:
            return 0 if n in (0, '0') else 1 if isinstance(n, int) else None
        if isinstance(k, tuple) and k[:2] == ('fn', 'eq'):
            for a, b in ((k[2], k[3]), (k[3], k[2])):
                if is_result(a, j) and isinstance(b, tuple) and b[:1] == ('c',):
                    z = re.match(r'(-?\d+)|false', str(b[1]))
                    if (z and int(z.group(1) or 0) == 0) or str(b[1]).endswith(('JNI_OK', 'JNI_FALSE')):
                        if n in (0, 1):
                            return 0 if n == 1 else 1
    for k, n in facts.items():
        if isinstance(k, tuple) and k[:1] == ('not',) and is_result(k[1], j) and '0' in [str(x) for x in n]:
            return 1
    return None


IDCALL = re.compile(r'swig_jni_(find_class|get_method_id|get_static_method_id|get_field_id|get_static_field_id)\s*!\s*\(')


def named_ids(text):
    """every use of a cached identifier becomes a call of a stand-in named after it; (text, {name: (kind, arguments after the name)})"""
    out, ids, i = [], {}, 0
    for m in IDCALL.finditer(text):
        if m.start() < i:
            continue
        d, j, q = 1, m.end(), False
        while d and j < len(text):
            ch = text[j]
            if q:
                if ch == '\\':
                    j += 1
                elif ch == '"':
                    q = False
            elif ch == '"':
                q = True
            elif ch in '([{':
                d += 1
            elif ch in ')]}':
                d -= 1
            j += 1
        body = text[m.end():j - 1]
        args = [a.strip() for a in model.split_args(body)]
        args = [a for a in args if a]
        out.append(text[i:m.start()])
        n = re.sub(r'\W', '', args[0])
        vals = tuple(a[1:-1] if a[:1] == '"' else a for a in args[1:])
        ids.setdefault(n, (m.group(1), vals))
        if ids[n] != (m.group(1), vals):
            ids[n] = ('clash', ids[n], (m.group(1), vals))
        out.append('vf_jid_%s()' % n)
        i = j
    out.append(text[i:])
    t = ''.join(out)
    for n, (k, *v) in sorted(ids.items()):
        ty = 'jclass' if k == 'find_class' else 'jfieldID' if 'field' in k else 'jmethodID'
        t += '\n#[inline(never)] pub fn vf_jid_%s() -> %s { loop {} }' % (n, ty)
    return t + '\n', ids


def id_of(v):
    """name of the cached identifier that v is"""
    while isinstance(v, tuple) and v[:2] == ('fn', 'cast'):
        v = v[-1]
    m = re.search(r'vf_jid_(\w+)', str(v[2])) if isinstance(v, tuple) and v[:1] == ('call',) else None
    return m.group(1) if m else None
