"""P19: what the glue acquires from the Java virtual machine is released exactly once on every path."""
import re
from core import Check
import jnibase, rast, rown
from jnibase import is_result, mentions, null_fact, num_fact

ONCE = 'each resource is released exactly once, by the operation and with the values that match'
AFTER = 'nothing is used after it was released'
NOTOURS = 'only what was acquired is released'
LOOP = 'local references made in a loop are released in the same turn'
ATTACH = 'a thread is detached exactly if it was attached here'
MODE = 'array elements are written back exactly if they can have been changed'
UNIQUE = 'a guard is not copied'

# acquiring function -> (releasing function, place of the resource, places of arguments that must be those of the acquisition)
PAIR = {'GetStringChars': ('ReleaseStringChars', 1, {0: 0}), 'GetStringUTFChars': ('ReleaseStringUTFChars', 1, {0: 0}), 'GetStringCritical': ('ReleaseStringCritical', 1, {0: 0}),
        'GetPrimitiveArrayCritical': ('ReleasePrimitiveArrayCritical', 1, {0: 0}), 'NewGlobalRef': ('DeleteGlobalRef', 0, {}), 'NewWeakGlobalRef': ('DeleteWeakGlobalRef', 0, {}),
        'NewLocalRef': ('DeleteLocalRef', 0, {})}
for t in ('Boolean', 'Byte', 'Char', 'Short', 'Int', 'Long', 'Float', 'Double'):
    PAIR['Get%sArrayElements' % t] = ('Release%sArrayElements' % t, 1, {0: 0})
RELEASE = {v[0]: v[1] for v in PAIR.values()}
LOCAL = re.compile(r'NewObject|NewString|NewLocalRef|New\w+Array$|AllocObject|GetObject(ArrayElement|Class)|GetObjectField|GetStaticObjectField|Call\w*ObjectMethod|FindClass|GetSuperclass|ToReflected|ExceptionOccurred')


class P19:
    def __init__(self, c):
        self.c = c
        m, msg = jnibase.load()
        if m is None:
            c.violation('analysis', 'compile', 'the Rust half of jni-include.rs does not compile with stand-in types: %s' % msg[:800])
            return
        self.m = m
        n = 0
        guards = {}
        for f in m.fns:
            what = 'the conversion %s to %s (jni-include.rs:%d)' % (f.rule.frm, f.rule.to, f.rule.rule.line) if f.rule else '%s of jni-include.rs' % self.label(f)
            key = '%s=>%s' % (re.sub(r'\s', '', f.rule.frm), re.sub(r'\s', '', f.rule.to)) if f.rule else self.label(f)
            if f.err:
                if re.search(r'JNIEnv|jobject|jstring|jclass', ' '.join(f.f.types.values())):
                    c.violation('analysis', key, '%s cannot be analysed: %s' % (what, f.err))
                continue
            isdrop = f.f in m.drops.values()
            runs = [r for p in f.paths for r in [(evs, fs, p) for evs, fs in m.runs(p)]]
            for evs, fs, p in runs:
                n += 1
                self.one(f, what, key, evs, fs, p, isdrop)
            self.loops(f, what, key, runs)
        c.analysed('functions and conversion rules of jni-include.rs followed', len(m.fns))
        c.analysed('paths followed', n)
        self.guards()
        for r, k in ((ONCE, 20), (AFTER, 20), (NOTOURS, 15), (LOOP, 2), (ATTACH, 2), (MODE, 6), (UNIQUE, 6)):
            c.floor(r, k)

    def label(self, f):
        if '<impl' in f.name:
            t = re.sub(r"^&(mut )?|<.*", '', re.sub(r"'\w+ ", '', f.f.types.get(f.f.params[0]) or '')) if f.f.params else ''
            r = rown.last_seg(re.sub(r'<.*', '', f.f.ret or ''))
            return '%s::%s' % (t if t in self.m.drops else r, re.sub(r'#\d+$', '', f.short))
        return f.short

    def one(self, f, what, key, evs, facts, p, isdrop):
        c = self.c
        jni = [e for e in evs if e.kind == 'jni']
        failed = jnibase.attach_failed(jni, facts)
        for i, a in enumerate(evs):
            if a.kind != 'jni':
                continue
            if a.name in PAIR and null_fact(facts, a) != 1:
                rel, pos, same = PAIR[a.name]
                rs = [(k, e) for k, e in enumerate(evs) if e.kind == 'jni' and e.name in RELEASE and len(e.args) > RELEASE[e.name] and is_result(e.args[RELEASE[e.name]], a)]
                raw = not f.rule and not isdrop and not rs and self.raw(p.ret, a)
                sunk = a.name == 'NewLocalRef' and not rs and any(e.kind == 'sink' and any(is_result(x, a) for x in e.args) for e in evs)
                if raw or sunk:
                    continue
                # a global reference kept by an object whose thread cannot be attached any more is beyond reach
                if not rs and failed and a.name == 'NewGlobalRef':
                    continue
                good = len(rs) == 1 and rs[0][1].name == rel and all(rs[0][1].args[x] == a.args[y] for x, y in same.items() if x < len(rs[0][1].args)) and rs[0][0] > i
                c.require(good, ONCE, '%s: %s' % (what, a.name), '%s/%s' % (key, a.name),
                          '%s: what %s gives is released %s; expected one %s with the same %s' % (what, a.name, 'by ' + ', '.join(str(e) for k, e in rs) if rs else 'never on a path', rel, 'array or string' if same else 'reference'))
            if a.name in RELEASE:
                v = a.args[RELEASE[a.name]] if len(a.args) > RELEASE[a.name] else None
                owner = [e for e in evs[:i] if e.kind == 'jni' and is_result(v, e)]
                if isdrop and not owner:
                    continue        # a guard's destructor by itself: followed from where the guard is made
                ok = bool(owner) and (PAIR.get(owner[-1].name, (None,))[0] == a.name or a.name == 'DeleteLocalRef' and LOCAL.match(owner[-1].name))
                c.require(ok, NOTOURS, '%s: %s' % (what, a.name), '%s/%s/owner' % (key, a.name), '%s: %s releases %s, which was not acquired for it on this path' % (what, a.name, rown.show(v)[:120]))
                if owner:
                    late = [e for e in evs[i + 1:] if e.kind in ('jni', 'sink', 'leave') and not (e.kind == 'jni' and e.name == a.name and False) and any(mentions(x, owner[-1]) for x in e.args)]
                    twice = [e for e in late if e.kind == 'jni' and e.name in RELEASE and is_result(e.args[RELEASE[e.name]], owner[-1])]
                    c.require(not late and not self.raw(p.ret, owner[-1]), AFTER, '%s: %s' % (what, owner[-1].name), '%s/%s/after' % (key, owner[-1].name),
                              '%s: what %s gave is %s after it was released' % (what, owner[-1].name, 'released again' if twice else 'used in %s' % (late[0] if late else 'the result')))
            if a.name in ('AttachCurrentThread', 'AttachCurrentThreadAsDaemon') and num_fact(facts, a) == 0:
                ds = [e for e in evs[i + 1:] if e.kind == 'jni' and e.name == 'DetachCurrentThread']
                c.require(len(ds) == 1, ATTACH, '%s: attach' % what, key + '/attach', '%s: a thread attached here is detached %d times' % (what, len(ds)))
                if ds:
                    late = [e for e in evs[evs.index(ds[0]) + 1:] if e.kind == 'jni']
                    c.require(not late, ATTACH, '%s: order' % what, key + '/order', '%s: %s is called after the thread was detached' % (what, late[:1]))
            if a.name == 'DetachCurrentThread' and not isdrop:
                att = [e for e in evs[:i] if e.kind == 'jni' and e.name.startswith('AttachCurrentThread') and num_fact(facts, e) == 0]
                c.require(len(att) == 1, ATTACH, '%s: detach' % what, key + '/detach', '%s: the thread is detached although it was not attached here' % what)
            if re.match(r'Release\w+ArrayElements$', a.name) or a.name == 'ReleasePrimitiveArrayCritical':
                mode = re.sub(r'_?[iu](8|16|32|64|size)$', '', str(a.args[2][1])) if len(a.args) > 2 and a.args[2][0] == 'c' else rown.show(a.args[2]) if len(a.args) > 2 else '?'
                mode = {'JNI_ABORT': '2', 'JNI_COMMIT': '1'}.get(rown.last_seg(re.sub(r'.*\b(JNI_\w+).*', r'\1', mode)), mode)
                mut = self.mutable(f, a)
                c.require(mode == ('0' if mut else '2'), MODE, '%s: %s' % (what, a.name), '%s/%s/mode' % (key, a.name),
                          '%s: %s is called with mode %s; %s' % (what, a.name, mode, 'the elements may have been changed and are not written back or not freed' if mut else
                                                                  'the elements are only read: expected JNI_ABORT, which frees them and leaves the Java array alone'))

    def mutable(self, f, a):
        """the guard that holds the elements gives out mutable access to them"""
        t = [n for n, d in self.m.drops.items() if any(j.name == a.name for p in self.drop_paths(n) for j in p)]
        for g in self.m.fns:
            if any('&mut [' in (g.f.ret or '') and n in (g.f.types.get(l) or '') for n in t for l in g.f.params):
                return True
        return False

    def drop_paths(self, n):
        for f in self.m.fns:
            if f.f is self.m.drops[n]:
                return [[j for j in p.evs if j.kind == 'jni'] for p in f.paths]
        return []

    def raw(self, v, a):
        """the result of a is in v outside any guard"""
        if not isinstance(v, tuple):
            return False
        if is_result(v, a):
            return True
        if v[:1] != ('agg',) or rown.last_seg(v[1]) in self.m.drops:
            return False
        return any(self.raw(x, a) for k, x in v[3])

    def loops(self, f, what, key, runs):
        """a call that some path makes twice and another less often is in a loop"""
        c = self.c
        sites = {}
        for evs, fs, p in runs:
            cnt = {}
            for e in evs:
                if e.kind == 'jni' and LOCAL.match(e.name):
                    cnt.setdefault((e.name, str(e.e[5])), []).append(e)
            for k, es in cnt.items():
                sites.setdefault(k, []).append((evs, es))
        for (name, span), uses in sites.items():
            if max(len(es) for _, es in uses) < 2 or (len(uses) == len(runs) and min(len(es) for _, es in uses) == max(len(es) for _, es in uses)):
                continue
            for evs, es in uses:
                for x, y in zip(es, es[1:]):
                    mid = evs[evs.index(x):evs.index(y)]
                    rel = [e for e in mid if e.kind == 'jni' and e.name == 'DeleteLocalRef' and is_result(e.args[0], x)]
                    frame = [e for e in mid if e.kind == 'jni' and e.name == 'PopLocalFrame']
                    c.require(bool(rel or frame), LOOP, '%s: %s' % (what, name), '%s/%s/loop' % (key, name), '%s: the local reference that %s gives in one turn of a loop is not released before the next turn' % (what, name))

    def guards(self):
        c = self.c
        for n, d in self.m.drops.items():
            bad = [self.label(f) for f in self.m.fns if re.sub(r'#\d+$', '', f.short) in ('clone', 'clone_from') and n in re.split(r'\W+', f.f.ret or '')]
            c.require(not bad, UNIQUE, 'guard %s' % n, 'clone/' + n, 'jni-include.rs: %s, whose destructor releases a Java resource, can be cloned: the resource is then released twice' % n)
            lost = [f for f in self.m.fns for p in f.paths for e in p.evs if e.kind == 'forget' and any(rown.last_seg(g[1]) == n for x in e.args for g in self.m.guards(x))]
            c.require(not lost, UNIQUE, 'guard %s is not forgotten' % n, 'forget/' + n, 'jni-include.rs: %s forgets a %s: its resource is never released' % (self.label(lost[0]) if lost else '', n))


def run():
    c = Check('P19', 'acquire/release typestate over the MIR paths of the JNI helpers and conversion rules, destructors of guards followed')
    P19(c)
    return c.finish(['paths that end in a panic are not followed: a panic in glue called from Java aborts the process', 'loops are followed for up to two turns'])
