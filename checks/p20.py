"""P20: after a JNI call that can fail or throw, the glue notices before it goes on."""
import re
from core import Check
import jnibase, rast, rown
from jnibase import is_result, null_fact, num_fact
from p19 import P19

CHECK = 'a JNI call that can fail or throw is checked before JNI is used again'
USE = 'the result of a call that can throw is used only after the check'
RAISE = 'when the glue raises an exception it returns at once with a dummy value'

# allowed while an exception is pending (JNI specification, chapter 2)
SAFE = {'ExceptionOccurred', 'ExceptionDescribe', 'ExceptionClear', 'ExceptionCheck', 'ReleaseStringChars', 'ReleaseStringUTFChars', 'ReleaseStringCritical', 'ReleasePrimitiveArrayCritical',
        'DeleteLocalRef', 'DeleteGlobalRef', 'DeleteWeakGlobalRef', 'MonitorExit', 'PushLocalFrame', 'PopLocalFrame', 'DetachCurrentThread', 'GetEnv', 'GetJavaVM'} | \
       {'Release%sArrayElements' % t for t in ('Boolean', 'Byte', 'Char', 'Short', 'Int', 'Long', 'Float', 'Double')}
# a null result says that an exception is pending (or that there is no memory)
NULLSIG = re.compile(r'FindClass|Get(Static)?(Method|Field)ID|AllocObject|NewObject(A|V)?|NewObjectArray|New(Boolean|Byte|Char|Short|Int|Long|Float|Double)Array|NewString(UTF)?|GetString(UTF)?Chars|GetStringCritical|'
                     r'Get(Boolean|Byte|Char|Short|Int|Long|Float|Double)ArrayElements|GetPrimitiveArrayCritical|NewGlobalRef|DefineClass|ToReflected(Method|Field)|NewDirectByteBuffer')
THROWS = re.compile(r'Call\w*Method[AV]?|SetObjectArrayElement|GetObjectArrayElement|(Set|Get)\w+(ArrayRegion|StringRegion|StringUTFRegion)|Throw|ThrowNew|RegisterNatives|NewObject[AV]?')


class P20:
    def __init__(self, c):
        self.c = c
        m, msg = jnibase.load()
        if m is None:
            c.violation('analysis', 'compile', 'the Rust half of jni-include.rs does not compile with stand-in types: %s' % msg[:800])
            return
        self.m = m
        n = 0
        for f in m.fns:
            what = 'the conversion %s to %s (jni-include.rs:%d)' % (f.rule.frm, f.rule.to, f.rule.rule.line) if f.rule else '%s of jni-include.rs' % P19.label(self, f)
            key = '%s=>%s' % (re.sub(r'\s', '', f.rule.frm), re.sub(r'\s', '', f.rule.to)) if f.rule else P19.label(self, f)
            if f.err:
                if re.search(r'JNIEnv|jobject|jstring|jclass', ' '.join(f.f.types.values())):
                    c.violation('analysis', key, '%s cannot be analysed: %s' % (what, f.err))
                continue
            for p in f.paths:
                for evs, fs in m.runs(p):
                    n += 1
                    self.one(f, what, key, evs, fs, p)
        c.analysed('functions and conversion rules of jni-include.rs followed', len(m.fns))
        c.analysed('paths followed', n)
        for r, k in ((CHECK, 60), (USE, 15), (RAISE, 4)):
            c.floor(r, k)

    def settled(self, a, evs, i, facts):
        """what is known about the call a once the events before place i have happened and the facts hold: 'ok', 'thrown' or None"""
        nl = null_fact(facts, a) if NULLSIG.fullmatch(a.name) else None
        if nl == 0 and not THROWS.fullmatch(a.name):
            return 'ok'
        k = next((x for x, e in enumerate(evs) if e is a), 0)
        for e in evs[k + 1:i]:
            if e.kind == 'jni' and e.name == 'ExceptionClear':
                return 'ok'
            if e.kind == 'jni' and e.name in ('ExceptionCheck', 'ExceptionOccurred'):
                r = num_fact(facts, e) if e.name == 'ExceptionCheck' else null_fact(facts, e)
                if e.name == 'ExceptionOccurred' and r is not None:
                    r = 1 - r
                if r == 0:
                    return 'ok'
                if r == 1:
                    nl = 1
        if nl == 1:
            return 'thrown'
        if a.name in ('Throw', 'ThrowNew'):
            return 'thrown' if num_fact(facts, a) != 1 else 'ok'
        return None

    def one(self, f, what, key, evs, facts, p):
        c = self.c
        jni = [e for e in evs if e.kind == 'jni']
        for i, a in enumerate(evs):
            if a.kind != 'jni' or not (NULLSIG.fullmatch(a.name) or THROWS.fullmatch(a.name)):
                continue
            raises = a.name in ('Throw', 'ThrowNew')
            bad = None
            for k in range(i + 1, len(evs)):
                e = evs[k]
                if e.kind == 'jni' and e.name not in SAFE:
                    st = self.settled(a, evs, k, e.facts if e.guard is None else facts)
                    if st == 'ok':
                        break
                    bad = e
                    break
            c.require(bad is None, CHECK, '%s: %s' % (what, a.name), '%s/%s' % (key, a.name),
                      '%s: after %s, %s is called on a path on which nobody has checked for %s' % (what, a.name, bad.name if bad else '', 'a null result' if NULLSIG.fullmatch(a.name) and not THROWS.fullmatch(a.name) else 'a pending exception'))
            end = self.settled(a, evs, len(evs), facts)
            if raises:
                after = [e for e in evs[i + 1:] if e.kind in ('sink', 'leave')]
                if f.rule:
                    c.require(len(after) == 1 and after[0].kind == 'leave', RAISE, '%s: %s' % (what, a.name), '%s/%s/leave' % (key, a.name),
                              '%s: after raising an exception the glue goes on with %s instead of returning' % (what, after[:1] or 'the conversion'))
                continue
            # the end of the path
            handed = any(is_result(x, a) for e in evs if e.kind == 'sink' for x in e.args) or is_result(p.ret, a) or self.opt(p.ret, a) or any(self.opt(x, a) for e in evs if e.kind == 'sink' for x in e.args)
            if NULLSIG.fullmatch(a.name) and not THROWS.fullmatch(a.name):
                c.require(end is not None or handed, USE, '%s: %s' % (what, a.name), '%s/%s/end' % (key, a.name), '%s: the result of %s is never checked for null' % (what, a.name))
            else:
                c.require(end is not None, USE, '%s: %s' % (what, a.name), '%s/%s/end' % (key, a.name), '%s: on a path nobody checks whether %s threw an exception' % (what, a.name))
                if end == 'thrown':
                    c.require(not any(e.kind == 'sink' for e in evs[i:]) or any(e.kind == 'leave' for e in evs), USE, '%s: %s, exception' % (what, a.name), '%s/%s/thrown' % (key, a.name),
                              '%s: the conversion goes on with a value although %s threw an exception' % (what, a.name))
        if f.rule and any(e.kind == 'leave' for e in evs):
            th = [e for e in jni if e.name in ('Throw', 'ThrowNew')]
            c.require(len(th) >= 1 or any(e.kind == 'call' and 'throw' in str(e.e[1]) for e in evs), RAISE, '%s: return' % what, '%s/raise' % key, '%s: the glue returns a dummy value without having raised an exception' % what)
            lv = [e for e in evs if e.kind == 'leave']
            for e in lv:
                v = e.args[0] if e.args else None
                c.require(self.dummy(v), RAISE, '%s: dummy' % what, '%s/dummy' % key, '%s: with an exception raised the glue returns %s, not a dummy value' % (what, rown.show(v)[:120]))

    def opt(self, v, a):
        return isinstance(v, tuple) and v[:1] == ('agg',) and any(is_result(x, a) for k, x in v[3])

    def dummy(self, v):
        if isinstance(v, tuple) and v[:1] == ('c',):
            return True
        t = rown.show(v)
        return 'invalid' in t or t in ('()', 'null', '0', '0.0')


def run():
    c = Check('P20', 'pending-exception typestate over the MIR paths of the JNI helpers and conversion rules, against the JNI specification')
    P20(c)
    return c.finish(['paths that end in a panic are not followed', 'loops are followed for up to two turns', 'functions of JNI without documented exceptions (field and length accessors) do not fail'])
