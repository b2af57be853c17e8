"""The functions of the JNI, from the platform's jni.h, and what the JNI specification says about them."""
import glob, re

_tab = {}


class JFn:
    def __init__(self, name, ret, params, variadic):
        self.name, self.ret, self.params, self.variadic = name, ret, params, variadic

    def __repr__(self):
        return 'JFn(%s %s(%s))' % (self.ret, self.name, ', '.join(self.params))


def table(struct='JNINativeInterface_'):
    """functions of the interface by their place in the table (None for a reserved place)"""
    if struct not in _tab:
        fs = sorted(glob.glob('/usr/lib/jvm/*/include/jni.h'))
        if not fs:
            raise Exception('jni.h not found')
        text = re.sub(r'/\*.*?\*/', '', open(fs[-1]).read(), flags=re.S)
        m = re.search(r'struct %s \{(.*?)\n\};' % struct, text, re.S)
        out = []
        for d in m.group(1).split(';'):
            d = re.sub(r'#\w+[^\n]*', '', d).strip()
            if not d:
                continue
            x = re.match(r'(.*?)\(\s*JNICALL\s*\*\s*(\w+)\s*\)\s*\((.*)\)$', d, re.S)
            if not x:
                if re.match(r'void\s*\*\s*reserved', d):
                    out.append(None)
                    continue
                raise Exception('jni.h: ' + d)
            ps = [re.sub(r'\s+', ' ', p.strip()) for p in x.group(3).split(',')]
            var = ps[-1] == '...'
            if var:
                ps = ps[:-1]
            types = []
            for p in ps:
                y = re.match(r'((?:const )?\w+(?: \**)?\**)\s*(\w*)$', p)
                t = re.sub(r'\s*(\*+)\s*\w*$', r' \1', p) if '*' in p else p.split(' ')[-2] if len(p.split(' ')) > 1 else p
                types.append(t.strip())
            out.append(JFn(x.group(2), re.sub(r'\s+', ' ', x.group(1).strip()), types[1:], var))
        _tab[struct] = out
    return _tab[struct]


OBJ = {'jobject', 'jclass', 'jstring', 'jarray', 'jobjectArray', 'jbooleanArray', 'jbyteArray', 'jcharArray', 'jshortArray', 'jintArray', 'jlongArray',
       'jfloatArray', 'jdoubleArray', 'jthrowable', 'jmethodID', 'jfieldID'}
# parameters that may be the null reference (function -> positions after env)
MAYNULL = {'DeleteLocalRef': {0}, 'DeleteGlobalRef': {0}, 'DeleteWeakGlobalRef': {0}, 'NewLocalRef': {0}, 'NewGlobalRef': {0}, 'NewWeakGlobalRef': {0},
           'IsSameObject': {0, 1}, 'IsInstanceOf': {0}, 'NewObjectArray': {2}, 'SetObjectArrayElement': {2}, 'PopLocalFrame': {0}, 'SetObjectField': {2},
           'SetStaticObjectField': {2}, 'DefineClass': {1}, 'GetObjectRefType': {0}}


def jni_call(e):
    """(JFn, arguments after env) of a call event of rown.py, or None"""
    if e[0] != 'call' or not e[2]:
        return None
    v = e[2][0]
    if not (isinstance(v, tuple) and len(v) == 3 and v[0] == 'fld' and v[2] == 0 and v[1][0] == 'as' and v[1][2] == 'Some' and v[1][1][0] == 'fld' and isinstance(v[1][1][2], int)):
        return None
    base, idx = v[1][1][1], v[1][1][2]
    if base[0] != 'deref' or base[1][0] != 'deref':
        return None
    vm = 'JNIInvokeInterface_' if len(e) > 7 and 'JNIInvokeInterface_' in e[7] and 'JNINativeInterface_' not in e[7].split(',')[0].split(')')[0] else 'JNINativeInterface_'
    t = table(vm)
    if idx >= len(t) or t[idx] is None:
        return None
    return t[idx], e[2][2:]
