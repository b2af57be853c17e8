"""P26 Python class conversions respect ownership of the wrapped Rust object."""
from core import Check
from pybase import *

R1 = 'a class is stored in what its constructor returns, or in a mutex'
R2 = 'an object reaches Rust by reference, through its lock, as a counted pointer or as a declared clone'
R3 = 'a returned object is wrapped with the storage of its class'
R4 = 'any other combination is refused'
R5 = 'the Rust method is called once, on the object of the receiver'
CTORS = {'Foo': 'Mutex', 'Mutex<Foo>': 'Mutex', 'Arc<Mutex<Foo>>': 'ArcMutex', 'Arc<Foo>': 'Arc', 'Box<Foo>': 'Box'}
DERIVES = ((), ('Clone',), ('Copy',))
STORED = {'Mutex': 'Mutex<Foo>', 'ArcMutex': 'Arc<Mutex<Foo>>', 'Arc': 'Arc<Foo>', 'Box': 'Foo'}


def wanted(st, derive, what):
    """operations from the argument (or result) of the Rust function to the object; None: must be refused"""
    cl = bool(derive)
    lock = ['lock'] if st in ('Mutex', 'ArcMutex') else []
    if what[0] == 'self':
        what = ('arg', 'none', {'Rptr': 'ref', 'RptrMut': 'mut', 'Default': 'value', 'Mut': 'value'}[what[1]])
    k, p, r = what
    if k == 'arg':
        if p == 'none':
            if r == 'ref':
                return lock
            if r == 'mut':
                return lock or None
            return ['clone'] + lock if cl else None
        if p == 'Mutex' and st == 'Mutex' and r == 'ref':
            return []
        if p in ('Arc', 'ArcMutex') and st == p and r != 'mut':
            return ['clone'] if r == 'value' else []
        return None
    wrap = {('Mutex', 'none'): ['Mutex::new'], ('Mutex', 'Mutex'): [], ('ArcMutex', 'ArcMutex'): [], ('Arc', 'Arc'): [], ('Box', 'none'): [], ('Box', 'Box'): []}.get((st, p))
    if wrap is None:
        return None
    if r == 'value':
        return wrap
    if p == 'Mutex' or not (cl or p in ('Arc', 'ArcMutex')):
        return None
    return wrap + ['clone']


def run():
    c = Check('P26', 'Python class glue rendered from the templates for every storage, derive and way of passing; type-checked and followed on MIR paths')
    src = rast.Source()
    for ctor, st in CTORS.items():
        for derive in DERIVES:
            ms = class_methods() + [(method('Foo::c_new', 'Constructor', [('x', 'i32')], ctor), '(x: i32) -> %s' % ctor, ('ret', {'Foo': 'none', 'Mutex<Foo>': 'Mutex', 'Arc<Mutex<Foo>>': 'ArcMutex', 'Arc<Foo>': 'Arc', 'Box<Foo>': 'Box'}[ctor], 'value'))]
            lab = 'class with constructor -> %s%s' % (ctor, ', derive(%s)' % derive[0] if derive else '')
            key = '%s/%s' % (nows(ctor), '+'.join(derive))
            S, it, fns, msg = load(src, ctor, derive, [x[:2] for x in ms], re.sub(r'\W', '_', key))
            if it is None:
                c.violation('glue', key, '%s: the generated glue does not fit the declared types: %s' % (lab, msg[:1500]))
                continue
            m = re.search(r'data\s+rust_instance\s*:\s*(.*?)\s*;\s*$', S.field, re.S)
            got = re.sub(r'\bstd::sync::|\bsuper::', '', nows(m.group(1)))
            c.require(got == nows(STORED[st]), R1, lab, key, '%s: objects are stored as %s, not as %s' % (lab, got, STORED[st]))
            c.analysed('methods rendered', len(S.text))
            for m, decl, what in ms:
                n = lit(m.f['rust_id']).split('::')[-1]
                w = wanted(st, derive, what)
                desc = {'arg': 'argument of type %s', 'ret': 'result of type %s'}[what[0]] % (REF[what[2]] % (WRAP[what[1]] % 'Foo')) if what[0] != 'self' else 'receiver ' + decl.split(',')[0].strip('(')
                k = key + '/' + n
                if w is None:
                    c.require(n in S.refused, R4, desc, k, '%s: %s is accepted, but there is no safe way to make it' % (lab, desc))
                    continue
                if n in S.refused:
                    c.violation(R4, k, '%s: %s is refused though it can be made' % (lab, desc))
                    continue
                try:
                    ps = it.run(fns[n])
                except Unsupported as e:
                    c.violation('analysis', k, '%s: %s: %s' % (lab, desc, e))
                    continue
                bad = None
                okp = 0
                for p in ps:
                    if agg(p.ret, 'Ok') is None and agg(p.ret, 'Err') is None and payload(p.ret, 'Err') is None:
                        bad = 'the result %s is not the one of the method' % show(p.ret)[:200]
                        break
                    us = ucalls(p, n)
                    if len(us) != 1:
                        bad = 'the method is called %d times on a path' % len(us)
                        break
                    if any(e[0] in ('forget', 'store', 'into_raw', 'from_raw') for e in p.events):
                        bad = 'the object is forgotten or written over'
                        break
                    locks = [e for e in p.events if e[0] == 'call' and e[1].endswith('Mutex::lock')]
                    if what[0] != 'ret':
                        a = us[0][2][0]
                        want = w + ['instance of %s' % ('self' if what[0] == 'self' else 'x')]
                        if ops(a) != want:
                            bad = 'the object is passed as [%s], not as [%s]' % (' of '.join(ops(a)), ' of '.join(want))
                            break
                        if len(locks) != w.count('lock'):
                            bad = 'the lock is taken %d times' % len(locks)
                            break
                        if what[0] == 'self' and (len(us[0][2]) != 2 or show(us[0][2][1]) != 'x'):
                            bad = 'the other argument is not passed on'
                            break
                        okp += 1
                    else:
                        cr = [e for e in p.events if e[0] == 'call' and e[1].endswith('::create_instance')]
                        if len(cr) != 1:
                            bad = 'a Python object is created %d times' % len(cr)
                            break
                        want = w + ['result']
                        if ops(cr[0][2][1]) != want:
                            bad = 'the new object is made of [%s], not of [%s]' % (' of '.join(ops(cr[0][2][1])), ' of '.join(want))
                            break
                        o = agg(p.ret, 'Ok')
                        if o is not None:
                            okp += 1
                            if callname(peel(payload(o[0], 'Ok'))) != 'create_instance':
                                bad = 'what is returned is not the new object: %s' % show(o[0])[:200]
                                break
                if not bad and not okp:
                    bad = 'no path returns'
                r = R3 if what[0] == 'ret' else R2 if what[0] == 'arg' else R5
                c.require(bad is None, r, desc, k, '%s: %s: %s' % (lab, desc, bad))
    c.floor(R1, 15)
    for r, n in ((R2, 60), (R3, 40), (R4, 300), (R5, 40)):
        c.floor(r, n)
    return c.finish(['std::sync::Mutex and Arc and the python binding behave as documented', 'the binding gives the glue a shared reference to the stored object only'])
