"""Typestate of C++ objects that own a foreign allocation: fixpoint over all sequences of their operations.

The state of an object is the content of its memory over tokens (the parts of the allocation it was given).  Starting
from the constructors every operation is applied to every reachable state (pairs of states, and the same object twice,
for the binary ones) until no new state appears; each application is checked for linearity of the tokens."""
import re
from llvmir import *

DRIVER = r'''
#include <cstdint>
#include <cstddef>
#include <cstdlib>
#include <utility>
#include <cassert>
#include <new>
#include <type_traits>
'''


def driver(prefix, cls, parts, from_parts='%(cls)s(o)', extra=(), without=()):
    """C++ text of the operations of class `cls` made from `parts` (type of the raw parts)"""
    d = dict(p=prefix, cls=cls, parts=parts)
    d['from'] = from_parts % d
    t = '''
template <class C, class = void> struct %(p)s_has_release : std::false_type {};
template <class C> struct %(p)s_has_release<C, decltype((void)std::declval<C &>().release())> : std::true_type {};
template <class C, class = void> struct %(p)s_has_clear : std::false_type {};
template <class C> struct %(p)s_has_clear<C, decltype((void)std::declval<C &>().clear())> : std::true_type {};
template <class C, class = void> struct %(p)s_has_size : std::false_type {};
template <class C> struct %(p)s_has_size<C, decltype((void)std::declval<const C &>().size())> : std::true_type {};
template <class C, class R, class = typename std::enable_if<%(p)s_has_release<C>::value>::type> void %(p)s_do_release(R *r, C &a) { new (r) R(a.release()); }
template <class C> struct %(p)s_ops {
    template <class D = C> static typename std::enable_if<std::is_default_constructible<D>::value>::type dflt(void *p) { new (p) D(); }
    template <class D = C> static typename std::enable_if<!std::is_default_constructible<D>::value>::type dflt(void *) { std::abort(); }
    template <class D = C> static typename std::enable_if<std::is_move_constructible<D>::value>::type mctor(void *p, D &o) { new (p) D(std::move(o)); }
    template <class D = C> static typename std::enable_if<!std::is_move_constructible<D>::value>::type mctor(void *, D &) { std::abort(); }
    template <class D = C> static typename std::enable_if<std::is_copy_constructible<D>::value>::type cctor(void *p, const D &o) { new (p) D(o); }
    template <class D = C> static typename std::enable_if<!std::is_copy_constructible<D>::value>::type cctor(void *, const D &) { std::abort(); }
    template <class D = C> static typename std::enable_if<std::is_move_assignable<D>::value>::type massign(D &a, D &o) { a = std::move(o); }
    template <class D = C> static typename std::enable_if<!std::is_move_assignable<D>::value>::type massign(D &, D &) { std::abort(); }
    template <class D = C> static typename std::enable_if<std::is_copy_assignable<D>::value>::type cassign(D &a, const D &o) { a = o; }
    template <class D = C> static typename std::enable_if<!std::is_copy_assignable<D>::value>::type cassign(D &, const D &) { std::abort(); }
    template <class D = C> static typename std::enable_if<%(p)s_has_release<D>::value>::type release(%(parts)s *r, D &a) { new (r) %(parts)s(a.release()); }
    template <class D = C> static typename std::enable_if<!%(p)s_has_release<D>::value>::type release(%(parts)s *, D &) { std::abort(); }
    template <class D = C> static typename std::enable_if<%(p)s_has_clear<D>::value>::type clear(D &a) { a.clear(); }
    template <class D = C> static typename std::enable_if<!%(p)s_has_clear<D>::value>::type clear(D &) { std::abort(); }
    template <class D = C> static typename std::enable_if<%(p)s_has_size<D>::value, size_t>::type size(const D &a) { return a.size(); }
    template <class D = C> static typename std::enable_if<!%(p)s_has_size<D>::value, size_t>::type size(const D &) { std::abort(); }
};
extern "C" {
void %(p)s_from(void *p, %(parts)s const &o) { new (p) %(from)s; }
void %(p)s_dflt(void *p) { %(p)s_ops<%(cls)s>::dflt(p); }
void %(p)s_mctor(void *p, %(cls)s &o) { %(p)s_ops<%(cls)s>::mctor(p, o); }
void %(p)s_cctor(void *p, const %(cls)s &o) { %(p)s_ops<%(cls)s>::cctor(p, o); }
void %(p)s_massign(%(cls)s &a, %(cls)s &o) { %(p)s_ops<%(cls)s>::massign(a, o); }
void %(p)s_cassign(%(cls)s &a, const %(cls)s &o) { %(p)s_ops<%(cls)s>::cassign(a, o); }
void %(p)s_dtor(%(cls)s &a) { typedef %(cls)s T; a.~T(); }
void %(p)s_release(%(parts)s *r, %(cls)s &a) { %(p)s_ops<%(cls)s>::release(r, a); }
void %(p)s_clear(%(cls)s &a) { %(p)s_ops<%(cls)s>::clear(a); }
size_t %(p)s_size(const %(cls)s &a) { return %(p)s_ops<%(cls)s>::size(a); }
size_t %(p)s_sizeof() { return sizeof(%(cls)s); }
}
''' % d
    for op in without:
        # not an operation of this type (refused when it is compiled)
        t = re.sub(r'(?m)^((?:void|size_t) %s_%s\([^{]*\) )\{.*\}$' % (prefix, op), r'\1{ std::abort(); }', t)
    return t + '\n'.join(extra)


class Resource:
    """free/clone: names of the external functions; nparts: cells of the raw parts; lenpart: index of the length"""

    def __init__(self, free, clone=None, nparts=3, lenpart=1, cappart=2, owning=True, lend=(), copyable=False, make=()):
        self.free, self.clone, self.nparts, self.lenpart, self.cappart, self.owning, self.lend, self.copyable, self.make = \
            free, clone, nparts, lenpart, cappart, owning, lend, copyable, make


def canon(cells):
    return tuple(sorted(((o, z, v) for o, (z, v) in cells.items()), key=repr))


def rename(cells, frm, to):
    def f(a):
        if isinstance(a, tuple) and a[0] == 'part_of' and a[1] == frm:
            return A(('part_of', to, a[2]))
        return None
    return {o: (z, v.subst(f)) for o, (z, v) in cells.items()}


class Explorer:
    def __init__(self, chk, rule, name, mod, prefix, res, file, offsets):
        self.c, self.rule, self.name, self.res, self.file = chk, rule, name, res, file
        self.p = prefix
        self.mod = mod
        self.I = Interp(mod)
        self.offsets = offsets    # offsets of the parts in the raw struct: [(off,size)]
        self.states = {}          # canonical cells -> (label)
        self.work = []
        self.bad = set()
        self.viol = []
        self.applied = 0
        self.have = set()

    def v(self, key, msg):
        k = '%s/%s' % (self.name, key)
        if k not in self.bad:
            self.bad.add(k)
            self.c.violation(self.rule, k, msg)

    def part(self, t, k):
        return A(('part_of', t, k))

    def token(self, t):
        return [self.part(t, k) for k in range(self.res.nparts)]

    def add(self, cells, label):
        # normalise the token letter
        toks = sorted({a[1] for z, v in cells.values() for a in v.atoms() if isinstance(a, tuple) and a[0] == 'part_of'})
        if len(toks) == 1:
            cells = rename(cells, toks[0], 'T')
        elif len(toks) > 1:
            cells = dict(cells)
        k = canon(cells)
        if k in self.states:
            return
        if len(self.states) > 40:
            self.v('states', '%s: the object reaches too many distinct states (last through %s)' % (self.name, label))
            return
        self.states[k] = label
        self.work.append(k)

    def apply(self, op, args, tokens, objs, what, produces=None):
        """run operation; args: values; tokens: letters owned before; objs: live objects after"""
        s = State()
        for o, cells in args['mem'].items():
            s.mem[o] = dict(cells)
            s.mode[o] = 'uninit'
        fn = '%s_%s' % (self.p, op)
        try:
            paths = self.I.run(fn, s, args['vals'])
        except Unknown as e:
            self.v('unknown/' + op, '%s: operation %s cannot be analysed: %s' % (self.name, what, e))
            return []
        self.applied += 1
        out = []
        for p in paths:
            if p.end == 'unreachable':
                # reached only under undefined behaviour of the operation itself
                self.v('undefined/' + op, '%s: %s has undefined behaviour on a path with %s' % (self.name, what, p.facts))
                continue
            if p.end != 'ret':
                continue
            out.append(p)
            self.linear(op, what, p, set(tokens), objs)
        return out

    def nulltok(self, p, t):
        return decide(p.facts, 'eq', self.part(t, 0), K(0)) is True

    def linear(self, op, what, p, live, objs):
        res = self.res
        dead = set()
        fresh = {}
        for e in p.events:
            if e.kind != 'call':
                if e.kind == 'store':
                    self.v('store/' + op, '%s: %s writes through %s (%s)' % (self.name, what, e.args[0], e.where))
                continue
            flat = [x for a in e.args for x in (a if isinstance(a, list) else [a])]
            used = {a[1] for x in flat if isinstance(x, P) for a in x.atoms() if isinstance(a, tuple) and a[0] == 'part_of' and a[2] == 0}
            used |= {fresh[a[1]] for x in flat if isinstance(x, P) for a in x.atoms() if isinstance(a, tuple) and a[0] == 'ret' and a[1] in fresh and a[2] == 0}
            for t in used & dead:
                self.v('after-free/' + op, '%s: %s calls %s with an allocation that was already released (%s)' % (self.name, what, e.name, e.where))
            if e.name == res.free:
                if not res.owning:
                    self.v('free/' + op, '%s: %s frees although the object does not own its data (%s)' % (self.name, what, e.where))
                    continue
                tk = [t for t in live | set(fresh.values()) if flat == self.tokparts(t, fresh)]
                if tk:
                    dead.add(tk[0])
                elif flat[0].const() not in (None, 0) and res.cappart is not None and flat[res.lenpart].const() == 0 and flat[res.cappart].const() == 0:
                    pass    # empty vector: nothing to free
                else:
                    self.v('bad-free/' + op, '%s: %s frees %s, which is not an allocation the object owns (%s)' % (self.name, what, flat, e.where))
            elif res.clone and e.name == res.clone:
                src = [t for t in live | set(fresh.values()) if flat == self.tokparts(t, fresh)]
                if not src and not (flat[0].const() not in (None, 0)) and not (flat[0].const() == 0):
                    self.v('bad-clone/' + op, '%s: %s clones %s, which are not the parts of an allocation (%s)' % (self.name, what, flat, e.where))
                rid = (e.ret[0] if isinstance(e.ret, list) else e.ret).atom()[1]
                fresh[rid] = 'new:' + rid
            elif e.name in res.make:
                rid = (e.ret[0] if isinstance(e.ret, list) else e.ret).atom()[1]
                fresh[rid] = 'new:' + rid
            elif e.name in res.lend:
                pass
            else:
                self.v('call/' + op, '%s: %s calls %s (%s)' % (self.name, what, e.name, e.where))
        # where are the tokens now
        def owners(t):
            n = []
            head = self.tokparts(t, fresh)[0]
            for o in objs:
                if any(v == head for z, v in p.mem.get(o, {}).values()):
                    n.append(o)
            return n
        if not res.owning:
            return
        for t in sorted(live | set(fresh.values())):
            n = owners(t)
            if t in dead:
                if n:
                    self.v('dangling/' + op, '%s: after %s object %s still holds an allocation that was freed' % (self.name, what, n[0]))
                continue
            if decide(p.facts, 'eq', self.tokparts(t, fresh)[0], K(0)) is True:
                continue
            if len(n) == 0:
                self.v('leak/' + op, '%s: %s loses an allocation: it is neither freed nor owned by an object afterwards' % (self.name, what))
            elif len(n) > 1:
                self.v('double/' + op, '%s: after %s two objects (%s) own the same allocation' % (self.name, what, ', '.join(n)))
            elif n[0] != 'r':
                pass

    def tokparts(self, t, fresh):
        if isinstance(t, str) and t.startswith('new:'):
            return [A(('ret', t[4:], k)) for k in range(self.res.nparts)]
        return self.token(t)

    def obj(self, cells, letter):
        return rename(dict((o, (z, v)) for o, z, v in cells), 'T', letter)

    def toks_in(self, cells):
        return {a[1] for z, v in cells.values() for a in v.atoms() if isinstance(a, tuple) and a[0] == 'part_of' and a[2] == 0}

    def post(self, p, o, label):
        cells = p.mem.get(o, {})
        ids = sorted({a[1] for z, v in cells.values() for a in v.atoms() if isinstance(a, tuple) and a[0] == 'ret'})
        if len(ids) == 1:
            def f(a):
                return A(('part_of', 'N', a[2])) if isinstance(a, tuple) and a[0] == 'ret' else None
            cells = {k: (z, v.subst(f)) for k, (z, v) in cells.items()}
        self.add(cells, label)

    def explore(self, must=()):
        ad = lambda o: A(('addr', o))
        raw = {o: (z, self.part('T', k)) for k, (o, z) in enumerate(self.offsets)}
        r = self.apply('from', dict(mem={'a': {}, 'raw': raw}, vals=[ad('a'), ad('raw')]), {'T'}, ['a'], 'construction from raw parts')
        if not r:
            self.v('from', '%s: construction from raw parts never returns' % self.name)
        for p in r:
            self.post(p, 'a', 'constructed from raw parts')
            self.have.add('from')
        for p in self.apply('dflt', dict(mem={'a': {}}, vals=[ad('a')]), set(), ['a'], 'default construction'):
            self.post(p, 'a', 'default constructed')
            self.have.add('dflt')
        done = set()
        while self.work:
            self.work.pop()
            for st in list(self.states):
                self.unary(st, done, ad)
                for st2 in list(self.states):
                    self.binary(st, st2, done, ad)
        for m in must:
            if m not in self.have:
                self.v('missing/' + m, '%s: operation %s is gone or aborts always' % (self.name, m))

    def unary(self, st, done, ad):
        if ('u', st) in done:
            return
        done.add(('u', st))
        lab = self.states[st]
        a = self.obj(st, 'A')
        ta = self.toks_in(a)
        before = canon(a)
        for p in self.apply('dtor', dict(mem={'a': a}, vals=[ad('a')]), ta, [], 'destruction of an object %s' % lab):
            self.have.add('dtor')
        for p in self.apply('clear', dict(mem={'a': a}, vals=[ad('a')]), ta, ['a'], 'clear() of an object %s' % lab):
            self.have.add('clear')
            if self.toks_in(p.mem['a']) and not all(self.nulltok(p, t) for t in self.toks_in(p.mem['a'])):
                self.v('clear/owns', '%s: after clear() of an object %s it still owns its data' % (self.name, lab))
            self.post(p, 'a', 'cleared after it was ' + lab)
        for p in self.apply('release', dict(mem={'a': a, 'r': {}}, vals=[ad('r'), ad('a')]), ta, ['a', 'r'], 'release() of an object %s' % lab):
            self.have.add('release')
            got = [p.mem['r'].get(o, (z, UNDEF))[1] for o, z in self.offsets]
            if ta and got != self.token('A'):
                self.v('release/parts', '%s: release() of an object %s returns %s instead of the parts it was made from' % (self.name, lab, got))
            if self.res.owning and self.toks_in(p.mem['a']):
                self.v('release/owns', '%s: after release() an object %s still owns its data' % (self.name, lab))
            self.post(p, 'a', 'released after it was ' + lab)
        for p in self.apply('size', dict(mem={'a': a}, vals=[ad('a')]), ta, ['a'], 'size() of an object %s' % lab):
            self.have.add('size')
            want = self.part('A', self.res.lenpart) if ta else K(0)
            if p.ret != want:
                self.v('size', '%s: size() of an object %s is %s instead of %s' % (self.name, lab, p.ret, want))
        for op, what in (('massign', 'move'), ('cassign', 'copy')):
            for p in self.apply(op, dict(mem={'a': a}, vals=[ad('a'), ad('a')]), ta, ['a'], 'self-%s-assignment of an object %s' % (what, lab)):
                if op == 'cassign' and self.res.owning:
                    for t in ta:
                        if not self.nulltok(p, t) and t not in self.toks_in(p.mem['a']):
                            ids = {x[1] for z, v in p.mem['a'].values() for x in v.atoms() if isinstance(x, tuple) and x[0] == 'ret'}
                            if len(ids) != 1 or not self.cloned_from(p, list(ids)[0], t):
                                self.v('self/' + op, '%s: self-copy-assignment of an object %s loses its data' % (self.name, lab))
                self.post(p, 'a', 'self-%s-assigned after it was %s' % (what, lab))
        for op, what in (('mctor', 'move'), ('cctor', 'copy')):
            for p in self.apply(op, dict(mem={'a': a, 'b': {}}, vals=[ad('b'), ad('a')]), ta, ['a', 'b'], '%s construction from an object %s' % (what, lab)):
                self.have.add(op)
                self.moved(op, p, ta, what + ' construction', lab, before)
                self.post(p, 'a', 'source of %s construction after it was %s' % (what, lab))
                self.post(p, 'b', '%s constructed from an object %s' % (what, lab))

    def moved(self, op, p, ta, what, lab, before, src='a', dst='b'):
        res = self.res
        sc, dc = p.mem.get(src, {}), p.mem.get(dst, {})
        if op in ('mctor', 'massign'):
            for t in ta:
                if t in self.toks_in(sc) and not self.nulltok(p, t) and res.owning:
                    self.v('source/' + op, '%s: after %s from an object %s the source still owns the data' % (self.name, what, lab))
                want = self.token(t)
                if not all(any(v == w for z, v in dc.values()) for w in want):
                    self.v('parts/' + op, '%s: %s from an object %s does not carry all parts over (%s)' % (self.name, what, lab, sorted((o, v) for o, (z, v) in dc.items())))
        elif res.owning or res.copyable:
            if canon({o: c for o, c in sc.items()}) != before and res.owning:
                extra = [c for c in canon(sc) if c not in before]
                if extra:
                    self.v('source/' + op, '%s: %s changes its source, an object %s' % (self.name, what, lab))
            for t in ta:
                if not self.nulltok(p, t):
                    ids = {a[1] for z, v in dc.values() for a in v.atoms() if isinstance(a, tuple) and a[0] == 'ret'}
                    if res.owning and len(ids) != 1:
                        self.v('copy/' + op, '%s: %s from an object %s does not own a clone of the data' % (self.name, what, lab))
                    elif res.owning:
                        i = ids.pop()
                        if not all(any(v == A(('ret', i, k)) for z, v in dc.values()) for k in range(res.nparts)):
                            self.v('parts/' + op, '%s: %s from an object %s does not keep all parts of the clone' % (self.name, what, lab))
                        if not self.cloned_from(p, i, t):
                            self.v('other/' + op, '%s: %s from an object %s clones something else than the data of its source' % (self.name, what, lab))

    def cloned_from(self, p, rid, t):
        for e in p.events:
            if e.kind == 'call' and e.name == self.res.clone and (e.ret[0] if isinstance(e.ret, list) else e.ret).atom()[1] == rid:
                flat = [x for a in e.args for x in (a if isinstance(a, list) else [a])]
                return flat == self.token(t)
        return False

    def binary(self, st, st2, done, ad):
        if ('b', st, st2) in done:
            return
        done.add(('b', st, st2))
        a, b = self.obj(st, 'A'), self.obj(st2, 'B')
        ta, tb = self.toks_in(a), self.toks_in(b)
        lab = '%s, source %s' % (self.states[st], self.states[st2])
        before = canon(b)
        for op, what in (('massign', 'move assignment'), ('cassign', 'copy assignment')):
            for p in self.apply(op, dict(mem={'a': a, 'b': b}, vals=[ad('a'), ad('b')]), ta | tb, ['a', 'b'], '%s (target %s)' % (what, lab)):
                self.have.add(op)
                self.moved(op, p, tb, what, self.states[st2], before, 'b', 'a')
                if self.res.owning:
                    for t in ta:
                        if t in self.toks_in(p.mem['a']) | self.toks_in(p.mem['b']) and not self.nulltok(p, t):
                            self.v('old/' + op, '%s: %s (target %s) does not release what the target owned' % (self.name, what, lab))
                self.post(p, 'a', 'target of ' + what)
                self.post(p, 'b', 'source of ' + what)
