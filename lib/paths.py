"""Path queries over (inlined) MIR."""
import re
from mir import *


def assigns_err(ss, t):
    for s in ss:
        if s.place.base == 0 and not s.place.proj and s.rv.kind == 'agg' and re.search(r'::Err$', strip_generics(s.rv.name or '')):
            return True
    return t.kind == 'call' and t.dest.base == 0 and 'from_residual' in t.callee


def assigns_ok(ss, t):
    for s in ss:
        if s.place.base == 0 and not s.place.proj and s.rv.kind == 'agg' and re.search(r'::Ok$', strip_generics(s.rv.name or '')):
            return True
    return False


def must_pass(f, start, events, start_idx=None, err_ok=True):
    """None if every path from (start block, after stmt index) to a return passes an event,
    where events(block, idx_or_'term') -> bool; returns the offending block list otherwise.
    Paths on which _0 becomes an Err are not required to pass (err_ok)."""
    seen = set()
    st = [(start, start_idx, (start,))]
    while st:
        b, idx, trail = st.pop()
        if b in seen and idx is None:
            continue
        if idx is None:
            seen.add(b)
        ss, t = f.blocks[b]
        done = False
        for i, s in enumerate(ss):
            if idx is not None and (idx == 'term' or i <= idx):
                continue
            if events(b, i, s):
                done = True
                break
        if not done and not (idx == 'term'):
            if events(b, 'term', t):
                done = True
        if done:
            continue
        if err_ok and assigns_err(ss, t):
            continue
        if t.kind == 'return':
            return trail
        for x in t.succ():
            st.append((x, None, trail + (x,)))
    return None


def const_bool(c):
    if c is None:
        return None
    c = c.strip()
    return {'true': 1, 'false': 0}.get(c)


class PathExplorer:
    """enumerates loop-free paths from a block to a set of target blocks, propagating constants of
    scalar locals, so that flags merged through a bool are followed only along consistent edges.
    Conditions: list of (switch block, operand local, label)."""

    def __init__(self, g, max_paths=4000, max_visits=1):
        self.g, self.max_paths, self.max_visits = g, max_paths, max_visits

    def paths(self, start, targets):
        g = self.g
        can = self._can_reach(targets)
        out = []
        stack = [(start, {}, (), (start,))]
        steps = 0
        while stack:
            steps += 1
            if steps > 400000:
                raise RuntimeError('path explosion in ' + g.name)
            b, env, conds, trail = stack.pop()
            ss, t = g.blocks[b]
            if b in targets:
                out.append((conds, trail, env))
                if len(out) > self.max_paths:
                    raise RuntimeError('too many paths in ' + g.name)
                continue
            env = self._exec(env, ss)
            if t.kind == 'call' and t.dest is not None and not t.dest.proj:
                env = dict(env)
                env.pop(t.dest.base, None)
            if t.kind == 'switch':
                v = self._val(env, t.op)
                labels = [l for l, _ in t.targets]
                for l, x in t.targets:
                    if v is not None:
                        if l == 'otherwise':
                            if str(v) in labels:
                                continue
                        elif l != str(v):
                            continue
                    if x not in can or trail.count(x) >= self.max_visits:
                        continue
                    e2 = env
                    if v is None and t.op.place is not None and not t.op.place.proj:
                        e2 = dict(env)
                        if l != 'otherwise':
                            e2[t.op.place.base] = int(l) if l.lstrip('-').isdigit() else None
                        elif labels[:1] == ['0'] and len(labels) == 2 and g.types.get(t.op.place.base) == 'bool':
                            e2[t.op.place.base] = 1
                    stack.append((x, e2, conds + ((b, t.op, l, v is not None),), trail + (x,)))
                continue
            for x in t.succ():
                if x in can and trail.count(x) < self.max_visits:
                    stack.append((x, env, conds, trail + (x,)))
        return out

    def pointee(self, place):
        """the plain local a pointer place points to, through copies, reborrows and captures"""
        if not hasattr(self, '_defs'):
            self._defs = {}
            for b, (ss, t) in self.g.blocks.items():
                for s in ss:
                    if not s.place.proj:
                        self._defs.setdefault(s.place.base, []).append(s)
                if t.kind == 'call' and t.dest is not None and not t.dest.proj:
                    self._defs.setdefault(t.dest.base, []).append(None)
        base, fields = place.base, [p for p in place.proj if p[0] in ('field', 'deref')]
        for _ in range(30):
            if not fields:
                return base
            ds = self._defs.get(base, [])
            if len(ds) != 1 or ds[0] is None:
                return None
            rv = ds[0].rv
            if rv.kind in ('use', 'cast') and rv.ops[0].place is not None:
                base, fields = rv.ops[0].place.base, [p for p in rv.ops[0].place.proj if p[0] in ('field', 'deref')] + fields
            elif rv.kind in ('ref', 'refmut', 'rawptr') and fields[0][0] == 'deref':
                base, fields = rv.ops[0].place.base, [p for p in rv.ops[0].place.proj if p[0] in ('field', 'deref')] + fields[1:]
            elif rv.kind == 'agg' and fields[0][0] == 'field' and fields[0][1] < len(rv.ops) and rv.ops[fields[0][1]].place is not None:
                q = rv.ops[fields[0][1]].place
                base, fields = q.base, [p for p in q.proj if p[0] in ('field', 'deref')] + fields[1:]
            else:
                return None
        return None

    def _exec(self, env, ss):
        e = None
        for s in ss:
            if s.place.proj:
                if any(p[0] == 'deref' for p in s.place.proj):
                    l = self.pointee(s.place)
                    if l is not None:
                        e = dict(env) if e is None else e
                        v = self._val(e, s.rv.ops[0]) if s.rv.kind == 'use' else None
                        if v is None:
                            e.pop(l, None)
                        else:
                            e[l] = v
                continue
            if e is None:
                e = dict(env)
            v = None
            if s.rv.kind == 'use':
                v = self._val(e, s.rv.ops[0])
            elif s.rv.kind == 'un' and s.rv.name == 'Not':
                x = self._val(e, s.rv.ops[0])
                v = (1 - x) if x in (0, 1) else None
            if v is None:
                e.pop(s.place.base, None)
            else:
                e[s.place.base] = v
        return e if e is not None else env

    def _val(self, env, op):
        if op.place is None:
            return const_bool(op.const)
        if op.place.proj:
            return None
        return env.get(op.place.base)

    def _can_reach(self, targets):
        preds = {}
        for b, (ss, t) in self.g.blocks.items():
            for x in t.succ():
                preds.setdefault(x, []).append(b)
        seen = set()
        st = list(targets)
        while st:
            b = st.pop()
            if b in seen:
                continue
            seen.add(b)
            st.extend(preds.get(b, []))
        return seen


def cond_defs(g, op, depth=0, neg=False):
    """the calls / expressions a branch operand stands for: yields (kind, obj, negated)"""
    out = []
    if op.place is None or depth > 12:
        return out
    b0 = op.place.base
    if op.place.proj:
        out.append(('place', op.place, neg))
        return out
    found = False
    for b, (ss, t) in g.blocks.items():
        for s in ss:
            if s.place.base == b0 and not s.place.proj:
                found = True
                if s.rv.kind == 'use':
                    out += cond_defs(g, s.rv.ops[0], depth + 1, neg)
                elif s.rv.kind == 'un' and s.rv.name == 'Not':
                    out += cond_defs(g, s.rv.ops[0], depth + 1, not neg)
                else:
                    out.append(('rv', s, neg))
        if t.kind == 'call' and t.dest is not None and t.dest.base == b0 and not t.dest.proj:
            found = True
            out.append(('call', t, neg))
    if not found:
        out.append(('place', op.place, neg))
    return out


def reach_without(g, start, target, events):
    """is block `target`'s terminator reachable from `start` without an event on the way
    (events(b, i, x) as in must_pass; the target's own terminator is not tested)"""
    seen, st = set(), [start]
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        ss, t = g.blocks[b]
        if any(events(b, i, s) for i, s in enumerate(ss)):
            continue
        if b == target:
            return True
        if events(b, 'term', t):
            continue
        st.extend(t.succ())
    return False


def dominators(g):
    live = g.reachable(0)
    order, seen = [], set()
    st = [(0, iter(g.blocks[0][1].succ()))]
    seen.add(0)
    while st:
        b, it = st[-1]
        for x in it:
            if x not in seen:
                seen.add(x)
                st.append((x, iter(g.blocks[x][1].succ())))
                break
        else:
            order.append(b)
            st.pop()
    order.reverse()
    idx = {b: i for i, b in enumerate(order)}
    preds = {}
    for b in order:
        for x in g.blocks[b][1].succ():
            preds.setdefault(x, []).append(b)
    idom = {0: 0}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            new = None
            for p in preds.get(b, []):
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while idx[x] > idx[y]:
                                x = idom[x]
                            while idx[y] > idx[x]:
                                y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new
                ch = True
    return idom


def dom_set(idom, b):
    r = {b}
    while idom.get(b, b) != b:
        b = idom[b]
        r.add(b)
    return r


def governing(g, idom, target, is_switch):
    """[(switch block, labels through which target is reachable)] for dominating switches selected by is_switch(b, term)"""
    out = []
    for b in dom_set(idom, target):
        t = g.blocks[b][1]
        if t.kind == 'switch' and b != target and is_switch(b, t):
            labs = [l for l, x in t.targets if target in g.reachable(x, avoid=(b,)) or x == target]
            out.append((b, labs))
    return out


def loops(g):
    """strongly connected components with a cycle, as sets of blocks (recursively: nested loops after removal of the header)"""
    def sccs(nodes):
        index, low, onst, st, out = {}, {}, set(), [], []
        cnt = [0]
        for root in nodes:
            if root in index:
                continue
            work = [(root, None)]
            while work:
                v, it = work[-1]
                if it is None:
                    index[v] = low[v] = cnt[0]
                    cnt[0] += 1
                    st.append(v)
                    onst.add(v)
                    it = iter([x for x in g.blocks[v][1].succ() if x in nodes])
                    work[-1] = (v, it)
                for w in it:
                    if w not in index:
                        work.append((w, None))
                        break
                    if w in onst:
                        low[v] = min(low[v], index[w])
                else:
                    work.pop()
                    if work:
                        u = work[-1][0]
                        low[u] = min(low[u], low[v])
                    if low[v] == index[v]:
                        c = set()
                        while True:
                            w = st.pop()
                            onst.discard(w)
                            c.add(w)
                            if w == v:
                                break
                        if len(c) > 1 or v in g.blocks[v][1].succ():
                            out.append(c)
        return out
    res = []
    idom = dominators(g)
    work = [set(g.reachable(0))]
    while work:
        ns = work.pop()
        for c in sccs(ns):
            # header: the block of c that dominates the others
            h = [b for b in c if all(b in dom_set(idom, x) for x in c)]
            res.append((h[0] if h else min(c), c))
            if h:
                work.append(c - {h[0]})
    return res


class SymPaths:
    """path-sensitive dataflow over loop-free paths: constants, enum variants, tuples, closures' captured
    references and boolean results of calls are propagated, and an edge contradicting what is already
    known on the path is not followed.

    values: ('c', n) | ('v', variant, [values]) | ('t', [values]) | ('u', key) unknown identified by key | ('n', value) negation
            | ('b', kind, value) result of Try::branch | ('r', local, path) reference
    a path: facts {key: label or frozenset of excluded labels}, events [(block, terminator, argument values)], env, trail"""
    VI = {'None': 0, 'Some': 1, 'Ok': 0, 'Err': 1, 'Continue': 0, 'Break': 1}
    SAME = {'as_ref', 'as_mut', 'cloned', 'copied', 'clone', 'deref', 'deref_mut', 'as_deref', 'as_deref_mut', 'into', 'borrow', 'as_slice', 'as_path', 'as_str', 'into_iter', 'as_os_str'}

    def __init__(self, g, max_paths=20000, max_visits=1):
        self.g, self.max_paths, self.max_visits = g, max_paths, max_visits

    def paths(self, start=0, targets=None, init=None):
        g = self.g
        if targets is None:
            targets = {b for b in g.reachable(0) if g.blocks[b][1].kind == 'return'}
        can = PathExplorer._can_reach(self, targets)
        out, steps = [], 0
        stack = [(start, dict(init or {}), {}, (), (start,))]
        while stack:
            steps += 1
            if steps > 600000:
                raise RuntimeError('path explosion in ' + g.name)
            b, env, facts, events, trail = stack.pop()
            ss, t = g.blocks[b]
            env = dict(env)
            for i, s in enumerate(ss):
                self.assign(env, s.place, self.rv(env, s.rv, (b, i), s))
            if b in targets:
                out.append(dict(facts=facts, events=events, env=env, trail=trail))
                if len(out) > self.max_paths:
                    raise RuntimeError('too many paths in ' + g.name)
                continue
            if t.kind == 'call':
                args = [self.op(env, a) for a in t.args]
                events = events + ((b, t, args),)
                if t.dest is not None:
                    # what the callee may change through a mutable reference is forgotten
                    for a, v in zip(t.args, args):
                        if v is not None and v[0] == 'r' and a.place is not None and (g.types.get(a.place.base, '').startswith('&mut') or '&mut' in g.types.get(a.place.base, '')):
                            if isinstance(v[1], int):
                                env[v[1]] = ('u', ('mut', b, v[1]))
                    self.assign(env, t.dest, self.call(env, b, t, args))
            if t.kind == 'switch':
                v = self.op(env, t.op)
                labels = [l for l, _ in t.targets]
                for l, x in t.targets:
                    if x not in can or trail.count(x) >= self.max_visits:
                        continue
                    f2 = self.branch(facts, v, l, labels)
                    if f2 is None:
                        continue
                    stack.append((x, env, f2, events, trail + (x,)))
                continue
            for x in t.succ():
                if x in can and trail.count(x) < self.max_visits:
                    stack.append((x, env, facts, events, trail + (x,)))
        return out

    def branch(self, facts, v, l, labels):
        """facts after taking label l of a switch on v, None if contradictory"""
        flip = False
        while v is not None and v[0] == 'n':
            v, flip = v[1], not flip
        if v is None:
            return facts
        if v[0] == 'c':
            n = v[1]
            if flip:
                n = 1 - n
            if l == 'otherwise':
                return None if str(n) in labels else facts
            return facts if l == str(n) else None
        if v[0] != 'u':
            return facts
        key = v[1]
        if l == 'otherwise':
            excl = {int(x) for x in labels if x.lstrip('-').isdigit()}
            two = len(excl) == 1 and (isinstance(key, tuple) and (key[0] != 'd' or True))
            if excl == {0} and not (isinstance(key, tuple) and key and key[0] == 'd'):
                val = 1
            elif excl == {0} or excl == {1}:
                val = 1 - list(excl)[0]
            else:
                have = facts.get(key)
                if isinstance(have, int) and have in excl:
                    return None
                return facts
        elif l.lstrip('-').isdigit():
            val = int(l)
        else:
            return facts
        if flip:
            val = 1 - val
        if key in facts:
            return facts if facts[key] == val else None
        f2 = dict(facts)
        f2[key] = val
        return f2

    def get(self, env, base, proj):
        v = env.get(base)
        if v is None:
            v = ('u', ('l', base))
        for p in proj:
            v = self.step(env, v, p)
            if v is None:
                return None
        return v

    def step(self, env, v, p):
        if p[0] == 'deref':
            if v[0] == 'r':
                return self.get(env, v[1], v[2])
            return v
        if p[0] == 'variant':
            return v
        if p[0] == 'field':
            if v[0] in ('v',):
                return v[2][p[1]] if p[1] < len(v[2]) else None
            if v[0] == 't':
                return v[1][p[1]] if p[1] < len(v[1]) else None
            if v[0] == 'b':
                # payload of Continue is the payload of Ok / Some; of Break the residual
                return self.step(env, v[2], ('field', 0, '?'))
            if v[0] == 'r':
                return None
            return ('u', ('f', v[1] if v[0] == 'u' else v, p[1]))
        return ('u', ('x', v, str(p)))

    def op(self, env, o):
        if o.place is None:
            k = const_bool(o.const)
            if k is not None:
                return ('c', k)
            m = re.match(r'(-?\d+)_[iu](\d+|size)$', (o.const or '').strip())
            return ('c', int(m.group(1))) if m else ('u', ('k', o.const))
        return self.get(env, o.place.base, o.place.proj)

    def rv(self, env, rv, at, s):
        if rv.kind in ('use', 'cast'):
            return self.op(env, rv.ops[0])
        if rv.kind in ('ref', 'refmut', 'rawptr'):
            pl = rv.ops[0].place
            if pl is None:
                return self.op(env, rv.ops[0])
            # reborrow
            for i, p in enumerate(pl.proj):
                if p[0] == 'deref':
                    v = self.get(env, pl.base, pl.proj[:i])
                    if v is not None and v[0] == 'r':
                        return ('r', v[1], tuple(v[2]) + tuple(pl.proj[i + 1:]))
                    return self.get(env, pl.base, pl.proj)
            return ('r', pl.base, tuple(pl.proj))
        if rv.kind == 'agg':
            vals = [self.op(env, o) or ('u', ('a', at, i)) for i, o in enumerate(rv.ops)]
            nm = last_seg(strip_generics(rv.name or ''))
            if nm in self.VI:
                return ('v', nm, vals)
            return ('t', vals)
        if rv.kind == 'un' and rv.name == 'Not':
            v = self.op(env, rv.ops[0])
            return ('c', 1 - v[1]) if v and v[0] == 'c' and v[1] in (0, 1) else ('n', v) if v else None
        if rv.kind == 'discr':
            v = self.get(env, rv.ops[0].place.base, rv.ops[0].place.proj)
            return self.discr(v)
        if rv.kind == 'bin' and rv.name in ('Eq', 'Ne') and len(rv.ops) == 2:
            a, b = self.op(env, rv.ops[0]), self.op(env, rv.ops[1])
            if a and b and a[0] == b[0] == 'c':
                return ('c', int((a[1] == b[1]) == (rv.name == 'Eq')))
        return ('u', ('s', at))

    def discr(self, v):
        if v is None:
            return None
        if v[0] == 'r':
            return None
        if v[0] == 'v':
            return ('c', self.VI[v[1]])
        if v[0] == 'b':
            d = self.discr(v[2])
            return ('n', d) if d is not None and v[1] == 'opt' and d[0] != 'c' else ('c', 1 - d[1]) if d is not None and v[1] == 'opt' else d
        if v[0] == 'u':
            return ('u', ('d', v[1]))
        return None

    def call(self, env, b, t, args):
        nm = last_seg(strip_generics(t.callee))
        if nm == 'branch' and args and args[0] is not None:
            return ('b', 'opt' if re.match(r'<(std::option::)?Option<', t.callee) else 'res', args[0])
        if nm == 'from_residual':
            return ('v', 'Err', [('u', ('res', b))]) if 'Result' in t.callee.split(' as ')[0] else ('v', 'None', [])
        if nm in self.SAME and args and args[0] is not None:
            v = args[0]
            for _ in range(4):
                if v is not None and v[0] == 'r':
                    v = self.get(env, v[1], v[2])
            if v is not None:
                return v
        if nm in ('is_some', 'is_none', 'is_ok', 'is_err') and args and args[0] is not None:
            v = args[0]
            for _ in range(4):
                if v is not None and v[0] == 'r':
                    v = self.get(env, v[1], v[2])
            d = self.discr(v)
            if d is not None:
                pos = nm in ('is_some', 'is_err')
                return d if pos else (('c', 1 - d[1]) if d[0] == 'c' else ('n', d))
        if nm == 'not' and args and args[0] is not None:
            return ('n', args[0])
        return ('u', ('call', b))

    def assign(self, env, place, v):
        proj = [p for p in place.proj if p[0] != 'variant']
        base = place.base
        if proj and proj[0][0] == 'deref':
            r = env.get(base)
            if r is not None and r[0] == 'r':
                base, proj = r[1], list(r[2]) + proj[1:]
                proj = [p for p in proj if p[0] != 'variant']
            else:
                return
        if not proj:
            env[base] = v if v is not None else ('u', ('un', base, id(place)))
            return
        old = env.get(base)
        if len(proj) == 1 and proj[0][0] == 'field' and old is not None and old[0] in ('t', 'v'):
            vals = list(old[1] if old[0] == 't' else old[2])
            if proj[0][1] < len(vals):
                vals[proj[0][1]] = v or ('u', ('un', base, id(place)))
                env[base] = ('t', vals) if old[0] == 't' else ('v', old[1], vals)
                return
        if old is not None:
            env[base] = ('u', ('mod', base, id(place)))
