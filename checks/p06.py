"""P06 failed conversion search leaves the conversion graph unchanged."""
import re
from core import Check
from mir import *
from mirbase import *
from inl import Inliner, Prov, PASS_THROUGH, call_chain
from paths import *

MUT = {'add_node', 'add_edge', 'update_edge', 'try_add_edge', 'try_add_node', 'try_update_edge', 'remove_node', 'remove_edge', 'node_weight_mut', 'edge_weight_mut', 'index_mut',
       'retain_nodes', 'retain_edges', 'clear', 'clear_edges', 'reverse', 'extend_with_edges', 'node_weights_mut', 'edge_weights_mut', 'index_twice_mut', 'extend'}
PUSH = {'push', 'insert', 'push_back', 'extend_one'}


def graph_call(t, g):
    """name of the petgraph Graph method called, or None"""
    if t.kind != 'call':
        return None
    cc = strip_generics(t.callee)
    if re.search(r'(^|[:<])Graph::', cc) or re.match(r'<(petgraph::)?(graph::)?Graph as', cc):
        return last_seg(cc)
    return None


def region(c, start):
    """functions reachable through the call graph (closures included)"""
    seen, st = set(), [root_fn(start)]
    kids = {}
    for n in c.fns:
        kids.setdefault(root_fn(n), []).append(n)
    while st:
        r = st.pop()
        if r in seen:
            continue
        seen.add(r)
        for n in kids.get(r, []):
            for b, t in c.fns[n].calls():
                k = c.resolve(t.callee)
                if k is not None:
                    st.append(root_fn(k.name))
    return seen


def self_field(g, P, op):
    """field index of the first parameter an operand (a reference into self) belongs to"""
    r = set()
    for p in P.of_op(op):
        if p[0] == 'param' and p[1] == g.params[0] and p[2]:
            r.add(p[2][0])
        else:
            r.add(None)
    return r


def run():
    ck = Check('P06', 'rollback completeness over MIR: every node or edge added during a search is recorded on the same path, the destructor of the '
               'snapshot undoes all records last-in first-out (edges before nodes), loops of the search are bounded')
    c = crate()
    ck.analysed('functions of the crate', len(c.fns))
    # the snapshot type: its destructor removes edges from the graph
    snap = None
    for n, f in sorted(c.fns.items()):
        if f.impl and f.impl[0] == 'Drop' and '{closure' not in n:
            g = Inliner(c, ext_closures=True).inline(f)
            if any(graph_call(g.blocks[b][1], g) in ('remove_edge', 'remove_node') for b in g.reachable(0)):
                snap, dropf, dg = f.impl[1], f, g
    if not ck.require(snap is not None, 'the snapshot has a destructor that removes what was added', 'Drop', 'drop', 'no type of the crate undoes added edges and nodes in its destructor'):
        return ck.finish()
    sname = type_head(snap).split('::')[-1].split('<')[0]
    through = (PASS_THROUGH | {'next', 'rev', 'pop', 'drain', 'next_back', 'last', 'deref', 'as_ref', 'expect', 'unwrap'})
    P = Prov(dg, through)
    rule = 'the destructor removes every recorded %s, last added first'
    live = dg.reachable(0)
    fields = {}
    for what in ('edge', 'node'):
        r = rule % what
        sites = [b for b in sorted(live) if graph_call(dg.blocks[b][1], dg) == 'remove_' + what]
        if not ck.require(len(sites) == 1, r, 'one removal site', what + '|sites', '%s: the destructor of %s removes %ss at %d places' % (dropf.name, sname, what, len(sites))):
            continue
        b = sites[0]
        t = dg.blocks[b][1]
        fs = self_field(dg, P, t.args[1])
        ck.require(len(fs) == 1 and None not in fs, r, 'removed indices come from one record', what + '|field', '%s: removed %s indices come from %s' % (span_loc(t.span), what, fs))
        fields[what] = list(fs)[0] if len(fs) == 1 else None
        lifo = False
        other = set()
        for names, end in call_chain(dg, t.args[1]):
            back = ('rev' in names) != ('next_back' in names or 'pop' in names)
            lifo = lifo or back
            other |= set(names)
            if not back:
                lifo = None
                break
        ck.require(bool(lifo), r, 'order of removal', what + '|order', '%s: %ss are not removed in the reverse order of their addition (indices of the graph shift when an element other than the last is removed)' % (span_loc(t.span), what))
        ck.require(not (other & {'skip', 'take', 'filter', 'step_by', 'skip_while', 'take_while', 'filter_map', 'last', 'nth'}), r, 'no record left out', what + '|all', '%s: not all recorded %ss are removed (%s)' % (span_loc(t.span), what, sorted(other)))
        # the removal is unconditional within its loop: from the element to the next iteration
        heads = [x for x in live if dg.blocks[x][1].kind == 'call' and last_seg(strip_generics(dg.blocks[x][1].callee)) in ('next', 'pop', 'next_back') and x in dom_set(dominators(dg), b) and b in dg.reachable(dg.blocks[x][1].targets[0][1])]
        if heads:
            idom = dominators(dg)
            h = max(heads, key=lambda x: len(dom_set(idom, x)))
            for s2 in [x for x in live if dg.blocks[x][1].kind == 'switch' and h in dom_set(idom, x) and x in dom_set(idom, b)]:
                sw = dg.blocks[s2][1]
                for l, x in sw.targets:
                    if b in dg.reachable(x, avoid=(h,)) or x == b:
                        continue
                    isdiscr = any(s.rv.kind == 'discr' and s.place.base == (sw.op.place.base if sw.op.place else -1) and any(r0[0] != 'x' for r0 in [(1,)]) for s in dg.blocks[s2][0])
                    back = h in dg.reachable(x)
                    ck.require(not back, r, 'unconditional within the loop', what + '|cond', '%s: a recorded %s may be skipped by the destructor' % (span_loc(sw.span), what))
            # every way out of the destructor passes the loop head
            ck.require(not any(dg.blocks[x][1].kind == 'return' for x in dg.reachable(0, avoid=(h,))), r, 'loop is always entered', what + '|entered', '%s: the destructor can return without removing the recorded %ss' % (dropf.name, what))
        if what == 'node':
            after = dg.reachable(b)
            ck.require(not any(graph_call(dg.blocks[x][1], dg) == 'remove_edge' for x in after), r, 'edges are removed before nodes', 'edges first', '%s: edges are removed after nodes: removing a node already removed and renumbered edges' % span_loc(t.span))
    ck.require(fields.get('edge') is not None and fields.get('edge') != fields.get('node'), 'edges and nodes have separate records', str(fields), 'records', 'records of edges and nodes are the same field')

    # search entry points: functions that create a snapshot
    entries = []
    for n, f in sorted(c.fns.items()):
        if '{closure' in n:
            continue
        for b, t in f.calls():
            k = c.resolve(t.callee)
            if k is not None and k.impl and type_head(k.impl[1] or '').split('::')[-1].split('<')[0] == sname and k.ret and sname in k.ret and not any(sname in k.types[p] for p in k.params):
                entries.append(f)
                break
    entries = [f for f in entries if not (f.impl and sname in (f.impl[1] or ''))]
    if not ck.require(entries, 'search functions that work on a snapshot', 'entries', 'entries', 'no function creates a %s' % sname):
        return ck.finish()
    reg = set()
    for f in entries:
        reg |= region(c, f.name)
    ck.analysed('functions reachable from the search', len(reg))

    # 2. all graph mutations in the region are additions, recorded on the same path
    rule = 'the search changes the graph only by recorded additions'
    n_add = 0
    for n in sorted(reg):
        f = c.fns.get(n)
        if f is None or (f.impl and f.impl[0] == 'Drop' and sname in (f.impl[1] or '')):
            continue
        g = Inliner(c, allow=lambda k, t: '{closure' in k.name or (k.impl and sname in (k.impl[1] or '') and False), ext_closures=True).inline(f)
        sites = [(b, graph_call(g.blocks[b][1], g)) for b in sorted(g.reachable(0)) if graph_call(g.blocks[b][1], g) in MUT]
        # closures are visited inlined only when they were passed or called; visit their raw bodies too
        raw = [(k, b, graph_call(t, c.fns[k])) for k in c.fns if root_fn(k) == n and k != n for b, t in c.fns[k].calls() if graph_call(t, c.fns[k]) in MUT]
        ck.require(len(raw) <= len([1 for b, m in sites if b > max(f.blocks)]), rule, '%s: closures' % fn_label(f), 'closure|' + fn_label(f), '%s: a closure of %s changes the graph in a way that is not understood' % (f.name, fn_label(f)))
        if not sites:
            continue
        P = Prov(g, PASS_THROUGH)
        for b, m in sites:
            t = g.blocks[b][1]
            if m == 'index_mut':
                pr = P.of_op(t.args[1])
                ck.require(all(p[0] == 'call' and p[1].endswith('add_node') for p in pr), rule, '%s: %s' % (fn_label(f), m), m + '|' + fn_label(f), '%s: %s modifies an existing node during a search' % (span_loc(t.span), fn_label(f)))
                continue
            ck.require(m in ('add_node', 'add_edge'), rule, '%s: %s' % (fn_label(f), m), m + '|' + fn_label(f),
                       '%s: %s changes the graph by %s during a search; this is not undone when the search fails' % (span_loc(t.span), fn_label(f), m))
        insnap = f.impl and sname in (f.impl[1] or '')
        adds = [(b, m) for b, m in sites if m in ('add_node', 'add_edge')]
        if not adds:
            continue
        E = PathExplorer(g)
        rets = {b for b in g.reachable(0) if g.blocks[b][1].kind == 'return'}
        # pushes to the records
        P2 = Prov(g, PASS_THROUGH | through)
        pushes = {}
        for b in sorted(g.reachable(0)):
            t = g.blocks[b][1]
            if t.kind == 'call' and last_seg(strip_generics(t.callee)) in PUSH and t.args and t.args[0].place is not None and re.search(r'(SmallVec|Vec)', g.types.get(t.args[0].place.base, '')):
                ty = g.types.get(t.args[0].place.base, '')
                kind = 'edge' if 'EdgeIndex' in ty else 'node' if 'NodeIndex' in ty else None
                fs = {p[2][-1] if p[2] else None for p in P.of_op(t.args[0]) if p[0] in ('param', 'call', 'local')}
                if kind and fs == {fields.get(kind)}:
                    pushes[b] = kind
        for kind in ('edge', 'node'):
            if not any(m == 'add_' + kind for _, m in adds):
                continue
            n_add += 1
            bad = None
            try:
                ps = E.paths(0, rets)
            except RuntimeError as e:
                ps = None
            if ps is None:
                # too many paths: addition must be followed by a record
                for b, m in adds:
                    if m == 'add_' + kind:
                        tr = must_pass(g, b, lambda bb, i, x: i == 'term' and pushes.get(bb) == kind, start_idx='term', err_ok=False)
                        if tr:
                            bad = tr
            else:
                for conds, trail, env in ps:
                    a = sum(1 for x in trail if (x, 'add_' + kind) in adds)
                    p = sum(1 for x in trail if pushes.get(x) == kind)
                    if a != p:
                        bad = trail
                        why = 'added without being recorded' if a > p else 'recorded although it existed before (it would be removed)'
                        break
            ck.require(bad is None, rule, '%s: each added %s is recorded' % (fn_label(f), kind), 'record|%s|%s' % (kind, fn_label(f)),
                       '%s: on some path through %s a %s is %s' % (f.name, fn_label(f), kind, why if bad and ps is not None else 'added without being recorded'))
            for b, kk in pushes.items():
                if kk == kind:
                    t = g.blocks[b][1]
                    pr = P2.of_op(t.args[-1])
                    ck.require(any(p[0] == 'call' and p[1].endswith('add_' + kind) for p in pr) or kind == 'node', rule, '%s: the record is the index of the addition' % fn_label(f), 'index|%s|%s' % (kind, fn_label(f)),
                               '%s: %s records something else than the index of the new %s' % (span_loc(t.span), fn_label(f), kind))
    ck.floor(rule, 6)
    ck.require(n_add >= 2, rule, 'additions found', 'none', 'no addition of nodes and edges was found in the search')

    # 3. the snapshot is never leaked
    rule = 'the snapshot is always dropped'
    for n, f in sorted(c.fns.items()):
        for b, t in f.calls():
            nm = strip_generics(t.callee)
            if re.search(r'(mem::forget|ManuallyDrop::new|Box::leak|Box::into_raw|Rc::into_raw)$', nm):
                tys = ' '.join(f.types.get(a.place.base, '') for a in t.args if a.place is not None)
                ck.require(sname not in tys, rule, '%s: %s' % (fn_label(f), nm), 'leak|' + fn_label(f), '%s: %s leaks the snapshot, nothing is rolled back' % (span_loc(t.span), fn_label(f)))
    for f in entries:
        ck.ok(rule, fn_label(f))
        ck.require(sname not in f.ret, rule, '%s does not return it' % fn_label(f), 'ret|' + fn_label(f), '%s hands the snapshot out' % fn_label(f))

    # 4. loops of the search are bounded
    rule = 'every loop of the search is bounded'
    for n in sorted(reg):
        f = c.fns.get(n)
        if f is None:
            continue
        for k in sorted(x for x in c.fns if root_fn(x) == n):
            fk = c.fns[k]
            for h, comp in loops(fk):
                how = loop_bound(fk, comp)
                ck.require(how is not None, rule, '%s: loop at %s: %s' % (fn_label(fk), span_loc(fk.blocks[h][1].span) if False else 'bb', how), 'loop|' + fn_label(fk),
                           '%s: a loop in %s has no exit by an exhausted iterator or a counter' % (span_loc(fk.blocks[h][1].span), fn_label(fk)))
    # the number of steps: an exhausted range or counter compared with the bound parameter
    for f in entries:
        ps = [p for p in f.params if f.types[p] == 'usize']
        okk = False
        P = Prov(f, PASS_THROUGH | {'next'})
        for b in f.live():
            ss, t = f.blocks[b]
            for s in ss:
                if s.rv.kind == 'agg' and re.search(r'Range', s.rv.name or '') and s.rv.ops and any(p[0] == 'param' and p[1] in ps for p in P.of_op(s.rv.ops[-1])):
                    okk = True
                if s.rv.kind == 'bin' and s.rv.name in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne') and any(o.place is not None and any(p[0] == 'param' and p[1] in ps for p in P.of_op(o)) for o in s.rv.ops):
                    okk = True
            if t.kind == 'call' and last_seg(strip_generics(t.callee)) in ('take', 'new') and any(a.place is not None and any(p[0] == 'param' and p[1] in ps for p in P.of_op(a)) for a in t.args):
                okk = True
        ck.require(bool(ps) and okk, rule, '%s: number of steps bounded by its parameter' % fn_label(f), 'steps|' + fn_label(f), '%s: the number of search steps is no longer limited by the parameter of %s' % (f.name, fn_label(f)))
        # callers pass a constant bound or something counted up to one
        for n2, f2 in sorted(c.fns.items()):
            P2 = None
            for b, t in f2.calls():
                if c.resolve(t.callee) is f and ps:
                    P2 = P2 or Prov(f2, PASS_THROUGH | {'next', 'new', 'into_iter'})
                    a = t.args[f.params.index(ps[0])]
                    pr = set()
                    for x in call_chain(f2, a):
                        pr.add(x[1] if isinstance(x[1], str) else ('place', str(x[1])))
                    big = [x for x in pr if isinstance(x, str) and re.match(r'^(\d+)_?usize', x.replace('const ', '')) and int(re.match(r'(\d+)', x.replace('const ', '')).group(1)) > 64]
                    ck.require(not big, rule, '%s: bound passed %s' % (fn_label(f2), sorted(map(str, pr))[:3]), 'bound|' + fn_label(f2), '%s: %s passes an excessive step bound' % (span_loc(t.span), fn_label(f2)))
    ck.floor(rule, 4)

    # 5. what the found chain needs is kept: additions on the chain are copied out with their ends in order
    rule = 'additions on the found chain are kept with their ends in order'
    for n, f in sorted(c.fns.items()):
        for b, t in f.calls():
            pass
    n5 = 0
    for n in sorted(c.fns):
        f = c.fns[n]
        g = f
        ends = [b for b, t in f.calls() if graph_call(t, f) == 'edge_endpoints']
        if not ends or root_fn(n) not in reg:
            continue
        P = Prov(f, (PASS_THROUGH | {'expect', 'unwrap'}) - {'index'}, through_arg={'index': 1})
        for b in f.live():
            for s in f.blocks[b][0]:
                if s.rv.kind == 'agg' and s.rv.name == '(tuple)' and len(s.rv.ops) == 3 and all(o.place is not None for o in s.rv.ops):
                    tys = [f.types.get(o.place.base, '') for o in s.rv.ops]
                    if 'RustTypeS' in tys[0] and 'RustTypeS' in tys[1] and 'TypeConvEdge' in tys[2]:
                        a = [[p for p in P.of_op(o) if p[0] == 'call' and p[1].endswith('edge_endpoints')] for o in s.rv.ops[:2]]
                        if a[0] and a[1]:
                            n5 += 1
                            fa, fb = a[0][0][3], a[1][0][3]
                            ck.require(fa[-1:] == (0,) and fb[-1:] == (1,), rule, '%s: ends of the edge' % fn_label(f), 'ends|' + fn_label(f), '%s: the ends of a kept conversion are swapped in %s' % (span_loc(s.span), fn_label(f)))
    merges = 0
    for n, f in sorted(c.fns.items()):
        if not any('PossiblePath' in f.types[p] and '&' not in f.types[p] for p in f.params) or '{closure' in n:
            continue
        P = Prov(f, PASS_THROUGH | {'next', 'into_iter', 'iter', 'deref', 'clone', 'expect', 'unwrap'}, through_arg={'add_node': 1})
        for b, t in f.calls():
            if graph_call(t, f) in ('add_edge', 'update_edge'):
                merges += 1
                ka = {p[2][-2:] if p[0] == 'param' else None for p in P.of_op(t.args[1])}
                kb = {p[2][-2:] if p[0] == 'param' else None for p in P.of_op(t.args[2])}
                fa = [x for x in ka if x]
                fb = [x for x in kb if x]
                ok5 = True
                if fa and fb:
                    ok5 = (0 in fa[0]) and (1 in fb[0]) and fa != fb
                ck.require(ok5, rule, '%s: kept conversion merged from start to end' % fn_label(f), 'merge|' + fn_label(f), '%s: %s merges a kept conversion with its ends exchanged (%s, %s)' % (span_loc(t.span), fn_label(f), fa, fb))
    ck.require(merges >= 1, rule, 'found chains are merged', 'merge', 'nothing merges the additions of a found chain into the type map')
    ck.floor(rule, 2)
    return ck.finish(['petgraph: removing the last added edge or node does not renumber others'])


def loop_bound(f, comp):
    """a reason why the loop terminates, or None"""
    for b in comp:
        t = f.blocks[b][1]
        if t.kind == 'call' and last_seg(strip_generics(t.callee)) in ('next', 'next_back', 'pop', 'pop_front', 'pop_back', 'next_node', 'find', 'read_line'):
            # exit of the loop depends on the discriminant of the result
            for x in comp:
                ss, tt = f.blocks[x]
                if tt.kind == 'switch' and any(y not in comp for _, y in tt.targets):
                    for s in ss:
                        if s.rv.kind == 'discr' and s.rv.ops and s.rv.ops[0].place is not None and s.rv.ops[0].place.base == t.dest.base:
                            return 'exhausted ' + last_seg(strip_generics(t.callee))
            return_discr = [x for x in comp if f.blocks[x][1].kind == 'switch' and any(y not in comp for _, y in f.blocks[x][1].targets)]
            if return_discr:
                return 'exhausted ' + last_seg(strip_generics(t.callee))
    for b in comp:
        ss, t = f.blocks[b]
        if t.kind == 'switch' and any(y not in comp for _, y in t.targets):
            for s in ss:
                if s.rv.kind == 'bin' and s.rv.name in ('Lt', 'Le', 'Gt', 'Ge', 'Ne', 'Eq') and t.op.place is not None and s.place.base == t.op.place.base:
                    incs = [1 for x in comp for q in f.blocks[x][0] if q.rv.kind == 'bin' and q.rv.name.startswith(('Add', 'Sub'))]
                    if incs:
                        return 'counter'
    return None
