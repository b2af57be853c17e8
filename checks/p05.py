"""P05 conversion cache freshness."""
import re
from core import Check
from mir import *
from mirbase import *
from inl import Inliner, Prov, PASS_THROUGH
from paths import must_pass, reach_without, dominators, governing

CACHE_TY = re.compile(r'HashMap<.*NodeIndex.*,\s*(typemap::)?(ty::)?ForeignType\b')
THROUGH = (PASS_THROUGH | {'ok_or_else', 'ok_or', 'unwrap_or', 'map_err', 'to_idx'}) - {'index', 'index_mut'}


def cache_field(g, place):
    """(field index) if the place is a conversion cache field of a TypeMap"""
    fs = [p for p in place.proj if p[0] == 'field']
    if fs and CACHE_TY.search(fs[-1][2]) and '&' not in fs[-1][2].split('HashMap')[0]:
        return fs[-1][1]
    return None


def cache_of(g, P, op, ds=None):
    """cache fields a receiver operand may stand for"""
    r = set()
    if op.place is None:
        return r
    k = cache_field(g, op.place)
    if k is not None:
        return {k}
    for p in P.of_op(op):
        if p[0] == 'param' and p[2]:
            ty = None
            r.add(p[2][-1])
        elif p[0] == 'agg' or p[0] == 'local':
            return set()
    return r


def cache_of_ref(g, P, o):
    r = cache_of(g, P, o) if o.place is not None and CACHE_TY.search(g.types.get(o.place.base, '')) else set()
    return list(r)[0] if len(r) == 1 else None


def cache_calls(g, P):
    for b in sorted(g.reachable(0)):
        t = g.blocks[b][1]
        if t.kind == 'call' and t.args and t.args[0].place is not None:
            ty = g.types.get(t.args[0].place.base, '')
            if CACHE_TY.search(ty) and 'HashMap' in strip_generics(t.callee).split(' as ')[0].split('[')[0]:
                yield b, t, last_seg(strip_generics(t.callee)), cache_of(g, P, t.args[0])


def run():
    ck = Check('P05', 'effect analysis of the conversion caches over inlined MIR: each change of a conversion rule is accompanied, on every path, by the removal '
               'of the answers remembered for the Rust types of the rule; lookups and insertions of one direction use one cache')
    c = crate()
    ck.analysed('functions of the crate', len(c.fns))
    # all functions that touch a cache
    users = {}
    for n, f in sorted(c.fns.items()):
        P = None
        for b in f.live():
            ss, t = f.blocks[b]
            for s in ss:
                for pl in [s.place] + [o.place for o in s.rv.ops if o.place is not None]:
                    k = cache_field(f, pl)
                    if k is not None:
                        users.setdefault(root_fn(n), set()).add(k)
    caches = set().union(*users.values()) if users else set()
    ck.require(len(caches) == 2, 'two caches, one per direction', str(sorted(caches)), 'caches', 'expected one conversion cache per direction, found fields %s' % sorted(caches))
    rule = 'cache is used only through get, insert, remove and clear'
    for n in sorted(users):
        f = c.fns[n]
        g = Inliner(c, allow=lambda k, t: '{closure' in k.name, ext_closures=True).inline(f)
        P = Prov(g, THROUGH)
        for b, t, nm, ks in cache_calls(g, P):
            ck.require(nm in ('get', 'insert', 'remove', 'clear', 'contains_key', 'default', 'drop', 'entry', 'get_key_value', 'is_empty', 'len', 'drain', 'retain', 'into_iter', 'next'), rule, '%s: %s' % (fn_label(f), nm), fn_label(f) + '|' + nm,
                       '%s: %s uses the cache through %s' % (span_loc(t.span), fn_label(f), nm))
    ck.floor(rule, 3)

    # 1. invalidation accompanies each change of a rule
    rule = 'a changed rule invalidates the remembered answers of its Rust types'
    rule_m = 'merging a type map forgets every remembered answer'
    MERGERS = ('merge_conv_rule', 'merge')
    stop = ('find_or_alloc_rust_type', 'map_through_conversion_to_foreign')

    def allow(k, t):
        n = root_fn(k.name)
        if last_seg(n).startswith('find_or_alloc') or last_seg(n) in ('map_through_conversion_to_foreign', 'new', 'parse', 'add_node'):
            return False
        return any('TypeMap' in k.types.get(p, '') or 'ForeignTypesStorage' in k.types.get(p, '') for p in k.params) or '{closure' in k.name
    found = set()
    for n, f in sorted(c.fns.items()):
        base = last_seg(root_fn(n))
        if base not in MERGERS or not f.params or not re.search(r'&mut (typemap::)?TypeMap', f.types.get(f.params[0], '')):
            continue
        found.add(base)
        g = Inliner(c, allow=allow, max_depth=5, ext_closures=True).inline(f)
        P = Prov(g, THROUGH)
        rem = {}          # block -> [(cache, key provenance or None for clear)]
        # a loop over an array of references to the caches stands for one operation per element
        P3 = Prov(g, THROUGH | {'next', 'into_iter', 'iter_mut', 'iter'})
        for b in sorted(g.reachable(0)):
            for s in g.blocks[b][0]:
                if s.rv.kind == 'agg' and s.rv.name == '[array]':
                    ks = {cache_of_ref(g, P, o) for o in s.rv.ops}
                    if None in ks or not ks:
                        continue
                    for b2, t2, nm2, ks2 in cache_calls(g, P3):
                        if nm2 in ('remove', 'clear') and not cache_of(g, P, t2.args[0]):
                            for k in ks:
                                rem.setdefault(b, []).append((k, None if nm2 == 'clear' else frozenset(P.of_op(t2.args[1]))))
        for b, t, nm, ks in cache_calls(g, P):
            if nm == 'clear' or nm == 'drain':
                for k in ks:
                    rem.setdefault(b, []).append((k, None))
            elif nm == 'remove':
                for k in ks:
                    rem.setdefault(b, []).append((k, frozenset(P.of_op(t.args[1]))))
        if base == 'merge':
            for k in sorted(caches):
                ev = lambda b, i, x: any(kk == k and key is None for kk, key in rem.get(b, []))
                bad = must_pass(g, 0, ev)
                ck.require(bad is None, rule_m, '%s cache %d' % (fn_label(f), k), 'merge|%d' % k,
                           '%s: %s can finish without having cleared conversion cache %d' % (span_loc(f.blocks[0][1].span), fn_label(f), k))
            continue
        muts = []
        for b in sorted(g.reachable(0)):
            ss, t = g.blocks[b]
            for i, s in enumerate(ss):
                if s.rv.kind == 'agg' and re.search(r'\bForeignConversionRule$', strip_generics(s.rv.name or '')) and s.rv.ops:
                    names = s.rv.fields or []
                    j = names.index('rust_ty') if 'rust_ty' in names else 0
                    muts.append((b, i, s.rv.ops[j], 'rule of a foreign type', s.span))
            if t.kind == 'call' and re.search(r'Graph::(update_edge|add_edge)$', strip_generics(t.callee)):
                muts.append((b, 'term', t.args[1], 'start of a conversion', t.span))
                muts.append((b, 'term', t.args[2], 'end of a conversion', t.span))
            elif t.kind == 'call' and last_seg(strip_generics(t.callee)) in ('alloc_new', 'add_foreign_rust_ty_idx', 'add_foreign'):
                muts.append((b, 'term', t.args[2], 'Rust type of a new foreign type', t.span))
        for b, i, op, what, span in muts:
            pr = frozenset(P.of_op(op))
            # a type identity may be merged through an Option; each alternative has to be handled
            for k in sorted(caches):
                ev = lambda bb, ii, x: any(kk == k and (key is None or (key and key >= pr)) for kk, key in rem.get(bb, []))
                after = must_pass(g, b, ev, start_idx=i)
                okk = after is None or not reach_without(g, 0, b, ev)
                ck.require(okk, rule, '%s: %s at %s, cache %d' % (fn_label(f), what, span_loc(span), k), '%s|%s|%d' % (base, what, k),
                           '%s: %s changes a conversion rule (%s) but on some path the answer remembered for that type in cache %d survives' % (span_loc(span), fn_label(f), what, k))
    for m in MERGERS:
        ck.require(m in found, 'rule changing entry points', m, m, 'no function %s over the type map' % m)
    ck.floor(rule, 16)

    # 2. direction consistency and key of lookups / insertions
    rule = 'lookup and insertion of a direction use the same cache'
    rule_k = 'lookup and insertion use the type that was asked for as key'
    n_ins = 0
    for n in sorted(users):
        f = c.fns[n]
        if last_seg(n) in MERGERS:
            continue
        g = Inliner(c, allow=lambda k, t: any('TypeMap' in k.types.get(p, '') for p in k.params) and not last_seg(root_fn(k.name)).startswith('find_or_alloc') and len(k.blocks) < 40, max_depth=2).inline(f)
        P = Prov(g, THROUGH)
        uses = [(b, t, nm, ks) for b, t, nm, ks in cache_calls(g, P) if nm in ('get', 'insert', 'contains_key', 'entry')]
        if not any(u[2] in ('insert', 'entry') for u in uses):
            if any(u[2] == 'get' for u in uses):
                pass
            if not uses:
                continue
        dirp = [p for p in f.params if re.search(r'\bDirection$', f.types[p])]
        idom = dominators(g)

        def is_dir(b, t):
            if t.op is None or t.op.place is None:
                return False
            for s in g.blocks[b][0]:
                if s.place.base == t.op.place.base and s.rv.kind == 'discr':
                    return any(p[0] == 'param' and p[1] in dirp for p in P.of_op(s.rv.ops[0]))
            return any(p[0] == 'param' and p[1] in dirp for p in P.of_op(t.op))
        table = {}
        for b, t, nm, ks in uses:
            # refs selected by direction first (let cache = match direction {...}) resolve to several fields
            labs = None
            gov = [ls for _, ls in governing(g, idom, b, is_dir) if len(ls) == 1]
            if gov:
                labs = gov[-1][0]
            kind = 'lookup' if nm in ('get', 'contains_key') else 'insertion'
            if len(ks) == 1 and labs is not None:
                table.setdefault(kind, {}).setdefault(labs, set()).update(ks)
            elif len(ks) > 1:
                # selected before the call: definitions of the receiver under the direction switch
                for bb in g.reachable(0):
                    for s in g.blocks[bb][0]:
                        k = None
                        if s.rv.kind in ('ref', 'refmut') and s.rv.ops[0].place is not None:
                            k = cache_field(g, s.rv.ops[0].place)
                        if k is not None:
                            gv = [ls for _, ls in governing(g, idom, bb, is_dir) if len(ls) == 1]
                            if gv:
                                table.setdefault(kind, {}).setdefault(gv[-1][0], set()).add(k)
            keyp = P.of_op(t.args[1])
            want = [p for p in f.params if re.search(r'NodeIndex|RustTypeIdx', f.types[p])]
            ck.require(keyp and all(p[0] == 'param' and p[1] in want for p in keyp), rule_k, '%s: %s' % (fn_label(f), kind), kind + '|' + fn_label(f),
                       '%s: %s uses another key than the type asked for (%s)' % (span_loc(t.span), fn_label(f), sorted(map(str, keyp))))
            n_ins += 1
        for kind, m in sorted(table.items()):
            for lab, ks in sorted(m.items()):
                other = table.get('lookup' if kind == 'insertion' else 'insertion', {}).get(lab)
                ck.require(len(ks) == 1 and (other is None or other == ks), rule, '%s: %s, direction %s -> cache %s' % (fn_label(f), kind, lab, sorted(ks)), '%s|%s|%s' % (fn_label(f), kind, lab),
                           '%s: in %s the %s for direction %s goes to cache %s, but the opposite operation uses %s' % (f.name, fn_label(f), kind, lab, sorted(ks), sorted(other or [])))
            fields = [frozenset(x) for x in m.values()]
            ck.require(len(fields) == len(set(fields)), rule, '%s: %s, one cache per direction' % (fn_label(f), kind), '%s|%s|shared' % (fn_label(f), kind),
                       '%s: both directions use the same cache for %s' % (fn_label(f), kind))
    ck.floor(rule_k, 2)
    ck.floor(rule, 4)
    return ck.finish(['FxHashMap::remove and clear behave as documented', 'edges derived while searching only shorten paths between types that could already be converted'])


