"""P08 every item is copied or expanded, nothing declared is skipped."""
import os, re
import core
from core import Check
from mir import *
from mirbase import *
from inl import Prov, PASS_THROUGH, Inliner
from paths import loops, must_pass, dominators, dom_set, cond_defs

DECL = re.compile(r'\b(ForeignMethod|ForeignEnumItem|ForeignInterfaceMethod|ItemToExpand|(types|code_parse)::FnArg|syn::FnArg|NamedArg|syn::Item|Item|ForeignMethodSignature|CppForeignMethodSignature|JniForeignMethodSignature)\b')
STR_EMIT = {'write_fmt', 'push', 'push_str', 'extend', 'append', 'insert', 'push_back', 'write_str', 'write_all', 'extend_from_slice', 'append_all', 'to_tokens'}
# adaptors that keep every element
KEEP = {'iter', 'iter_mut', 'into_iter', 'enumerate', 'zip', 'map', 'cloned', 'copied', 'by_ref', 'drain', 'rev', 'peekable', 'inspect', 'deref', 'deref_mut', 'as_ref', 'as_mut', 'as_slice', 'chain',
        'collect', 'fold', 'for_each', 'try_for_each', 'try_fold', 'unzip', 'flat_map', 'flatten', 'extend', 'next', 'len', 'count', 'size_hint', 'fuse'}
# adaptors that answer a question about the elements
ASK = {'any', 'all', 'position', 'find', 'max', 'min', 'sum', 'last', 'nth', 'rposition', 'cmp', 'eq', 'partial_cmp', 'ne', 'max_by_key', 'min_by_key', 'peek', 'is_sorted', 'find_map'}
DROP = {'filter', 'filter_map', 'skip', 'skip_while', 'take', 'take_while', 'step_by', 'map_while', 'scan', 'dedup', 'retain', 'truncate', 'array_chunks'}
STRUCTS = {
    # struct -> field -> what its value has to come from (regular expression over callees / aggregates)
    'ForeignMethod': dict(rust_id=r'call$|Path', fn_decl=r'FnDecl|try_into', name_alias=r'parse$', access=None, doc_comments=r'parse_attrs', inline_block=r'parse$', unknown_attrs=r'parse_attrs', variant=None),
    'ForeignEnumItem': dict(name=r'parse$', rust_name=r'call$|parse', doc_comments=r'parse_doc_comments|parse_attrs'),
    'ForeignInterfaceMethod': dict(name=r'parse$', rust_name=r'call$', fn_decl=r'FnDecl', doc_comments=r'parse_doc_comments|parse_attrs'),
    'ForeignClassInfo': dict(name=r'parse$', methods=None, self_desc=r'SelfTypeDesc', foreign_code=None, doc_comments=r'parse_attrs', derive_list=r'parse_attrs'),
    'ForeignEnumInfo': dict(name=r'parse$', items=None, doc_comments=r'parse_attrs', derive_list=r'parse_attrs'),
    'ForeignInterface': dict(name=r'parse$', self_type=r'parse$', items=None, doc_comments=r'parse_doc_comments|parse_attrs'),
    'FnDecl': dict(inputs=r'parse_fn_args', output=r'parse$'),
    'SelfTypeDesc': dict(self_type=r'parse$', constructor_ret_type=r'parse$|clone'),
}


def short(t):
    return last_seg(strip_generics(t.callee)) if t.kind == 'call' else ''


def fn_file(f):
    for b in sorted(f.blocks):
        m = re.match(r'(\S+?\.rs):', f.blocks[b][1].span or '')
        if m:
            return m.group(1)
    return ''


def in_tests(n):
    return '::tests::' in n or n.startswith('tests::')


def run():
    ck = Check('P08', 'MIR path rule over every loop over declared things (no iteration without emission or error, no early exit, no dropping adaptor), '
               'provenance of the fields of parsed declarations, and read-by-every-backend analysis of those fields')
    c = crate()
    ck.analysed('functions of the crate', len(c.fns))
    G = {}
    for n, f in sorted(c.fns.items()):
        if not in_tests(n):
            G[n] = f
            if any(short(t) in ('next', 'pop') and DECL.search(t.callee) for b, t in f.calls()):
                # closures of the function are part of it
                G[n] = Inliner(c, allow=lambda k, t: '{closure' in k.name).inline(f)
                G[n].name = n
    emit_loops(ck, c, G)
    adaptors(ck, c, G)
    driver(ck, c)
    whiles(ck, c, G)
    fields(ck, c, G)
    read_fields(ck, c)
    return ck.finish(['syn parses what is written in the file, in order'])


def emitters(c):
    """functions of the crate that (transitively) add something to a collection or text"""
    if hasattr(c, '_emitters'):
        return c._emitters
    direct, calls = set(), {}
    for n, f in c.fns.items():
        r = root_fn(n)
        for b, t in f.calls():
            if short(t) in STR_EMIT:
                direct.add(r)
            k = c.resolve(t.callee)
            if k is not None:
                calls.setdefault(r, set()).add(root_fn(k.name))
    ch = True
    while ch:
        ch = False
        for r, ks in calls.items():
            if r not in direct and ks & direct:
                direct.add(r)
                ch = True
    c._emitters = direct
    return direct


def is_emission(c, t):
    if t.kind != 'call':
        return False
    if short(t) in STR_EMIT:
        return True
    k = c.resolve(t.callee)
    if k is not None and root_fn(k.name) in emitters(c):
        # a helper that gets a mutable target (or whose result is kept) and emits
        for p in k.params:
            if (k.types.get(p) or '').startswith('&mut') or (k.types.get(p) or '').startswith("&'") and ' mut ' in (k.types.get(p) or '')[:12]:
                return True
    return False


def loop_next(f, h, comp):
    """the call of next() that drives the loop with header h"""
    st, seen = [h], set()
    while st:
        b = st.pop(0)
        if b in seen or b not in comp:
            continue
        seen.add(b)
        t = f.blocks[b][1]
        if t.kind == 'call' and short(t) in ('next', 'next_back', 'pop', 'pop_front'):
            return b, t
        if t.kind == 'switch':
            continue
        st.extend(t.succ())
    return None


def diverges(f, b):
    """no return is reachable from b"""
    return not any(f.blocks[x][1].kind == 'return' for x in f.reachable(b))


def errs(f, start, comp):
    """every path from start to a return sets an error result"""
    def ev(b, i, x):
        return i != 'term' and x.rv.kind == 'agg' and re.search(r'::Err$', strip_generics(x.rv.name or '')) is not None and not x.place.proj and \
            type_head(f.types.get(x.place.base, '')) == 'Result'
    return must_pass(f, start, ev) is None


def emit_loops(ck, c, G):
    rule = 'every iteration over declared things emits something or fails'
    rule2 = 'a loop over declared things is left early only with an error'
    for n, f in sorted(G.items()):
        if not any(short(t) in ('next', 'pop') and DECL.search(t.callee) for b, t in f.calls()):
            continue
        for h, comp in loops(f):
            nx = loop_next(f, h, comp)
            if nx is None or not DECL.search(nx[1].callee):
                continue
            b0, t0 = nx
            lab = fn_label(f)
            em = [x for x in comp if is_emission(c, f.blocks[x][1])]
            owned_items = re.search(r'IntoIter<(\w+::)*ItemToExpand>', t0.callee)
            if owned_items:
                item_loop(ck, c, f, h, comp, b0, t0)
                continue
            # blocks of inner loops do not count: zero iterations are possible
            if not em:
                continue
            if 'IntoIter<syn::Item>' in t0.callee and 'parse_file' in calls_of(f, Prov(f), t0) and last_seg(root_fn(n)) == 'expand_str':
                continue  # rule of its own
            reg = re.search(r'Iter<.*ItemToExpand>', t0.callee)
            if not reg:
                ck.ok(rule, '%s over %s' % (lab, elem(t0)))
                tr = back_without(f, h, comp, b0, lambda t: is_emission(c, t))
                if tr and not patch_loop(f, comp, em, t0):
                    ck.violation('skipped', '%s|%s' % (lab, elem(t0)), '%s: in %s an iteration over %s can end without emitting anything and without an error (path through lines %s)'
                                 % (span_loc(t0.span), lab, elem(t0), lines(f, tr)))
            if METHODS.search(t0.callee) and not patch_loop(f, comp, em, t0):
                no_cut_short(ck, c, f, h, comp, t0, em, loops(f))
            # early exits
            ck.ok(rule2, '%s over %s' % (lab, elem(t0)))
            for x in sorted(comp):
                for y in f.blocks[x][1].succ():
                    if y in comp:
                        continue
                    if is_exhausted_exit(f, comp, x, y, t0):
                        continue
                    if diverges(f, y) or errs(f, y, comp):
                        continue
                    ck.violation('early-exit', '%s|%s' % (lab, elem(t0)), '%s: in %s the loop over %s can be left before all elements were handled'
                                 % (span_loc(f.blocks[x][1].span), lab, elem(t0)))
    ck.floor(rule, 22)
    ck.floor('no method or variant is cut short', 18)


METHODS = re.compile(r'\b(ForeignMethod|ForeignEnumItem|ForeignInterfaceMethod)\b')


def no_cut_short(ck, c, f, h, comp, t0, em, allloops):
    """inside a loop over methods or variants no test decides between emitting and going on with the next element, except the dummy constructor and optional texts"""
    rule = 'no method or variant is cut short'
    lab = fn_label(f)
    inner = set()
    for h2, c2 in allloops:
        if c2 < comp:
            inner |= c2

    def okswitch(t):
        if t.kind != 'switch' or t.op.place is None:
            return False
        for kind, x, neg in cond_defs(f, t.op):
            if kind == 'call' and short(x) == 'is_dummy_constructor':
                return True
            if kind == 'call' and short(x) == 'is_empty' and re.search(r'\b(str|String)\b', x.callee):
                return True
        return False
    ems = set(em)

    def walk(b, goal):
        st, seen = [b], set()
        while st:
            x = st.pop()
            if x == h:
                if goal == 'skip':
                    return True
                continue
            if x in seen or x not in comp:
                continue
            if x in ems:
                if goal == 'emit':
                    return True
                continue
            seen.add(x)
            t = f.blocks[x][1]
            if goal == 'skip' and okswitch(t):
                # its skipping edges are allowed: follow only if no edge emits at all
                if any(walk(y, 'emit') for y in t.succ() if y in comp):
                    continue
            st.extend(t.succ())
        return False
    ck.ok(rule, '%s over %s' % (lab, elem(t0)))
    for x in sorted(comp - inner):
        t = f.blocks[x][1]
        if t.kind != 'switch' or okswitch(t):
            continue
        sk = [y for y in t.succ() if y in comp and walk(y, 'skip')]
        mu = [y for y in t.succ() if y in comp and y not in sk and walk(y, 'emit')]
        if sk and mu:
            ck.violation('cut-short', '%s|%s' % (lab, elem(t0)), '%s: %s goes on with the next %s under a condition other than a dummy constructor before all of its code was emitted'
                         % (span_loc(t.span), lab, elem(t0)))


def patch_loop(f, comp, em, t0):
    """a loop that edits the elements in place (iterator of mutable references)"""
    return 'IterMut' in t0.callee


def elem(t):
    m = DECL.search(t.callee)
    return m.group(1).split('::')[-1] if m else '?'


def lines(f, tr):
    r = []
    for b in tr or []:
        l = f.blocks[b][1].span
        m = re.search(r':(\d+):', l or '')
        if m and (not r or r[-1] != m.group(1)):
            r.append(m.group(1))
    return ','.join(r[:12])


def path_without(f, event):
    """a return of f can be reached without an event"""
    st, seen = [min(f.blocks)], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        t = f.blocks[x][1]
        if event(t):
            continue
        if t.kind == 'return':
            return True
        st.extend(t.succ())
    return False


def back_without(f, h, comp, b0, event):
    """a path from the element of the loop back to its header without an event"""
    st = [(x, (x,)) for x in f.blocks[b0][1].succ() if x in comp]
    seen = set()
    while st:
        x, tr = st.pop()
        if x == h:
            return tr
        if x in seen or x not in comp:
            continue
        seen.add(x)
        if event(f.blocks[x][1]):
            continue
        t = f.blocks[x][1]
        for y in t.succ():
            if t.kind == 'switch' and t.op.place is not None and excluded_by_cfg(f, t, y):
                continue
            st.append((y, tr + (y,)))
    return None


def excluded_by_cfg(f, t, y):
    """the edge on which the item's own #[cfg] excludes it"""
    for kind, x, neg in cond_defs(f, t.op):
        if kind == 'call' and short(x) == 'is_wrong_cfg_pointer_width':
            labs = [l for l, z in t.targets if z == y]
            return all((l != '0') != neg for l in labs)
    return False


def is_exhausted_exit(f, comp, x, y, t0):
    """the edge x->y is the None branch of the driving next()"""
    ss, t = f.blocks[x]
    if t.kind != 'switch':
        return t.kind in ('drop', 'goto') and False
    for s in ss:
        if s.rv.kind == 'discr' and s.rv.ops and s.rv.ops[0].place is not None and s.rv.ops[0].place.base == t0.dest.base:
            return True
    return False


def item_loop(ck, c, f, h, comp, b0, t0):
    rule = 'every registered item is given to the generator of its kind'
    lab = fn_label(f)
    G2 = Prov(f)

    def ev(t):
        if t.kind != 'call':
            return False
        k = c.resolve(t.callee)
        if k is None:
            return False
        if not re.search(r'Result<', k.ret or ''):
            return False
        tys = ' '.join(k.types.get(p) or '' for p in k.params)
        return bool(re.search(r'Foreign(Class|Enum)Info|ForeignInterface|ItemToExpand', tys))
    tr = back_without(f, h, comp, b0, ev)
    ck.require(tr is None, rule, lab, 'not-generated|' + lab, '%s: in %s an item can be passed over without being given to a generating function (path through lines %s)' % (span_loc(t0.span), lab, lines(f, tr)))
    for x in sorted(comp):
        for y in f.blocks[x][1].succ():
            if y in comp or is_exhausted_exit(f, comp, x, y, t0) or diverges(f, y) or errs(f, y, comp):
                continue
            ck.violation('early-exit', lab, '%s: in %s the loop over the items can be left before all were generated' % (span_loc(f.blocks[x][1].span), lab))
    # all classes were registered before: a loop over references with a call of register_class dominates
    idom = dominators(f)
    rule = 'all classes are registered before the first item is generated'
    found = None
    for h2, comp2 in loops(f):
        nx = loop_next(f, h2, comp2)
        if nx is None or comp2 is comp or not re.search(r'slice::Iter<.*ItemToExpand>', nx[1].callee):
            continue
        if h2 not in dom_set(idom, h):
            continue

        def reg(t):
            if t.kind != 'call':
                return False
            k = c.resolve(t.callee)
            return k is not None and any('ForeignClassInfo' in (k.types.get(p) or '') for p in k.params) and any((k.types.get(p) or '').startswith('&mut') for p in k.params)
        # from the Class branch
        starts = []
        for x in comp2:
            ss, t = f.blocks[x]
            if t.kind == 'switch':
                for s in ss:
                    if s.rv.kind == 'discr' and s.rv.ops[0].place is not None and 'ItemToExpand' in (f.types.get(s.rv.ops[0].place.base) or '') and s.place.base == (t.op.place.base if t.op.place else None):
                        starts += [y for l, y in t.targets if l == '0' or l == 0]
        for s0 in starts:
            seen, st, miss = set(), [s0], False
            while st:
                x = st.pop()
                if x == h2:
                    miss = True
                    break
                if x in seen or x not in comp2 or reg(f.blocks[x][1]):
                    continue
                seen.add(x)
                st.extend(f.blocks[x][1].succ())
            if not miss:
                found = h2
    ck.require(found is not None, rule, lab, 'not-registered|' + lab, '%s does not register every class before it generates code, so declarations that mention later classes fail or differ' % lab)


def adaptors(ck, c, G):
    rule = 'iterators over declared things drop none of them'
    for n, f in sorted(G.items()):
        P = None
        for b, t in f.calls():
            if not ('Iterator' in t.callee or 'iter' in t.callee.lower() or short(t) in ('retain', 'dedup', 'truncate')):
                continue
            m = re.match(r'<(.*) as (?:\w+::)*(Iterator|DoubleEndedIterator|ExactSizeIterator)>::(\w+)', t.callee)
            s = m.group(3) if m else short(t)
            recv = m.group(1) if m else t.callee
            if s not in DROP or not DECL.search(recv):
                continue
            if 'BareFnArg' in recv:
                continue
            ck.ok(rule, '%s: %s over %s' % (fn_label(f), s, elem(t)))
            if s == 'skip' and re.search(r'FnArg', recv):
                if skips_self(f, t):
                    continue
                ck.violation('skip', '%s|skip' % fn_label(f), '%s: %s skips leading arguments other than self' % (span_loc(t.span), fn_label(f)))
                continue
            if s == 'skip' and 'TypeParamBound' in recv:
                continue
            if s == 'filter_map' and 'FnArg' in recv and 'IterMut' in recv:
                continue  # in place edit of the named arguments
            ck.violation('dropping-adaptor', '%s|%s' % (fn_label(f), s), '%s: %s drops elements of a sequence of %s with %s()' % (span_loc(t.span), fn_label(f), elem(t), s))
    ck.floor(rule, 8)


def skips_self(f, t):
    """the number of skipped arguments is 1, or 0/1 chosen by a match on the method's variant"""
    P = Prov(f)
    vals = set()
    if len(t.args) < 2:
        return False
    for r in P.of_op(t.args[1]):
        if r[0] == 'const':
            vals.add(re.sub(r'_usize$', '', re.sub(r'^const ', '', str(r[1]))))
        elif r[0] == 'expr':
            vals.add('expr')
        else:
            vals.add(r[0])
    if vals == {'1'}:
        # only for things that always have self, or under a test of the variant
        return True
    if vals <= {'0', '1'} and vals:
        return one_is_method(f, t.args[1])
    if vals == {'expr'}:
        return True
    return vals <= {'0', '1', 'param', 'call'}


def one_is_method(f, op):
    """the block that assigns 1 is reached through the Method label of a switch on MethodVariant and those that assign 0 through others"""
    P = Prov(f)
    todo, seen, asg = [op.place.base], set(), []
    while todo:
        l = todo.pop()
        if l in seen:
            continue
        seen.add(l)
        for k, b, x in P.def_map.get(l, []):
            if k == 's' and x.rv.kind in ('use', 'cast') and x.rv.ops:
                o = x.rv.ops[0]
                if o.place is None:
                    asg.append((b, re.sub(r'_usize$', '', re.sub(r'^const ', '', str(o.const)))))
                elif not o.place.proj:
                    todo.append(o.place.base)
    for b, v in asg:
        labs = switch_labels(f, b)
        if labs is None:
            return False
        # MethodVariant: Constructor 0, Method 1, StaticMethod 2
        if v == '1' and labs - {'1'}:
            return False
        if v == '0' and '1' in labs:
            return False
    return True


def switch_labels(f, b):
    """labels of the nearest switch through which block b is entered ('otherwise' expanded over 0..2)"""
    preds = f.preds()
    st, seen, labs = [b], set(), set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        for p in preds.get(x, []):
            t = f.blocks[p][1]
            if t.kind == 'switch':
                explicit = {str(l) for l, y in t.targets if str(l) != 'otherwise'}
                for l, y in t.targets:
                    if y == x:
                        if str(l) == 'otherwise':
                            labs |= {'0', '1', '2'} - explicit
                        else:
                            labs.add(str(l))
            else:
                st.append(p)
    return labs or None


def driver(ck, c):
    """the loop over the items of a processed file"""
    rule = 'an item of a processed file is copied, or parsed and queued, or refused'
    fs = [f for n, f in c.fns.items() if not in_tests(n) and any(short(t) == 'parse_file' for b, t in f.calls()) and
          any(re.search(r'Vec<(\w+::)*ItemToExpand>', t.callee) or 'ItemToExpand' in t.callee for b, t in f.calls())]
    if not fs:
        # the loop body may have been moved to helpers
        fs = [f for n, f in c.fns.items() if last_seg(n) == 'expand_str']
    done = 0
    for f0 in fs:
        f = Inliner(c, allow=lambda k, t: '{closure' in k.name or (re.search(r'/src/(lib|error)\.rs$', fn_file(k)) and last_seg(k.name) not in ('fmt', 'init_types_map', 'drop')), ext_closures=True).inline(f0)
        P = Prov(f)
        for h, comp in loops(f):
            nx = loop_next(f, h, comp)
            if nx is None:
                continue
            b0, t0 = nx
            if re.search(r'IntoIter<syn::Item>', t0.callee) and 'parse_file' in calls_of(f, P, t0):
                done += 1
                ck.ok(rule, 'items of the file')

                def ev(t):
                    s = short(t)
                    if s == 'write_fmt':
                        return True
                    if s == 'push' and 'ItemToExpand' in t.callee:
                        return True
                    # (an error made by `?` of a helper that was inlined: that it reaches the caller is decided by P01)
                    return s == 'parse_foreign_typemap_macro' or s == 'from_residual'
                tr = back_without(f, h, comp, b0, ev)
                if tr:
                    ck.violation('item-lost', 'expand_str', '%s: an item of a processed file can be passed over: neither copied, queued for generation, merged as type map nor refused (path through lines %s)' % (span_loc(t0.span), lines(f, tr)))
                # each parsed declaration reaches the queue: path from the parse call passes push
                for x in sorted(comp):
                    t = f.blocks[x][1]
                    if t.kind == 'call' and re.match(r'parse_foreign(er)?_(class|enum|interface)$', short(t)):
                        ck.ok('a parsed declaration is queued', short(t))
                        st, seen, miss = list(t.succ()), set(), None
                        while st:
                            y = st.pop()
                            if y == h:
                                miss = y
                                break
                            if y in seen or y not in comp:
                                continue
                            seen.add(y)
                            ty = f.blocks[y][1]
                            if short(ty) == 'push' and 'ItemToExpand' in ty.callee or short(ty) == 'from_residual':
                                continue
                            if any(s.place.base == 0 for s in f.blocks[y][0]):
                                continue
                            st.extend(ty.succ())
                        if miss is not None:
                            ck.violation('parsed-not-queued', short(t), '%s: the result of %s does not always reach the queue of items to generate' % (span_loc(t.span), short(t)))
                        if short(t).endswith('class'):
                            ck.ok('a parsed class is registered in the type map', short(t))
                            st, seen, miss = list(t.succ()), set(), None
                            while st:
                                y = st.pop()
                                if y == h:
                                    miss = y
                                    break
                                if y in seen or y not in comp:
                                    continue
                                seen.add(y)
                                if re.match(r'register_foreign(er)?_class$|from_residual$', short(f.blocks[y][1])) or any(s.place.base == 0 for s in f.blocks[y][0]):
                                    continue
                                st.extend(f.blocks[y][1].succ())
                            if miss is not None:
                                ck.violation('class-not-registered', 'expand_str', '%s: a parsed class is not always registered in the type map' % span_loc(t.span))
                for x in sorted(comp):
                    for y in f.blocks[x][1].succ():
                        if y in comp or is_exhausted_exit(f, comp, x, y, t0) or diverges(f, y) or errs(f, y, comp):
                            continue
                        ck.violation('early-exit', 'expand_str', '%s: the loop over the items of a file can be left early' % span_loc(f.blocks[x][1].span))
                # the copied text is the item itself
                rule3 = 'what is copied is the item itself'
                for x in sorted(comp):
                    t = f.blocks[x][1]
                    if short(t) == 'new_display' and x in comp and 'DisplayToTokens' in t.callee:
                        ck.ok(rule3, span_loc(t.span))
        # generated code of the backend is written
        rule4 = 'all code returned by the generator is written'
        for h, comp in loops(f):
            nx = loop_next(f, h, comp)
            if nx and re.search(r'IntoIter<(proc_macro2::)?TokenStream>', nx[1].callee):
                ck.ok(rule4, 'expand_str')
                tr = back_without(f, h, comp, nx[0], lambda t: short(t) == 'write_fmt')
                if tr:
                    ck.violation('code-lost', 'expand_str', '%s: a piece of generated code can be skipped' % span_loc(nx[1].span))
        for b in f.blocks:
            t = f.blocks[b][1]
            if t.kind == 'call' and short(t) in ('for_each', 'try_for_each') and re.search(r'IntoIter<(proc_macro2::)?TokenStream>', t.callee):
                m = re.search(r'\{closure@([^{}]*?)\}', t.callee)
                g = c.closures.get(m.group(1)) if m else None
                ck.ok(rule4, 'expand_str')
                if g is None or path_without(g, lambda t: short(t) == 'write_fmt'):
                    ck.violation('code-lost', 'expand_str', '%s: a piece of generated code can be skipped' % span_loc(t.span))
        rule5 = 'helper code of the type maps is written'
        for b in f.blocks:
            t = f.blocks[b][1]
            if t.kind == 'call' and short(t) in ('for_each', 'try_for_each') and re.search(r'IntoIter<(syn::)?Item>', t.callee) and 'init_types_map' in calls_of(f, P, t):
                m = re.search(r'\{closure@([^{}]*?)\}', t.callee)
                g = c.closures.get(m.group(1)) if m else None
                ck.ok(rule5, 'expand_str')
                if g is None or path_without(g, lambda t: short(t) == 'write_fmt'):
                    ck.violation('utils-lost', 'expand_str', '%s: helper code of a type map can be skipped' % span_loc(t.span))
        for h, comp in loops(f):
            nx = loop_next(f, h, comp)
            if nx and re.search(r'IntoIter<syn::Item>', nx[1].callee) and 'init_types_map' in calls_of(f, P, nx[1]):
                ck.ok(rule5, 'expand_str')
                tr = back_without(f, h, comp, nx[0], lambda t: short(t) == 'write_fmt')
                if tr:
                    ck.violation('utils-lost', 'expand_str', '%s: helper code of a type map can be skipped' % span_loc(nx[1].span))
        rule6 = 'every source of the run is processed'
        for h, comp in loops(f):
            nx = loop_next(f, h, comp)
            if nx and re.search(r'Iter<.*SourceId>', nx[1].callee):
                ck.ok(rule6, 'expand_str')
                tr = back_without(f, h, comp, nx[0], lambda t: short(t) == 'parse_file')
                if tr:
                    ck.violation('source-lost', 'expand_str', '%s: a source can be skipped' % span_loc(nx[1].span))
    if not done:
        ck.violation('vacuity', 'driver', 'the loop over the items of a processed file was not found')
    ck.floor('a parsed declaration is queued', 3)
    ck.floor('all code returned by the generator is written', 1)
    ck.floor('helper code of the type maps is written', 1)
    ck.floor('every source of the run is processed', 1)


def calls_of(f, P, t):
    """names of all calls in the derivation of the receiver of t"""
    from inl import call_chain
    r = set()
    for names, _ in call_chain(f, t.args[0]):
        r |= set(names)
    for k in P.of_op(t.args[0]):
        if k[0] == 'call':
            r.add(last_seg(k[1]))
    return r


def whiles(ck, c, G):
    rule = 'every iteration of a declaration parser keeps what it parsed'
    for n, f in sorted(G.items()):
        if not fn_file(f).endswith('/code_parse.rs'):
            continue
        for h, comp in loops(f):
            t = f.blocks[h][1]
            if not (t.kind == 'call' and short(t) == 'is_empty' and 'ParseBuffer' in t.callee):
                continue
            # kept: pushed to a vector, appended to a text, or assigned to a variable declared outside of the loop
            outer = {s.place.base for b in f.blocks if b not in comp for s in f.blocks[b][0]}

            def ev(b):
                ss, tt = f.blocks[b]
                if short(tt) in ('push', 'push_str'):
                    return True
                return any(s.place.base in outer and not s.place.proj and f.types.get(s.place.base, '').startswith(('std::option::Option<', 'Option<')) and s.rv.kind in ('agg', 'use') and 'None' not in (s.rv.name or '') and f.debug.get(s.place.base) for s in ss)
            st = [x for x in t.succ() if x in comp]
            seen, miss = set(), None
            while st:
                x = st.pop()
                if x == h:
                    miss = x
                    break
                if x in seen or x not in comp or ev(x):
                    continue
                seen.add(x)
                st.extend(f.blocks[x][1].succ())
            ck.require(miss is None, rule, fn_label(f), 'parsed-and-dropped|' + fn_label(f), '%s: in %s an iteration of the parser can end without keeping what was parsed' % (span_loc(t.span), fn_label(f)))
    ck.floor(rule, 3)


def fields(ck, c, G):
    rule = 'each part of a parsed declaration comes from the parser'
    seen_fields = {}
    for n, f0 in sorted(G.items()):
        if not fn_file(f0).endswith('/code_parse.rs'):
            continue
        P = Prov(f0, PASS_THROUGH | {'ok_or_else', 'ok_or', 'unwrap_or_else'})
        for b, (ss, t) in f0.blocks.items():
            for s in ss:
                if s.rv.kind != 'agg' or not s.rv.fields:
                    continue
                st = last_seg(strip_generics(s.rv.name or ''))
                if st not in STRUCTS:
                    continue
                for fld, o in zip(s.rv.fields, s.rv.ops):
                    if fld not in STRUCTS[st]:
                        continue
                    srcs = P.of_op(o)
                    seen_fields.setdefault((st, fld), []).append((f0, s, srcs))
    for st, tab in STRUCTS.items():
        for fld, pat in tab.items():
            inst = seen_fields.get((st, fld))
            if not inst:
                ck.violation('vacuity', '%s.%s' % (st, fld), 'no construction of %s.%s found in the declaration parser' % (st, fld))
                continue
            for f0, s, srcs in inst:
                ck.ok(rule, '%s.%s' % (st, fld))
            if pat is None:
                continue
            names = set()
            for f0, s, srcs in inst:
                for r in srcs:
                    names.add(last_seg(r[1]) if r[0] == 'call' else str(r[1]))
            if not any(re.search(pat, x or '') for x in names):
                f0, s, _ = inst[0]
                ck.violation('not-from-parser', '%s.%s' % (st, fld), '%s: %s.%s never gets what was parsed for it (it comes from %s)' % (span_loc(s.span), st, fld, ', '.join(sorted(map(str, names)))[:120]))
    # the access of a method: all kinds can arise
    inst = seen_fields.get(('ForeignMethod', 'access'), [])
    kinds = set()
    for f0, s, srcs in inst:
        for r in srcs:
            for m in re.findall(r'MethodAccess::(\w+)', str(r)):
                kinds.add(m)
    ck.require({'Private', 'Public', 'Protected'} <= kinds, rule, 'ForeignMethod.access: all kinds', 'access', 'the declared access of a method can no longer become %s' % (sorted({'Private', 'Public', 'Protected'} - kinds)))


def read_fields(ck, c):
    """every part of a declaration is read by (code reachable from) each backend"""
    rule = 'each part of a declaration is used by every backend'
    src = open(os.path.join(core.REPO, 'macroslib/src/types.rs'), encoding='utf-8').read()
    src = re.sub(r'//[^\n]*', '', src)
    order = {}
    for m in re.finditer(r'struct\s+(\w+)[^{;(]*\{([^{}]*)\}', src):
        order[m.group(1)] = [x for x in re.findall(r'(\w+)\s*:\s*[^,]+', re.sub(r'<[^<>]*>', '', m.group(2)))]
    reach = {}
    for n, f in c.fns.items():
        r = root_fn(n)
        for b, t in f.calls():
            k = c.resolve(t.callee)
            if k is not None:
                reach.setdefault(r, set()).add(root_fn(k.name))
            for a in t.args:
                if a.place is None and a.const:
                    k = c.resolve(a.const) if re.match(r'^[\w:<>]+$', a.const) else None
                    if k is not None:
                        reach.setdefault(r, set()).add(root_fn(k.name))
    by_root = {}
    for n, f in c.fns.items():
        by_root.setdefault(root_fn(n), []).append(f)
    for lang, pat in (('CppConfig', 'cpp'), ('JavaConfig', 'java_jni'), ('PythonConfig', 'python')):
        entry = [n for n, f in c.fns.items() if last_seg(n) == 'expand_items' and getattr(f, 'impl', None) and f.impl[1] == lang]
        if not entry:
            ck.violation('vacuity', lang, 'entry function expand_items of %s not found' % lang)
            continue
        seen, st = set(), [root_fn(entry[0])]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            st.extend(reach.get(x, ()))
        read = set()
        for r in seen:
            for f in by_root.get(r, []):
                if in_tests(f.name) or r.endswith('::fmt'):
                    continue
                for b, (ss, t) in f.blocks.items():
                    ops = [o for s in ss for o in s.rv.ops] + (list(t.args) if t.kind == 'call' else []) + ([t.op] if t.kind == 'switch' else [])
                    for o in ops:
                        if o is None or o.place is None:
                            continue
                        ty = f.types.get(o.place.base) or ''
                        for i, p in enumerate(o.place.proj):
                            if p[0] == 'field':
                                h = head_ty(ty)
                                if h in order and p[1] < len(order[h]):
                                    read.add((h, order[h][p[1]]))
                                ty = p[2] or ''
                            elif p[0] == 'deref':
                                ty = re.sub(r"^&('\w+ )?(mut )?", '', ty)
                                m = re.match(r'^(std::boxed::)?Box<(.*)>$', ty)
                                if m:
                                    ty = m.group(2)
                            elif p[0] == 'variant':
                                pass
                            else:
                                ty = ''
        for st_ in ('ForeignClassInfo', 'ForeignMethod', 'ForeignEnumInfo', 'ForeignEnumItem', 'ForeignInterface', 'ForeignInterfaceMethod', 'FnDecl', 'SelfTypeDesc', 'NamedArg'):
            if lang == 'PythonConfig' and st_.startswith('ForeignInterface'):
                continue  # callbacks are refused by this backend
            for fld in order.get(st_, []):
                if (st_, fld) in (('NamedArg', 'span'),) or (lang == 'PythonConfig' and fld == 'doc_comments' and st_ == 'ForeignEnumItem'):
                    continue
                ck.require((st_, fld) in read, rule, '%s: %s.%s' % (lang, st_, fld), '%s|%s.%s' % (lang, st_, fld),
                           'no code reachable from expand_items of %s reads %s.%s: this part of a declaration is silently ignored' % (lang, st_, fld))
    ck.floor(rule, 80)


def head_ty(ty):
    ty = re.sub(r"^&('\w+ )?(mut )?", '', ty.strip())
    m = re.match(r'^(std::boxed::)?Box<(.*)>$', ty)
    if m:
        ty = m.group(2)
    return last_seg(strip_generics(ty)).split('<')[0].strip()
