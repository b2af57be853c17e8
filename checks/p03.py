"""P03 clean-up deletes only stale files of the output folder, only when asked."""
import re
from core import Check
from mir import *
from mirbase import *
from inl import Inliner, Prov, PASS_THROUGH
from paths import SymPaths, cond_defs, must_pass
from p02 import is_fs_write

# extensions of the files a backend writes to its output directory
EXT = {'CppConfig': {'h', 'hpp'}, 'JavaConfig': {'java'}}
STRICT = PASS_THROUGH - {'clone'}


def creates_files(c):
    """functions from which FileWriteCache::new is reachable"""
    r = set()
    ch = True
    direct = {}
    for n, f in c.fns.items():
        for b, t in f.calls():
            k = c.resolve(t.callee)
            if k is not None:
                direct.setdefault(root_fn(n), set()).add(root_fn(k.name))
            if re.search(r'FileWriteCache::new$', strip_generics(t.callee)):
                r.add(root_fn(n))
    while ch:
        ch = False
        for n, ks in direct.items():
            if n not in r and ks & r:
                r.add(n)
                ch = True
    return r


def leads_to(c, names):
    """functions from which a call of one of the named std functions is reached"""
    r, calls = set(), {}
    for n, f in c.fns.items():
        q = root_fn(n)
        for b, t in f.calls():
            if last_seg(strip_generics(t.callee)) in names:
                r.add(q)
            k = c.resolve(t.callee)
            if k is not None:
                calls.setdefault(q, set()).add(root_fn(k.name))
    ch = True
    while ch:
        ch = False
        for q, ks in calls.items():
            if q not in r and ks & r:
                r.add(q)
                ch = True
    return r


def strings(c, P, args):
    strs = set()
    for a in args:
        for r in P.of_op(a):
            if r[0] == 'const' and r[1]:
                for lit in [r[1]] + (c.const_values(r[1]) or []):
                    for m in re.finditer(r'"((?:[^"\\\\]|\\\\.)*)"', lit):
                        strs.add(m.group(1))
            elif r[0] == 'agg' and a.place is not None:
                pass
    return strs


def run():
    ck = Check('P03', 'path-sensitive guard analysis over inlined MIR: on every path to a file deletion the conditions (user flag, extension of '
               'the backend, not generated by this run) hold for the very path that is deleted, and the deletion follows all generation')
    c = crate()
    ck.analysed('functions of the crate', len(c.fns))
    gen = creates_files(c)
    lead = leads_to(c, {'remove_file', 'remove_dir', 'remove_dir_all'})
    rule0 = 'file deletion is called only by the clean-up'
    sites = []
    for n, f in sorted(c.fns.items()):
        for b, t in f.calls():
            cc = strip_generics(t.callee)
            if last_seg(cc) in ('remove_file', 'remove_dir', 'remove_dir_all'):
                ck.require(last_seg(cc) == 'remove_file', rule0, '%s: %s' % (fn_label(f), cc), 'dir|' + fn_label(f), '%s: %s removes whole directories' % (span_loc(t.span), fn_label(f)))
                sites.append((f, b, t))
    ck.floor(rule0, 1)
    # backends: trait implementations of expand_items
    rule = 'a deletion is guarded by the user flag, the extension and the set of generated files'
    covered = set()
    for f in sorted(c.by_last.get('expand_items', []), key=lambda x: x.name):
        if not f.impl[0]:
            continue
        lang = f.impl[1]
        # inline everything that leads to a deletion, and closures; nothing that generates code
        inl = Inliner(c, allow=lambda k, t: root_fn(k.name) in lead or ('{closure' in k.name and (root_fn(k.name) in lead or root_fn(k.name) == f.name)) or
                      (root_fn(k.name) not in gen and any('Path' in (k.types.get(p) or '') or 'OsStr' in (k.types.get(p) or '') or 'DirEntry' in (k.types.get(p) or '') for p in k.params)), desugar=True)
        g = inl.inline(f)
        P = Prov(g, STRICT)
        live = g.reachable(0)
        dels = [(b, g.blocks[b][1]) for b in sorted(live) if g.blocks[b][1].kind == 'call' and last_seg(strip_generics(g.blocks[b][1].callee)) == 'remove_file']
        for b, t in dels:
            covered.add(t.span)
        if not dels:
            ck.ok('backend without deletion', lang)
            continue
        flag_local = None
        for p in f.params:
            if f.types[p] == 'bool':
                flag_local = p
        exts = EXT.get(lang)
        if exts is None:
            ck.violation('backend', lang, '%s deletes files but has no known output extension' % lang)
            continue
        # 1. the flag
        S = SymPaths(g)
        # flag: deletion not reachable when the flag is false
        seen, st = set(), [0]
        while st:
            b = st.pop()
            if b in seen:
                continue
            seen.add(b)
            t = g.blocks[b][1]
            nx = t.targets
            if t.kind == 'switch':
                pr = P.of_op(t.op)
                if pr == {('param', flag_local, ())}:
                    neg = any(x[2] for x in cond_defs(g, t.op))
                    nx = [(l, x) for l, x in nx if (l == '0') != neg]
            st.extend(x for _, x in nx)
        for b, t in dels:
            ck.require(b not in seen, rule, '%s: user flag' % lang, 'flag|' + lang, '%s: in %s files are deleted although the user did not ask for it' % (span_loc(t.span), lang))
        # 2. per entry conditions, from the loop over read_dir
        heads = []
        for b in sorted(live):
            t = g.blocks[b][1]
            if t.kind == 'call' and last_seg(strip_generics(t.callee)) == 'next' and 'ReadDir' in ' '.join(g.types.get(o.place.base, '') for o in t.args if o.place is not None) + t.callee:
                heads.append(b)
        rds = [(b, g.blocks[b][1]) for b in sorted(live) if g.blocks[b][1].kind == 'call' and last_seg(strip_generics(g.blocks[b][1].callee)) == 'read_dir']
        ck.require(bool(heads) and len(rds) >= 1, rule, '%s: entries come from a directory listing' % lang, 'listing|' + lang, '%s: deletion does not iterate over a directory listing' % lang)
        for b, t in rds:
            pr = P.of_op(t.args[0])
            ck.require(len(pr) == 1 and list(pr)[0][0] == 'param' and list(pr)[0][1] == f.params[0] and len(list(pr)[0][2]) == 1, rule,
                       '%s: listing of the output directory' % lang, 'dir|' + lang, '%s: %s lists something else than its configured output directory (%s)' % (span_loc(t.span), lang, pr))
        for b, t in dels:
            path_prov = P.of_op(t.args[0])
            ck.require(len(path_prov) == 1 and list(path_prov)[0][0] == 'call' and last_seg(list(path_prov)[0][1]) == 'path', rule, '%s: deleted path is a listed entry' % lang,
                       'entry|' + lang, '%s: the deleted path is not an entry of the listing (%s)' % (span_loc(t.span), path_prov))
            starts = [g.blocks[h][1].targets[0][1] for h in heads]
            n = 0
            have = {}
            for s0 in starts:
                for path in S.paths(s0, {b}):
                    n += 1
                    have_ext, have_notgen = None, False
                    for key, val in path['facts'].items():
                        if not (isinstance(key, tuple) and key[0] == 'call'):
                            continue
                        x = g.blocks[key[1]][1]
                        nm = last_seg(strip_generics(x.callee))
                        if nm in ('eq', 'ne') and val == (1 if nm == 'eq' else 0) or nm in ('contains', 'any') and val == 1:
                            strs = strings(c, P, x.args)
                            if nm == 'any':
                                cl = inl.closure_of(g, x.args[-1])
                                eqs = [t2 for _, t2 in cl.calls() if last_seg(strip_generics(t2.callee)) in ('eq', 'ne')] if cl is not None else []
                                if len(eqs) != 1 or last_seg(strip_generics(eqs[0].callee)) != 'eq':
                                    continue
                                strs |= strings(c, Prov(cl, STRICT), eqs[0].args)
                            of_ext = any(r[0] == 'call' and last_seg(r[1]) == 'extension' and P.of_op(g.blocks[r[2]][1].args[0]) == path_prov for a in x.args for r in P.of_op(a))
                            if strs and (of_ext or nm == 'any'):
                                have_ext = (strs <= exts) if have_ext is None else (have_ext and strs <= exts)
                        if nm == 'contains' and val == 0:
                            ty = g.types.get(x.args[0].place.base, '') if x.args[0].place is not None else ''
                            if 'HashSet<std::path::PathBuf' in ty and P.of_op(x.args[1]) == path_prov:
                                have_notgen = True
                    have.setdefault('ext', []).append(have_ext is True)
                    have.setdefault('gen', []).append(have_notgen)
            ck.analysed('paths from a listed entry to its deletion', n)
            ck.require(all(have.get('ext', [])), rule, '%s: extension on every path' % lang, 'ext|' + lang,
                       '%s: on some path %s deletes a file without having seen that its extension is one of %s' % (span_loc(t.span), lang, sorted(exts)))
            ck.require(all(have.get('gen', [])), rule, '%s: not generated, on every path' % lang, 'generated|' + lang,
                       '%s: on some path %s deletes a file without having checked that this run did not generate it' % (span_loc(t.span), lang))
            ck.require(n > 0, rule, '%s: paths found' % lang, 'paths|' + lang, '%s: no path to the deletion was understood' % lang)
            # 3. order: nothing is generated after the clean-up starts
            after = g.reachable(b)
            late = [g.blocks[x][1] for x in after if g.blocks[x][1].kind == 'call' and (lambda k: k is not None and root_fn(k.name) in gen)(c.resolve(g.blocks[x][1].callee))]
            ck.require(not late, rule, '%s: deletion comes after generation' % lang, 'order|' + lang, '%s: files are generated after the clean-up of %s started' % (span_loc(t.span), lang))
            before_ok = True
    for f, b, t in sites:
        if t.span not in covered and fn_label(f):
            ck.violation('uncovered', fn_label(f), '%s: a deletion in %s is not reached from the clean-up of a backend as understood here' % (span_loc(t.span), fn_label(f)))
    ck.floor(rule, 12)
    # every output of a backend is registered in the set that clean-up consults
    rule2 = 'every foreign file is registered as generated by this run'
    for n, f in sorted(c.fns.items()):
        for b, t in f.calls():
            if re.search(r'FileWriteCache::new$', strip_generics(t.callee)):
                none = any('NoNeedFsOpsRegistration' in x for x in source_types(f, t.args[1]))
                if none:
                    good = owned_by(n, lambda x: c.fns.get(x) is not None and getattr(c.fns[x], 'impl', (None, None))[1] == 'Generator')
                    ck.require(good, rule2, '%s: Rust output only' % fn_label(f), 'noreg|' + fn_label(f), '%s: the file written by %s is not registered as generated, clean-up would delete it' % (span_loc(t.span), fn_label(f)))
                else:
                    tys = source_types(f, t.args[1])
                    ck.require(any('HashSet<std::path::PathBuf' in x for x in tys), rule2, fn_label(f), 'reg|' + fn_label(f),
                               '%s: the file written by %s is registered in %s instead of the set of generated files' % (span_loc(t.span), fn_label(f), tys))
    ck.floor(rule2, 10)
    for f in c.by_last.get('new', []):
        if f.impl[1] != 'FileWriteCache':
            continue
        g = Inliner(c).inline(f)
        P = Prov(g)
        regs = {b for b in g.reachable(0) if g.blocks[b][1].kind == 'call' and last_seg(strip_generics(g.blocks[b][1].callee)) == 'register' and
                any(r[:2] == ('param', f.params[0]) for r in P.of_op(g.blocks[b][1].args[1]))}
        ck.require(bool(regs) and must_pass(g, 0, lambda b, i, x: i == 'term' and b in regs) is None, rule2, 'registration happens whenever an output is opened', 'always',
                   '%s:%s: an output can be composed without being registered as generated, clean-up would delete it' % (f.file, f.line))
    rule3 = 'registration keeps the path'
    for f in c.by_last.get('register', []):
        if f.impl[0] == 'FileOperationsRegistrator' and f.impl[1] in ('FxHashSet', 'HashSet'):
            g = Inliner(c).inline(f)
            P = Prov(g)
            good = any(t.kind == 'call' and last_seg(strip_generics(t.callee)) == 'insert' and any(r[:2] == ('param', f.params[1]) for r in P.of_op(t.args[1])) for _, t in g.blocks.values())
            ck.require(good, rule3, 'set', 'register', 'registering a generated file does not store its path')
    # the set is not emptied
    for n, f in sorted(c.fns.items()):
        for b, t in f.calls():
            nm = last_seg(strip_generics(t.callee))
            if nm in ('remove', 'clear', 'retain', 'drain', 'take') and t.args and t.args[0].place is not None and 'HashSet<std::path::PathBuf' in f.types.get(t.args[0].place.base, ''):
                ck.violation('set-shrinks', fn_label(f), '%s: %s removes entries from the set of generated files' % (span_loc(t.span), fn_label(f)))
    ck.floor(rule3, 1)
    # the flag the user sets is the flag handed to the backend
    rule4 = 'the flag is the one the user set, off by default'
    for f in c.by_last.get('expand_str', []):
        P = Prov(f)
        for b, t in f.calls():
            if last_seg(strip_generics(t.callee)) == 'expand_items':
                k = [i for i, a in enumerate(t.args) if a.place is not None and f.types.get(a.place.base) == 'bool' or a.const in ('true', 'false')]
                for i in k:
                    pr = P.of_op(t.args[i])
                    ck.require(len(pr) == 1 and list(pr)[0][:2] == ('param', f.params[0]), rule4, 'handed over', 'hand', '%s: the clean-up flag given to the backend is not the user\'s' % span_loc(t.span))
                    field = list(pr)[0][2] if pr and list(pr)[0][0] == 'param' else None
                    for h in c.by_last.get('new', []):
                        if h.impl[1] == 'Generator':
                            for bb in h.live():
                                for s in h.blocks[bb][0]:
                                    if s.rv.kind == 'agg' and last_seg(strip_generics(s.rv.name or '')) == 'Generator' and field:
                                        v = s.rv.ops[field[0]]
                                        ck.require(const_false(h, v), rule4, 'default', 'default', 'removal of not generated files is not off by default')
    ck.floor(rule4, 2)
    return ck.finish(['the list of extensions per backend is what the backend writes to its output directory'])


def const_false(h, op):
    return all(r == ('const', 'false') for r in Prov(h).of_op(op))


def source_types(f, op):
    """types of all locals the operand comes from"""
    out = set()
    P = {}
    for b in f.live():
        for s in f.blocks[b][0]:
            if not s.place.proj:
                P.setdefault(s.place.base, []).append(s)
    st = [op]
    seen = set()
    while st:
        o = st.pop()
        if o.place is None:
            if o.const:
                out.add(o.const)
            continue
        if o.place.base in seen:
            continue
        seen.add(o.place.base)
        out.add(f.types.get(o.place.base, ''))
        for p in o.place.proj:
            if p[0] == 'field':
                out.add(p[2])
        for s in P.get(o.place.base, []):
            st.extend(s.rv.ops)
    return out
