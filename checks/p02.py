"""P02 every composed file is committed, and only if its content changed."""
import re
from core import Check
from mir import *
from mirbase import *
from inl import Inliner, Prov, PASS_THROUGH
from paths import SymPaths, must_pass, assigns_err, cond_defs

FWC = 'FileWriteCache'
FS_WRITE = re.compile(r'(^|::)(File::create(_new)?|fs::write|fs::rename|fs::copy|fs::hard_link|OpenOptions::new|File::options|File::set_len|fs::set_permissions|fs::create_dir(_all)?|fs::remove_dir(_all)?|symlink|fs::remove_file|File::set_permissions|File::set_modified|File::set_times)$|^std::fs::(write|rename|copy|remove_file|remove_dir|remove_dir_all|create_dir|create_dir_all|hard_link|set_permissions)$|^(remove_file|remove_dir_all|remove_dir|rename|create_dir|create_dir_all|hard_link|set_permissions)$')
FS_WRITE_SHORT = {'std::fs::write', 'std::fs::copy'}


def is_owned_fwc(ty):
    return bool(re.match(r'^(\w+::)*FileWriteCache$', ty.strip()))


def is_fs_write(c):
    c = strip_generics(c)
    return bool(FS_WRITE.search(c))


def cache_impl(n):
    """functions that belong to the cache itself"""
    c = crate()
    f = c.fns.get(n)
    return f is not None and getattr(f, 'impl', (None, None))[1] == FWC


def run():
    ck = Check('P02', 'typestate of the write cache over MIR: every owned cache value is committed on every success path; who-may-call rule for '
               'file system writes; path rule of the commit function (compare whole content, then create and write whole content)')
    c = crate()
    ck.analysed('functions of the crate', len(c.fns))
    commit_ty(ck, c)
    who(ck, c)
    commit_fn(ck, c)
    write_fn(ck, c)
    taken(ck, c)
    return ck.finish(['std::fs and std::io behave as documented'])


def commit_ty(ck, c):
    rule = 'an owned output cache is committed on every success path'
    for n, f in sorted(c.fns.items()):
        if cache_impl(root_fn(n)):
            continue
        for l, ty in sorted(f.types.items()):
            if l == 0 or not is_owned_fwc(ty):
                continue
            starts = []
            if l in f.params:
                starts.append((0, None))
            for b in f.live():
                ss, t = f.blocks[b]
                for i, s in enumerate(ss):
                    if s.place.base == l and not s.place.proj:
                        starts.append((b, i))
                if t.kind == 'call' and t.dest.base == l and not t.dest.proj and t.targets:
                    starts.append((t.targets[0][1], None))
            for b, i in starts:
                ck.ok(rule, '%s: %s' % (fn_label(f), f.debug.get(l, 'cache value')))

                def ev(bb, idx, x, l=l):
                    ops = x.rv.ops if idx != 'term' else x.args
                    for o in ops:
                        if o.kind == 'move' and o.place is not None and o.place.base == l and not o.place.proj:
                            if idx == 'term' and last_seg(strip_generics(x.callee)) in ('drop', 'forget'):
                                return False
                            return True
                    return False
                tr = must_pass(f, b, ev, i)
                if tr is not None:
                    ck.violation('not-committed', '%s|%s' % (fn_label(f), f.debug.get(l, '?')),
                                 '%s: in %s the output composed in %s is dropped without being written on a success path' % (span_loc(f.blocks[b][1].span), fn_label(f), f.debug.get(l, 'a temporary')))
    ck.floor(rule, 14)
    # moved into something: only known consumers
    rule2 = 'an owned output cache is handed only to the commit, to its owner or to the map of shared files'
    for n, f in sorted(c.fns.items()):
        for b, t in f.calls():
            for o in t.args:
                if o.kind == 'move' and o.place is not None and not o.place.proj and is_owned_fwc(f.types.get(o.place.base, '')):
                    nm = last_seg(strip_generics(t.callee))
                    callee = c.resolve(t.callee)
                    good = nm == 'update_file_if_necessary' or callee is not None or nm in ('insert', 'push', 'or_insert')
                    ck.require(good, rule2, '%s -> %s' % (fn_label(f), nm), '%s|%s' % (fn_label(f), nm),
                               '%s: %s hands an uncommitted output to %s' % (span_loc(t.span), fn_label(f), t.callee))
    ck.floor(rule2, 12)
    # containers of caches
    rule3 = 'every file in a collection of outputs is committed on success'
    for n, f in sorted(c.fns.items()):
        for l, ty in sorted(f.types.items()):
            if l in f.params or l == 0 or not re.match(r'^(std::collections::|rustc_hash::)?(HashMap|FxHashMap|std::vec::Vec|Vec|BTreeMap|std::collections::BTreeMap)<.*FileWriteCache', ty):
                continue
            starts = []
            for b in f.live():
                ss, t = f.blocks[b]
                if t.kind == 'call' and t.dest.base == l and not t.dest.proj and t.targets and last_seg(strip_generics(t.callee)) in ('default', 'new', 'with_capacity'):
                    starts.append(t.targets[0][1])
            for b in starts:
                ck.ok(rule3, '%s: %s' % (fn_label(f), f.debug.get(l, '?')))

                al = aliases(f, l)

                def ev(bb, idx, x, al=al):
                    if idx == 'term' and x.kind == 'call':
                        for o in x.args:
                            if o.place is not None and o.place.base in al and not o.place.proj:
                                if last_seg(strip_generics(x.callee)) in ('into_iter', 'into_values', 'drain'):
                                    return True
                                if o.kind == 'move' and al[o.place.base] == 'own' and c.resolve(x.callee) is not None:
                                    return True
                    return False
                tr = must_pass(f, b, ev)
                if tr is not None:
                    ck.violation('shared-not-committed', '%s|%s' % (fn_label(f), f.debug.get(l, '?')),
                                 '%s: the shared output files collected in %s are not all written on a success path of %s' % (fn_label(f), f.debug.get(l), fn_label(f)))
                # nothing filters the iteration: an owned cache is taken out of the iterator's item
                outs = [x for x, ty2 in f.types.items() if is_owned_fwc(ty2)]
                if not outs and not any(is_owned_fwc(g.types.get(p, '')) for g in c.fns.values() if g.name.startswith(n) for p in g.params):
                    ck.violation('shared-not-committed', '%s|%s|skipped' % (fn_label(f), f.debug.get(l, '?')), 'the files collected in %s of %s are never taken out' % (f.debug.get(l), fn_label(f)))
                for b2, t2 in f.calls():
                    nm = last_seg(strip_generics(t2.callee))
                    if nm in ('filter', 'skip', 'take', 'step_by', 'skip_while', 'take_while', 'filter_map', 'retain', 'remove', 'clear') and FWC in ' '.join(f.types.get(o.place.base, '') for o in t2.args if o.place is not None):
                        ck.violation('shared-not-committed', '%s|%s' % (fn_label(f), nm), '%s: outputs are left out by %s in %s' % (span_loc(t2.span), nm, fn_label(f)))
    ck.floor(rule3, 1)


def aliases(f, l):
    """locals that are the value l moved, or a direct borrow of it"""
    al = {l: 'own'}
    ch = True
    while ch:
        ch = False
        for b in f.live():
            for s in f.blocks[b][0]:
                if s.place.proj or s.place.base in al or not s.rv.ops:
                    continue
                o = s.rv.ops[0]
                if o.place is None or o.place.base not in al:
                    continue
                if s.rv.kind == 'use' and not o.place.proj:
                    al[s.place.base] = al[o.place.base]
                    ch = True
                elif s.rv.kind in ('ref', 'refmut') and all(p[0] == 'deref' for p in o.place.proj):
                    al[s.place.base] = 'ref'
                    ch = True
    return al


def who(ck, c):
    rule = 'only the write cache and the clean-up touch the file system'
    for n, f in sorted(c.fns.items()):
        for b, t in f.calls():
            if is_fs_write(t.callee):
                cc = strip_generics(t.callee)
                nm = last_seg(cc)
                if nm == 'remove_file':
                    continue        # P03
                good = owned_by(n, cache_impl)
                ck.require(good, rule, '%s calls %s' % (fn_label(f), cc), '%s|%s' % (fn_label(f), cc),
                           '%s: %s writes to the file system with %s outside the compare-before-write cache' % (span_loc(t.span), fn_label(f), cc))
            if strip_generics(t.callee).endswith('Command::new'):
                names = Prov(f, PASS_THROUGH | {'unwrap_or', 'unwrap_or_default', 'map', 'var', 'var_os', 'ok_or_else', 'or_else'}).of_op(t.args[0])
                text = ' '.join(x.text for bb in f.live() for x in f.blocks[bb][0]) + ' '.join(x.text for _, x in f.calls())
                good = '"rustfmt"' in text or 'rustfmt' in str(names)
                ck.require(good, rule, '%s starts a process' % fn_label(f), '%s|Command' % fn_label(f), '%s: %s starts a process' % (span_loc(t.span), fn_label(f)))
    ck.floor(rule, 2)


STRICT = PASS_THROUGH - {'index', 'index_mut', 'to_string', 'clone'}


def commit_fn(ck, c):
    rule = 'commit: identical content on disk is not rewritten, different content is written completely'
    fs = [f for f in c.by_last.get('update_file_if_necessary', []) if f.impl[1] == FWC]
    if not fs:
        ck.violation('anchor', 'commit', 'the commit function of the write cache is gone')
        return
    f = fs[0]
    g = Inliner(c, desugar=True).inline(f)
    P = Prov(g, STRICT)
    self_l = f.params[0]
    # which field is the content (Vec<u8>) and which the path (PathBuf)
    cnt = path = None
    for h in g.blocks.values():
        for s in h[0]:
            for o in s.rv.ops:
                if o.place is not None:
                    for p in o.place.proj:
                        if p[0] == 'field' and o.place.base == self_l:
                            if 'Vec<u8>' in p[2]:
                                cnt = p[1]
                            if 'PathBuf' in p[2]:
                                path = p[1]
    ck.require(cnt is not None and path is not None, rule, 'content and path fields', 'fields', 'the commit function does not use both content and path')
    content = ('param', self_l, (cnt,))
    creates, writes, eqs, opens = [], [], [], []
    bufs = set()
    for b in g.reachable(0):
        ss, t = g.blocks[b]
        if t.kind != 'call':
            continue
        cc = strip_generics(t.callee)
        nm = last_seg(cc)
        if nm in ('read_to_end', 'read_to_string') and len(t.args) == 2:
            bufs |= P.of_op(t.args[1])
        if re.search(r'(^|::)fs::read(_to_string)?$', cc):
            bufs |= {('call', cc, b, ())}
        if cc.endswith('OpenOptions::open'):
            creates.append((b, t))
            tr = [x for _, (_, x) in sorted(g.blocks.items()) if x.kind == 'call' and strip_generics(x.callee).endswith('OpenOptions::truncate')]
            ck.require(bool(tr) and all(x.args[1].const == 'true' for x in tr), rule, 'old content is cut off', 'truncate', '%s: the file is opened without cutting off its old content' % span_loc(t.span))
        elif is_fs_write(cc) and 'OpenOptions' not in cc:
            creates.append((b, t))
        if nm in ('write_all', 'write', 'write_fmt', 'write_vectored') and 'fs::File' in cc or cc == 'std::fs::write' or (nm in ('write_all', 'write') and 'BufWriter' in cc):
            writes.append((b, t, nm))
        if re.search(r'File::open$|fs::read$|fs::read_to_string$', cc):
            opens.append((b, t))
        if nm in ('eq', 'ne') and len(t.args) == 2:
            eqs.append((b, t, nm))
    ck.require(len(creates) >= 1, rule, 'the file is created for changed content', 'create', 'the commit function never writes the file')
    for b, t in creates + opens:
        pr = P.of_op(t.args[1 if 'OpenOptions' in t.callee else 0]) if t.args else None
        ck.require(pr == {('param', self_l, (path,))}, rule, 'path used is the path of the cache (%s)' % last_seg(strip_generics(t.callee)), 'path',
                   '%s: %s works on another path than the cache was created for' % (span_loc(t.span), t.callee))
    good_eq = []
    for b, t, nm in eqs:
        a, bb = P.of_op(t.args[0]), P.of_op(t.args[1])
        if (content in a and bb & bufs) or (content in bb and a & bufs):
            good_eq.append((b, t, nm))
    ck.require(len(good_eq) >= 1, rule, 'whole content is compared with what is on disk', 'compare', '%s: the content read from disk is not compared as a whole with the composed content' % fn_label(f))
    # every loop-free path through the commit
    S = SymPaths(g)
    eqb = {b: nm for b, t, nm in good_eq}
    opb = {b for b, _ in opens}
    crb = {b for b, _ in creates}
    wrb = {b for b, t, nm in writes if (nm == 'write_all' or strip_generics(t.callee) == 'std::fs::write') and P.of_op(t.args[-1]) == {content}}
    ck.require(bool(wrb), rule, 'whole content is written with write_all', 'write-all', 'the commit function does not write the whole composed content')
    n = 0
    bad = {}
    for path in S.paths(0):
        n += 1
        same = diff = noopen = False
        for key, val in path['facts'].items():
            if isinstance(key, tuple) and key[0] == 'call' and key[1] in eqb:
                if (val == 1) == (eqb[key[1]] == 'eq'):
                    same = True
                else:
                    diff = True
            if isinstance(key, tuple) and key[0] == 'd' and isinstance(key[1], tuple) and key[1][0] == 'call' and key[1][1] in opb and val == 1:
                noopen = True
        ev = [b for b, t, v in path['events']]
        cr = [i for i, b in enumerate(ev) if b in crb]
        wr = [i for i, b in enumerate(ev) if b in wrb]
        r = S.get(path['env'], 0, ())
        ok = not (r is not None and r[0] == 'v' and r[1] == 'Err')
        if cr and same:
            bad.setdefault('rewrite-same', 'the commit function can open the file for writing although the content is identical')
        if cr and not diff and not noopen:
            bad.setdefault('no-compare', 'the file can be rewritten without comparing its content')
        if ok and cr and not any(j >= cr[-1] for j in wr):
            bad.setdefault('create-no-write', 'a success path after creating the file does not write the content')
        if ok and not cr and not same:
            bad.setdefault('skip-write', 'the commit function can report success without having written changed content')
    ck.analysed('paths through the commit function', n)
    ck.require(n >= 3, rule, 'paths understood', 'paths', 'the paths through the commit function were not understood')
    for k, what in (('rewrite-same', 'identical content: file is not opened for writing'), ('no-compare', 'written only after a comparison or when there is no file'),
                    ('create-no-write', 'created file is filled before success is reported'), ('skip-write', 'success only when content was identical or has been written')):
        ck.require(k not in bad, rule, what, k, '%s:%s: %s' % (f.file, f.line, bad.get(k)))


def write_fn(ck, c):
    rule = 'composing: everything written to the cache is kept'
    for f in c.by_last.get('write', []):
        if f.impl != ('Write', FWC):
            continue
        g = Inliner(c).inline(f)
        P = Prov(g, STRICT)
        data = ('param', f.params[1], ())
        app = []
        for b in g.reachable(0):
            t = g.blocks[b][1]
            if t.kind == 'call' and last_seg(strip_generics(t.callee)) in ('extend_from_slice', 'write_all', 'write', 'extend', 'append') and len(t.args) > 1 and P.of_op(t.args[1]) == {data} and any(r[0] == 'param' and r[1] == f.params[0] for r in P.of_op(t.args[0])):
                app.append(b)
        ck.require(bool(app) and must_pass(g, 0, lambda bb, i, x: i == 'term' and bb in app) is None, rule, 'write keeps all bytes', 'write', 'Write for FileWriteCache does not keep all bytes on every path')
    ck.floor(rule, 1)
    # new(): starts empty, with the path given, registered
    rule2 = 'a new cache is registered under the path it is committed to'
    for f in c.by_last.get('new', []):
        if f.impl[1] != FWC:
            continue
        g = Inliner(c).inline(f)
        P = Prov(g)
        regs = [(b, g.blocks[b][1]) for b in g.reachable(0) if g.blocks[b][1].kind == 'call' and last_seg(strip_generics(g.blocks[b][1].callee)) == 'register']
        good = [b for b, t in regs if any(r[:2] == ('param', f.params[0]) for r in P.of_op(t.args[1]))]
        ck.require(bool(good) and must_pass(g, 0, lambda bb, i, x: i == 'term' and bb in good) is None, rule2, 'new', 'register', 'FileWriteCache::new does not register its path on every path')
    ck.floor(rule2, 1)


def taken(ck, c):
    rule = 'content taken out of a cache for post processing is put back before the commit'
    for n, f in sorted(c.fns.items()):
        if cache_impl(root_fn(n)):
            continue
        for b, t in f.calls():
            if last_seg(strip_generics(t.callee)) == 'take_content' and t.targets:
                ck.ok(rule, fn_label(f))
                tr = must_pass(f, t.targets[0][1], lambda bb, i, x: i == 'term' and x.kind == 'call' and last_seg(strip_generics(x.callee)) == 'replace_content')
                if tr is not None:
                    ck.violation('taken', fn_label(f), '%s: content taken in %s is not put back on a success path' % (span_loc(t.span), fn_label(f)))
                # commit must not come between
                seen = set()
                st = [t.targets[0][1]]
                while st:
                    bb = st.pop()
                    if bb in seen:
                        continue
                    seen.add(bb)
                    tt = f.blocks[bb][1]
                    if tt.kind == 'call':
                        nm = last_seg(strip_generics(tt.callee))
                        if nm == 'replace_content':
                            continue
                        if nm == 'update_file_if_necessary':
                            ck.violation('taken', fn_label(f) + '|commit', '%s: %s commits a cache whose content was taken out' % (span_loc(tt.span), fn_label(f)))
                    st.extend(tt.succ())
    ck.floor(rule, 1)
