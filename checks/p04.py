"""P04 determinism."""
import re
from core import Check
from mir import *
from mirbase import *
from inl import Prov

ITER = {'iter', 'iter_mut', 'into_iter', 'keys', 'values', 'values_mut', 'into_keys', 'into_values', 'drain', 'retain', 'extract_if',
        'union', 'intersection', 'difference', 'symmetric_difference', 'extend', 'new_debug', 'fmt', 'from_iter', 'collect', 'hash'}
# sources of values that differ between two runs on the same input; (pattern, allowed owner functions, reason)
SOURCES = [
    (r'(SystemTime|Instant)::(now|elapsed)$|^now$', (), 'clock'),
    (r'SystemTime::UNIX_EPOCH|chrono|::Utc::now|Local::now', (), 'clock'),
    (r'process::id$|thread::current$|thread::Thread::id$|ThreadId', (), 'process or thread identity'),
    (r'RandomState::new$|<(std::hash::)?RandomState as .*Default>::default$|rand::|fastrand|getrandom', (), 'randomness'),
    (r'(^|::)env::(vars|vars_os|args|args_os|temp_dir|current_dir|current_exe|home_dir|var_os)$|^(vars|vars_os|args_os|temp_dir|current_dir|current_exe|home_dir|var_os)$', (), 'environment of the process'),
    (r'(^|::)env::var$|^var$|^std::env::var$', ('target_pointer_width_from_env',), 'pointer width of the target, part of the configuration'),
    (r'(^|::)read_dir$', ('remove_files_if',), 'order of deletion only'),
    (r'(^|::)metadata$|::modified$|::created$|::accessed$|symlink_metadata$', (), 'file times'),
    (r'thread::(spawn|scope)$|^spawn$|thread::Builder::spawn$', ('rustfmt_cnt',), 'one writer thread for the stdin of rustfmt'),
    (r'mpsc::|rayon', (), 'order of threads'),
    (r'new_pointer$|<.* as (std::fmt::)?Pointer>::fmt$|ptr::hash$|::addr$|expose_provenance$|addr_eq$', (), 'address'),
    (r'type_name$|type_name_of_val$|TypeId::of$|Location::caller$', (), 'compiler dependent'),
    (r'available_parallelism$|hostname', (), 'machine'),
]


def random_hash(ty):
    """type text contains a std hash table with the default (randomly seeded) hasher"""
    for m in re.finditer(r'\bHash(Map|Set)<', ty):
        e = match_close(ty, m.end() - 1)
        a = split_top(ty[m.end():e - 1])
        a = [x for x in a if not x.startswith("'")]
        need = 3 if m.group(1) == 'Map' else 2
        if len(a) < need or 'RandomState' in a[-1]:
            return True
    return 'RandomState' in ty or bool(re.search(r'hash_(map|set)::(Iter|IntoIter|Keys|Values|Drain)', ty) and 'RandomState' in ty)


def run():
    ck = Check('P04', 'who-may-call and type rules over MIR: no call of a source of nondeterminism, no iteration of a container with a randomly '
               'seeded hasher, no address turned into a number or text')
    c = crate()
    ck.analysed('functions of the crate', len(c.fns))
    rule = 'sources of nondeterminism are called only where they cannot reach the output'
    rule2 = 'iterated hash containers have a fixed hasher'
    rule3 = 'no address becomes a number'
    rule4 = 'hash implementations use content, not addresses'
    ncalls = 0
    for n, f in sorted(c.fns.items()):
        for b, t in f.calls():
            ncalls += 1
            cc = strip_generics(t.callee)
            if c.resolve(t.callee) is not None:
                continue
            for pat, owners, why in SOURCES:
                if re.search(pat, cc):
                    good = bool(owners) and owned_by(n, lambda x: last_seg(x) in owners)
                    if good and why.startswith('pointer width'):
                        P = Prov(f)
                        good = all(r[0] == 'const' and 'CARGO_CFG_TARGET_POINTER_WIDTH' in r[1] for r in P.of_op(t.args[0]))
                    ck.require(good, rule, '%s: %s (%s)' % (fn_label(f), cc, why), '%s|%s' % (fn_label(f), cc), '%s: %s calls %s: %s can reach generated output' % (span_loc(t.span), fn_label(f), cc, why))
            nm = last_seg(cc)
            if nm in ITER or 'IntoIterator' in cc or 'fmt::Debug' in cc:
                tys = [t.callee]
                for a in t.args:
                    if a.place is not None:
                        ty = f.types.get(a.place.base, '')
                        tys.append(ty)
                        for p in a.place.proj:
                            if p[0] == 'field':
                                tys.append(p[2])
                hashy = [x for x in tys if re.search(r'\bHash(Map|Set)<', x)]
                if hashy:
                    if nm in ('from_iter', 'collect', 'extend') and not any(random_hash(x) for x in tys[1:]):
                        # filling a table is order independent for a set of keys
                        ck.ok(rule2, '%s: %s' % (fn_label(f), nm))
                        continue
                    bad = [x for x in hashy if random_hash(x)]
                    ck.require(not bad, rule2, '%s: %s' % (fn_label(f), nm), '%s|%s' % (fn_label(f), nm),
                               '%s: %s iterates over a container with a randomly seeded hasher (%s)' % (span_loc(t.span), fn_label(f), (bad or [''])[0][:100]))
        for b in f.live():
            for s in f.blocks[b][0]:
                if s.rv.kind == 'cast' and re.search(r'PointerExposeProvenance', s.rv.name or ''):
                    ck.require(False, rule3, fn_label(f), fn_label(f), '%s: %s turns an address into a number' % (span_loc(s.span), fn_label(f)))
        # hand written Hash/Ord implementations
        if getattr(f, 'impl', (None, None))[0] in ('Hash', 'Ord', 'PartialOrd') and '{closure' not in n:
            bad = [t for b, t in f.calls() if re.search(r'ptr|\*const|\*mut', t.callee)]
            ck.require(not bad, rule4, fn_label(f), fn_label(f), '%s compares or hashes addresses' % fn_label(f))
    ck.analysed('calls examined', ncalls)
    ck.floor(rule, 3)
    ck.floor(rule2, 12)
    return ck.finish(['FxHash tables iterate in an order that depends only on their keys and history of insertions',
                      'dependencies (syn, quote, petgraph, heck) are deterministic', 'rustfmt is deterministic'])
