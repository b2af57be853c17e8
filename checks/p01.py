"""P01 No failure is silent."""
import re
from core import Check
from mir import *
from mirbase import *
from errflow import ErrFlow, Uses, result_types, diverges_or_err
from inl import Prov

# Sites where an Err is an answer and not a failure.  One line of reason each.
# (callee pattern, enclosing function names or None, reason)
ANSWERS = [
    (r'std::fs::File::open$', ('update_file_if_necessary',), 'no previous file: falls through to File::create, whose error is reported'),
    (r'(^|::)find_path$|(^|::)find_conversion_path$', ('find_or_build_path', 'map_through_conversion_to_foreign'),
     'negative answer of a search that has a fallback'),
    (r'(^|::)find_or_build_path$', ('map_through_conversion_to_foreign',), 'negative answer: candidate is ranked last and a warning is printed'),
    (r'(^|::)var$', ('target_pointer_width_from_env',), 'absent environment variable; absence is checked by the caller'),
    (r'<ChildStdin as std::io::Write>::write_all$', ('rustfmt_cnt',), 'rustfmt may close its stdin early; its exit status decides'),
    (r'syn::parse2$', ('parse',), 'alternative grammar: the second alternative reports with ?'),
]


def from_fork(f, t):
    """speculative parse on a forked ParseStream"""
    p = Prov(f)
    for a in t.args[:1]:
        for r in p.of_op(a):
            if r[0] == 'call' and last_seg(r[1]) == 'fork':
                return True
    return False


def has_reported_alternative(f, t):
    """a parse whose failure leads to another parse of the same kind that is consumed with ?"""
    c = strip_generics(t.callee)
    n = 0
    U = Uses(f)
    for b, t2 in f.calls():
        if t2 is not t and strip_generics(t2.callee) == c:
            for u in U.of(t2.dest.base):
                if u[0] == 'arg' and last_seg(strip_generics(u[3].callee)) == 'branch':
                    n += 1
    return n > 0


def exempt(f, t):
    c = strip_generics(t.callee)
    for pat, owners, why in ANSWERS:
        if re.search(pat, c):
            if owned_by(f.name, lambda n: last_seg(n.split('#')[0]) in owners):
                if 'parse2' in pat and not has_reported_alternative(f, t):
                    continue
                return why
    if re.search(r'^ParseBuffer::(call|parse|peek)', c) and from_fork(f, t):
        return 'speculative parse on a fork of the input'
    return None


ERR_TY = re.compile(r'DiagnosticError|syn::Error\b')


def recorder_structs(c):
    """crate structs with a field that stores errors: name -> field indexes (diagnostic type itself excluded)"""
    out = {}
    for n, f in c.fns.items():
        for b in f.live():
            for s in f.blocks[b][0]:
                if s.rv.kind == 'agg' and s.rv.fields and s.rv.name and not s.rv.name.startswith('{'):
                    for k, o in enumerate(s.rv.ops):
                        ty = f.types.get(o.place.base, '') if o.place is not None else ''
                        if ERR_TY.search(ty) and re.search(r'(Option|Vec|Result)<', ty) and last_seg(strip_generics(s.rv.name)) != 'DiagnosticError':
                            out.setdefault(strip_generics(s.rv.name), set()).add((k, s.rv.fields[k]))
    return out


def run():
    ck = Check('P01', 'error discipline over the MIR of the generator crate: each Result-typed call result and each diagnostic value is '
               'followed to ?, return, panic, a failing branch or a place that is read back; discarding idioms are reported')
    c = crate()
    ck.analysed('functions of the crate', len(c.fns))
    ck.analysed('statements not understood by the MIR reader', len(unparsed()))
    e = ErrFlow(c, {})
    for n, f in sorted(c.fns.items()):
        before = len(e.findings)
        e.check_fn(f)
    ck.analysed('how results are consumed', e.by_how)
    rule = 'a fallible call\'s error is propagated, reported or panics'
    for i in range(e.sites):
        pass
    ck.obl[rule] = ['%d fallible calls' % e.sites] * 0
    for n, f in sorted(c.fns.items()):
        for b, t in f.calls():
            if not t.dest.proj and result_types(f.types.get(t.dest.base, '')):
                ck.ok(rule, '%s: %s' % (fn_label(f), strip_generics(t.callee)[-60:]))
    for f, what, span, why in e.findings:
        t = [t for b, t in f.calls() if t.span == span and strip_generics(t.callee) == what]
        reason = exempt(f, t[0]) if t else None
        if reason:
            ck.ok('error is an answer, not a failure (listed reason)', '%s: %s: %s' % (fn_label(f), what, reason))
            continue
        ck.violation('dropped', '%s|%s' % (fn_label(f), what), '%s: in %s the error of %s is lost: %s' % (span_loc(span), fn_label(f), what, why))
    ck.floor(rule, 1000)
    # constructed diagnostics
    rule2 = 'a constructed diagnostic value is used'
    for n, f in sorted(c.fns.items()):
        U = None
        for b, t in f.calls():
            if t.dest.proj or t.dest.base == 0:
                continue
            ty = f.types.get(t.dest.base, '')
            if not re.match(r'^(error::|crate::error::)?DiagnosticError$|^syn::Error$|^(std::io|io)::Error$', ty):
                continue
            U = U or Uses(f)
            ck.ok(rule2, '%s: %s' % (fn_label(f), last_seg(strip_generics(t.callee))))
            moved = False
            for u in U.of(t.dest.base):
                if u[0] == 'arg' and u[4].kind == 'move' and last_seg(strip_generics(u[3].callee)) != 'drop':
                    moved = True
                if u[0] == 'stmt' and (u[3].rv.kind in ('use', 'agg') and u[4].kind == 'move' or u[3].rv.kind in ('ref', 'refmut')):
                    moved = True
            if not moved:
                ck.violation('diag-dropped', fn_label(f), '%s: the diagnostic built by %s in %s is dropped' % (span_loc(t.span), strip_generics(t.callee), fn_label(f)))
            else:
                # Err(..) aggregates must not be dropped either
                pass
        for b in f.live():
            for s in f.blocks[b][0]:
                if s.rv.kind == 'agg' and re.search(r'Result::.*::Err$|Result::Err$', strip_generics(s.rv.name or '')) and s.place.base != 0 and not s.place.proj:
                    U = U or Uses(f)
                    rt = result_types(f.types.get(s.place.base, ''))
                    if rt is None:
                        continue
                    ck.ok(rule2, '%s: Err(..)' % fn_label(f))
                    why = e.consume(f, U, s.place.base, set(), None)
                    if why:
                        ck.violation('err-dropped', fn_label(f), '%s: an Err built in %s is lost: %s' % (span_loc(s.span), fn_label(f), why))
    ck.floor(rule2, 100)
    # recorded errors
    rs = recorder_structs(c)
    rule3 = 'an error recorded in a struct while visiting is read after the visit'
    for sname, fields in sorted(rs.items()):
        for n, f in sorted(c.fns.items()):
            for b in f.live():
                for s in f.blocks[b][0]:
                    if s.rv.kind == 'agg' and strip_generics(s.rv.name or '') == sname and s.rv.fields:
                        for k, fname in sorted(fields):
                            ck.ok(rule3, '%s.%s in %s' % (sname, fname, fn_label(f)))
                            if not read_back(c, f, b, s, k):
                                ck.violation('recorded', '%s.%s|%s' % (sname, fname, fn_label(f)),
                                             '%s: %s records errors in %s.%s, but a path of %s returns without reading it' % (span_loc(s.span), sname, sname, fname, fn_label(f)))
    ck.floor(rule3, 1)
    # recorded in an Option/Vec local captured by a closure
    rule4 = 'an error recorded in a captured local is read afterwards'
    for n, f in sorted(c.fns.items()):
        for l, ty in sorted(f.types.items()):
            if l in f.params or l == 0 or not re.match(r'^std::(option::Option|vec::Vec|result::Result)<', ty) or not ERR_TY.search(ty) or l not in f.debug:
                continue
            U = Uses(f)
            mutb = any(u[0] == 'stmt' and u[3].rv.kind == 'refmut' for u in U.of(l))
            if not mutb:
                continue
            ck.ok(rule4, '%s in %s' % (f.debug[l], fn_label(f)))
            reads = [u for u in U.of(l) if (u[0] == 'stmt' and u[3].rv.kind in ('discr', 'use', 'ref', 'agg')) or u[0] == 'arg']
            if not reads:
                ck.violation('captured', '%s|%s' % (f.debug[l], fn_label(f)), 'errors recorded in local %s of %s are never read' % (f.debug[l], fn_label(f)))
    # the entry points end in a panic on error
    rule5 = 'an error of the whole run ends in a panic that reports it'
    for n, f in sorted(c.fns.items()):
        if last_seg(n) in ('panic_on_parse_error', 'panic_on_syn_error'):
            ck.require(not any(f.blocks[b][1].kind == 'return' for b in f.live()), rule5, fn_label(f), last_seg(n), '%s can return' % fn_label(f))
    for n, f in sorted(c.fns.items()):
        if f.impl[1] == 'Generator' and last_seg(n) in ('expand', 'expand_many') if hasattr(f, 'impl') else False:
            for b, t in f.calls():
                if last_seg(strip_generics(t.callee)) == 'expand_str':
                    ck.ok(rule5, fn_label(f))
    ck.floor(rule5, 4)
    return ck.finish(['MIR printed by the nightly compiler describes the program built by the stable compiler',
                      'calls through values of function type return what their type says'])


def read_back(c, f, b0, s0, k):
    """every path from the creation of the recorder to a return that is not an Err passes a read of field k"""
    L = {s0.place.base}
    refs = set()
    # aliases by whole move
    changed = True
    while changed:
        changed = False
        for b in f.live():
            for s in f.blocks[b][0]:
                if s.rv.kind == 'use' and s.rv.ops and s.rv.ops[0].place is not None and not s.rv.ops[0].place.proj and s.rv.ops[0].place.base in L and not s.place.proj and s.place.base not in L:
                    L.add(s.place.base)
                    changed = True
                if s.rv.kind in ('ref', 'refmut') and s.rv.ops[0].place is not None and not s.rv.ops[0].place.proj and (s.rv.ops[0].place.base in L) and s.place.base not in refs:
                    refs.add(s.place.base)
                    changed = True

    def is_read(op):
        p = op.place
        if p is None or p.base not in (L | refs):
            return False
        fs = [x for x in p.proj if x[0] == 'field']
        return bool(fs) and fs[0][1] == k

    def handed_over(t):
        # moved whole, or lent to an inherent method / function of the crate that reads the field
        for a in t.args:
            if a.place is not None and not a.place.proj and a.place.base in L and a.kind == 'move':
                return True
            if a.place is not None and not a.place.proj and a.place.base in refs:
                g = c.resolve(t.callee)
                if g is not None and g.impl[0] is None:
                    i = t.args.index(a)
                    if i < len(g.params):
                        for b in g.live():
                            for s in g.blocks[b][0]:
                                for o in s.rv.ops:
                                    if o.place is not None and o.place.base == g.params[i] and any(x[0] == 'field' and x[1] == k for x in o.place.proj):
                                        return True
        return False

    seen = set()
    st = [(b0, True)]
    while st:
        b, first = st.pop()
        if (b) in seen:
            continue
        seen.add(b)
        ss, t = f.blocks[b]
        done = False
        started = not first
        for s in ss:
            if s is s0:
                started = True
                continue
            if not started:
                continue
            if any(is_read(o) for o in s.rv.ops):
                done = True
            if s.place.base == 0 and not s.place.proj and s.rv.kind == 'agg' and re.search(r'::Err$', strip_generics(s.rv.name or '')):
                done = True
        if t.kind == 'call':
            if any(is_read(o) for o in t.args) or handed_over(t):
                done = True
            if t.dest.base == 0 and 'from_residual' in t.callee:
                done = True
        if t.kind == 'switch' and is_read(t.op):
            done = True
        if done:
            continue
        if t.kind == 'return':
            return False
        for x in t.succ():
            st.append((x, False))
    return True
