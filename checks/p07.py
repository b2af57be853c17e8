"""P07 a diagnostic points into the source it was found in: source ids and tokens that are paired have one owner."""
import os, re
import core
from core import Check
from mir import *
from mirbase import *
from paths import must_pass
from inl import Inliner, Prov, PASS_THROUGH

TOKENS = re.compile(r'(\bsyn::|proc_macro2::|\bSpan\b|\bIdent\b|SpannedSmolStr|FTypeName)')
# functions that return (a part of) what they are called on
ACC = PASS_THROUGH | {'span', 'src_id_span', 'src_id', 'full_span', 'next', 'ok_or_else', 'ok_or', 'and_then', 'map', 'first', 'last', 'get', 'cloned', 'copied', 'enumerate', 'zip', 'skip',
                      'as_named_arg', 'remove', 'pop', 'take', 'find', 'find_map', 'filter', 'rev', 'chain', 'peekable', 'values', 'keys', 'drain', 'to_token_stream', 'unwrap_or', 'or', 'or_else',
                      'filter_map', 'swap_remove', 'self_type_as_ty', 'to_type_without_lifetimes', 'unwrap_or_default', 'get_ident', 'stmts', 'split_first', 'last_mut', 'first_mut', 'get_mut'}
PARSE = re.compile(r'(parse2|parse_str|parse_file|parse2_str)$')


def carriers():
    """struct name -> fields, for structs that hold a source id; and all struct field lists"""
    r = {}
    for d, _, fs in os.walk(os.path.join(core.REPO, 'macroslib/src')):
        for fn in fs:
            if fn.endswith('.rs') and 'include' not in fn:
                t = open(os.path.join(d, fn), encoding='utf-8').read()
                t = re.sub(r'//[^\n]*', '', t)
                for m in re.finditer(r'\bstruct\s+(\w+)[^{;(]*\{([^{}]*)\}', t):
                    if re.search(r':\s*(SourceIdSpan|SourceId|\(\s*SourceId\s*,\s*Span\s*\))\s*(,|$)', m.group(2).strip() + ','):
                        r[m.group(1)] = m.group(2)
    return r


def head(ty):
    ty = ty or ''
    for _ in range(6):
        ty = ty.strip()
        ty = re.sub(r"^&('\w+ )?(mut )?", '', ty)
        m = re.match(r'^(std::rc::|std::sync::|std::boxed::|std::option::)?(Rc|Arc|Box|Option)<(.*)>$', ty)
        if m:
            ty = m.group(3)
            continue
        break
    return last_seg(strip_generics(ty)).split('<')[0].strip()


class Tracer:
    def __init__(self, g, C):
        self.g, self.C = g, C
        self.P = Prov(g, ACC)
        # mem::swap(a, b), mem::take(a), mem::replace(a, b): what a holds may be what b held
        self.swapped = {}
        for b, (ss, t) in g.blocks.items():
            if t.kind == 'call' and re.search(r'mem::swap$', strip_generics(t.callee)) and len(t.args) == 2:
                for x, y in ((0, 1), (1, 0)):
                    p = self.target(t.args[x])
                    if p is not None and not any(q[0] == 'field' for q in p.proj):
                        self.swapped.setdefault(p.base, []).append(t.args[y])

    def target(self, op):
        """the place a reference operand points to"""
        pl = op.place
        for _ in range(10):
            if pl is None:
                return None
            ds = self.P.def_map.get(pl.base, [])
            if len(ds) != 1 or ds[0][0] != 's':
                return pl
            rv = ds[0][2].rv
            if rv.kind in ('ref', 'refmut'):
                q = rv.ops[0].place
                if any(x[0] == 'deref' for x in q.proj):
                    pl = Place(q.base, tuple(x for x in q.proj if x[0] != 'deref'))
                    continue
                return q
            if rv.kind in ('use', 'cast'):
                pl = rv.ops[0].place
                continue
            return pl
        return pl

    def owner_of_place(self, pl):
        """innermost prefix of the place that is a value holding its own source id"""
        fields = [(i, p) for i, p in enumerate(pl.proj) if p[0] == 'field']
        for i, p in reversed(fields):
            if i == len(pl.proj) - 1 or True:
                if head(p[2]) in self.C:
                    return Place(pl.base, pl.proj[:i + 1])
        if head(self.g.types.get(pl.base, '')) in self.C:
            return Place(pl.base)
        return None

    def trace(self, op, seen=frozenset(), depth=0):
        """set of ('own', key) / ('param', local) / ('none',) / ('fresh', what)"""
        if op.place is None:
            return {('fresh', 'const')}
        pl = op.place
        o = self.owner_of_place(pl)
        if o is not None:
            ks = self.P.of_place(o)
            if ks and all(k[0] == 'call' and re.match(r'(parse\d?|parse_str|call|parse_terminated|parse_quote)$', last_seg(k[1])) for k in ks):
                # freshly parsed: it belongs to the text it was parsed from
                key = ('fresh', o.base)
                if key in seen:
                    return {('fresh', 'parsed here')}
                seen = seen | {key}
                return self.calls_of(o, seen, depth + 1) or {('fresh', 'parsed here')}
            # a carrying object that is itself derived from a parameter or a call
            return {('own', frozenset(ks), self.tyname(o))}
        key = (pl.base, tuple(p[1] for p in pl.proj if p[0] == 'field'))
        if key in seen or depth > 50:
            return set()
        seen = seen | {key}
        if pl.base in self.g.params:
            return {('param', pl.base)}
        out = set()
        ds = list(self.P.def_map.get(pl.base, []))
        fields = key[1]
        if fields:
            for p2, d in self.P.partial.get(pl.base, []):
                f2 = tuple(x[1] for x in p2.proj if x[0] == 'field')
                if f2 == fields[:len(f2)] or fields == f2[:len(fields)]:
                    ds.append(d)
        else:
            ds += [d for _, d in self.P.partial.get(pl.base, [])]
        for q in self.swapped.get(pl.base, []):
            out |= self.trace(q, seen, depth + 1)
        for kind, b, x in ds:
            if kind == 's':
                rv = x.rv
                if rv.kind in ('use', 'ref', 'refmut', 'cast', 'rawptr'):
                    for q in rv.ops:
                        if q.place is None:
                            out.add(('fresh', 'const'))
                        else:
                            out |= self.trace(Op(q.kind, Place(q.place.base, q.place.proj + tuple(p for p in pl.proj if p[0] == 'field'))), seen, depth + 1)
                elif rv.kind == 'agg':
                    ops = rv.ops
                    if fields and fields[0] < len(ops) and rv.name not in ('[array]',):
                        q = ops[fields[0]]
                        rest = tuple(p for p in pl.proj if p[0] == 'field')[1:]
                        if q.place is None:
                            out.add(('fresh', 'const'))
                        else:
                            out |= self.trace(Op(q.kind, Place(q.place.base, q.place.proj + rest)), seen, depth + 1)
                    else:
                        for q in ops:
                            if q.place is not None:
                                out |= self.trace(q, seen, depth + 1)
                else:
                    out.add(('fresh', rv.kind))
            else:
                nm = last_seg(strip_generics(x.callee))
                if nm == 'none' and 'SourceId' in x.callee:
                    out.add(('none',))
                elif nm == 'invalid_src_id_span':
                    out.add(('none',))
                elif nm == 'src' and len(x.args) == 2:
                    out.add(('text', self.root(x.args[1])))
                elif (nm in ACC or PARSE.match(nm)) and x.args:
                    out |= self.trace(x.args[0], seen, depth + 1)
                else:
                    out.add(('fresh', nm))
        return out

    def calls_of(self, pl, seen, depth):
        """what the value at pl was parsed from: follows moves to the calls that made it"""
        out, todo, done = set(), [pl.base], set()
        while todo:
            l = todo.pop()
            if l in done:
                continue
            done.add(l)
            for kind, b, x in list(self.P.def_map.get(l, [])) + [d for _, d in self.P.partial.get(l, [])]:
                if kind == 's':
                    todo += [o.place.base for o in x.rv.ops if o.place is not None]
                else:
                    nm = last_seg(strip_generics(x.callee))
                    if PARSE.match(nm) and x.args:
                        out |= self.trace(x.args[0], seen, depth + 1)
                    elif nm in ACC and x.args and x.args[0].place is not None:
                        todo.append(x.args[0].place.base)
                    elif nm in ('branch', 'map_err', 'from_output', 'from_residual', 'ok', 'unwrap', 'expect') and x.args and x.args[0].place is not None:
                        todo.append(x.args[0].place.base)
                    else:
                        out.add(('fresh', nm))
        return out

    def root(self, op):
        """canonical place of an id: copies, references and dereferences undone"""
        if op.place is None:
            return ('const', op.const)
        l, pr = op.place.base, tuple(p[:2] for p in op.place.proj if p[0] != 'deref')
        for _ in range(40):
            ds = self.P.def_map.get(l, [])
            if len(ds) != 1 or l in self.g.params:
                break
            kind, b, x = ds[0]
            if kind == 's' and x.rv.kind in ('use', 'ref', 'refmut', 'cast') and len(x.rv.ops) == 1 and x.rv.ops[0].place is not None:
                q = x.rv.ops[0].place
                l, pr = q.base, tuple(p[:2] for p in q.proj if p[0] != 'deref') + pr
            elif kind == 's' and x.rv.kind == 'agg' and pr and pr[0][0] == 'field' and pr[0][1] < len(x.rv.ops) and x.rv.ops[pr[0][1]].place is not None:
                q = x.rv.ops[pr[0][1]].place
                l, pr = q.base, tuple(p[:2] for p in q.proj if p[0] != 'deref') + pr[1:]
            elif kind != 's' and last_seg(strip_generics(x.callee)) in ('clone', 'deref', 'borrow') and x.args and x.args[0].place is not None:
                q = x.args[0].place
                l, pr = q.base, tuple(p[:2] for p in q.proj if p[0] != 'deref') + pr
            else:
                break
        return (l, pr)

    def tyname(self, o):
        for p in reversed(o.proj):
            if p[0] == 'field':
                return head(p[2])
        return head(self.g.types.get(o.base, ''))


def conflict(tid, ttok, root=None):
    """None if compatible, otherwise text; and pairs of params to hand up"""
    up = set()
    for a in tid:
        for b in ttok:
            if b[0] == 'fresh' or a[0] == 'fresh':
                continue
            if b[0] == 'none':
                continue
            if b[0] == 'text':
                if a[0] == 'own' or a[0] == 'none':
                    return 'source id of something else with tokens parsed from a text of the registry', up
                if b[1] != root:
                    return 'the tokens were parsed from the text of another source id', up
                continue
            if b[0] == 'own':
                bk = b[1]
                if a[0] == 'own':
                    if not related(a[1], bk):
                        pa, pb = par(a[1]), par(bk)
                        if pa is not None and pb is not None and pa != pb:
                            up.add((pa, pb))
                        else:
                            return 'source id of %s with tokens of %s' % (a[2], b[2]), up
                elif a[0] == 'param':
                    pb = par(bk)
                    if pb is not None:
                        if pb != a[1]:
                            up.add((a[1], pb))
                    else:
                        return 'source id of a parameter with tokens of %s' % b[2], up
                elif a[0] == 'none':
                    return 'no source id with tokens of %s' % b[2], up
            elif b[0] == 'param':
                if a[0] == 'param':
                    if a[1] != b[1]:
                        up.add((a[1], b[1]))
                elif a[0] == 'own':
                    pa = par(a[1])
                    if pa is not None and pa != b[1]:
                        up.add((pa, b[1]))
                elif a[0] == 'none':
                    up.add(('none', b[1]))
    return None, up


def par(ks):
    ps = {k[1] for k in ks if k[0] == 'param'}
    return list(ps)[0] if len(ps) == 1 and all(k[0] == 'param' for k in ks) else None


def related(a, b):
    for x in a:
        for y in b:
            if x == y:
                return True
            if x[0] == y[0] == 'param' and x[1] == y[1]:
                # parts of one parameter: same, or one inside the other
                n = min(len(x[2]), len(y[2]))
                if x[2][:n] == y[2][:n]:
                    return True
            if x[0] == y[0] == 'call' and x[1] == y[1] and x[2] == y[2]:
                n = min(len(x[3]), len(y[3]))
                if x[3][:n] == y[3][:n]:
                    return True
            if x[0] not in ('param', 'call') or y[0] not in ('param', 'call'):
                return True
    return not a or not b


def opty(g, o):
    if o.place is None:
        return o.const or ''
    for p in reversed(o.place.proj):
        if p[0] == 'field':
            return p[2]
    return g.types.get(o.place.base, '')


def run():
    ck = Check('P07', 'ownership (provenance) analysis over MIR: wherever a source identity is paired with a span or tokens, both derive from one declaration; '
               'parameters that are paired in a function are checked at every call, to a fixpoint')
    c = crate()
    C = carriers()
    ck.analysed('functions of the crate', len(c.fns))
    ck.analysed('types that carry a source identity', len(C))
    ck.require(len(C) >= 6, 'types with a source identity', ', '.join(sorted(C)), 'carriers', 'types that carry a source identity were not recognised')
    gs = {}
    for n, f in sorted(c.fns.items()):
        if '{closure' in n or not f.params and False:
            continue
        if not has_pairs(c, f, C):
            continue
        gs[n] = Inliner(c, allow=lambda k, t: '{closure' in k.name, ext_closures=True, max_blocks=9000).inline(f)
    ck.analysed('functions with paired identities', len(gs))
    summary = {}
    viol = {}
    inst = set()
    tr = {n: Tracer(g, C) for n, g in gs.items()}
    changed = True
    rounds = 0
    while changed and rounds < 12:
        changed = False
        rounds += 1
        for n, g in gs.items():
            T = tr[n]
            for a, b, what, span in pairs(c, g, T, summary, C):
                ta = {('none',)} if a == 'none' else T.trace(a)
                tb = T.trace(b)
                msg, up = conflict(ta, tb, None if a == 'none' else T.root(a))
                inst.add((fn_label(c.fns[n]), what, span_loc(span)))
                if msg:
                    viol[(fn_label(c.fns[n]), what, msg)] = span
                for i, j in up:
                    ii = i if i == 'none' else g.params.index(i)
                    jj = g.params.index(j)
                    # tokens of a parameter that carries its own id, paired with an id parameter, or plain tokens
                    if (ii, jj) not in summary.setdefault(n, set()):
                        summary[n].add((ii, jj))
                        changed = True
    rule = 'a source identity is paired only with tokens of its own declaration'
    for a, b, s in sorted(inst):
        ck.ok(rule, '%s: %s at %s' % (a, b, s))
    for (fnl, what, msg), span in sorted(viol.items()):
        ck.violation(rule, '%s|%s' % (fnl, what), '%s: %s: %s: %s' % (span_loc(span), fnl, what, msg))
    ck.floor(rule, 150)
    parsed_get_id(ck, c, C)
    ck.analysed('pairs handed up to callers', sum(len(v) for v in summary.values()))
    return ck.finish(['spans of proc_macro2 tokens are those of the text they were parsed from', 'freshly parsed or quoted tokens belong to the source they are parsed for'])


IDTY = re.compile(r'^(source_registry::)?SourceId$')


def sets_id(s):
    return s.rv.kind == 'use' and s.place.proj and s.place.proj[-1][0] == 'field' and IDTY.match((s.place.proj[-1][2] or '').strip())


def parsed_get_id(ck, c, C):
    """what syn parsed carries no source id: on every path it is given one, in all its parts"""
    src = ''
    for d, _, fs in os.walk(os.path.join(core.REPO, 'macroslib/src')):
        for fn in fs:
            if fn.endswith('.rs') and 'include' not in fn:
                src += re.sub(r'//[^\n]*', '', open(os.path.join(d, fn), encoding='utf-8').read())
    wrappers = {m.group(1) for m in re.finditer(r'struct\s+(\w+)\s*\(\s*(?:pub[^ ]* )?(\w+)\s*,?\s*\)\s*;', src) if m.group(2) in C}
    setters = set()
    changed = True

    def event(b, i, x):
        if i != 'term':
            return bool(sets_id(x))
        if x.kind == 'call':
            k = c.resolve(x.callee)
            return k is not None and k.name in setters
        return False
    cand = {n: f for n, f in c.fns.items() if '{closure' not in n and any(IDTY.match(f.types.get(p, '').strip()) for p in f.params) and f.live()}
    while changed:
        changed = False
        for n, f in cand.items():
            if n not in setters and 0 in f.blocks and must_pass(f, 0, event) is None:
                # diverging or failing functions pass vacuously: a setter has an event
                if any(event(b, i, x) for b in f.live() for i, x in list(enumerate(f.blocks[b][0])) + [('term', f.blocks[b][1])]):
                    setters.add(n)
                    changed = True
    rule = 'a parsed declaration is given the id of its source'
    for n, f in sorted(c.fns.items()):
        if '{closure' in n:
            continue
        for b in f.live():
            ss, t = f.blocks[b]
            if t.kind != 'call' or not PARSE.match(last_seg(strip_generics(t.callee))) or t.dest is None:
                continue
            m = re.search(r'Result<(.*), syn::Error>|Result<(.*), syn::error::Error>', f.types.get(t.dest.base, ''))
            ty = head((m.group(1) or m.group(2)) if m else f.types.get(t.dest.base, ''))
            if ty not in C and ty not in wrappers:
                continue
            bad = must_pass(f, b, event, 'term')
            ck.require(bad is None, rule, '%s: %s' % (fn_label(f), ty), '%s|%s' % (fn_label(f), ty),
                       '%s: %s: the parsed %s reaches the caller without the id of its source' % (span_loc(t.span), fn_label(f), ty))
    ck.floor(rule, 7)
    # every part of a declaration that holds an id of its own
    deep = {}

    def holds(ty, seen=()):
        if re.search(r'\bSourceId(Span)?\b', ty):
            return True
        for w in re.findall(r'\b[A-Z]\w+', ty):
            if w in seen or w in ('Rc', 'ForeignType', 'RustType', 'RustTypeIdx'):
                continue
            if w not in deep:
                m = re.search(r'struct\s+%s\b[^{;(]*\{([^{}]*)\}' % w, src)
                deep[w] = m.group(1) if m else ''
            if deep[w] and holds(deep[w], seen + (w,)):
                return True
        return False
    rule = 'every part of a parsed declaration is given the id'
    for n in sorted(setters):
        f = c.fns[n]
        if not f.params or head(f.types[f.params[0]]) not in C or '&mut' not in f.types[f.params[0]]:
            continue
        ty = head(f.types[f.params[0]])
        g = Inliner(c, allow=lambda k, t: True, ext_closures=True).inline(f)
        P = Prov(g, ACC)
        done = set()
        for b in g.blocks:
            for s in g.blocks[b][0]:
                if sets_id(s):
                    for k in P.of_place(s.place):
                        if k[0] == 'param' and k[1] == f.params[0] and k[2]:
                            done.add(k[2][0])
        for i, fl in enumerate(x for x in re.split(r',\s*(?![^<(]*[>)])', C[ty]) if ':' in x):
            nm, fty = [x.strip() for x in fl.split(':', 1)]
            nm = nm.split()[-1]
            if holds(fty):
                ck.require(i in done, rule, '%s.%s in %s' % (ty, nm, fn_label(f)), '%s.%s' % (ty, nm),
                           '%s:%s: %s does not give the source id to `%s`' % (f.file, f.line, fn_label(f), nm))
    ck.floor(rule, 5)


def has_pairs(c, f, C):
    for n in [f.name] + [k for k in c.fns if root_fn(k) == f.name]:
        for b in c.fns[n].live():
            ss, t = c.fns[n].blocks[b]
            if t.kind == 'call' and ('SourceId' in t.text or any('SourceId' in c.fns[n].types.get(a.place.base, '') or head(c.fns[n].types.get(a.place.base, '')) in C for a in t.args if a.place is not None)):
                return True
            for s in ss:
                if s.place.proj and s.place.proj[-1][0] == 'field' and 'SourceId' in (s.place.proj[-1][2] or '') or s.rv.kind == 'agg' and any('SourceId' in opty(c.fns[n], o) for o in s.rv.ops):
                    return True
    return False


def pairs(c, g, T, summary, C):
    for b in sorted(g.reachable(0)):
        ss, t = g.blocks[b]
        for s in ss:
            if s.rv.kind == 'use' and s.place.proj and s.place.proj[-1][0] == 'field' and re.search(r'^(source_registry::)?SourceId$', (s.place.proj[-1][2] or '').strip()):
                yield s.rv.ops[0], Op('copy', Place(s.place.base, s.place.proj[:-1])), 'source id set', s.span
            if s.rv.kind != 'agg' or not s.rv.ops:
                continue
            nm = s.rv.name or ''
            ids = [o for o in s.rv.ops if re.search(r'^(source_registry::)?SourceId$', opty(g, o).strip())]
            if not ids:
                continue
            if nm == '(tuple)' and len(s.rv.ops) == 2 and re.search(r'\bSpan$', opty(g, s.rv.ops[1])):
                yield ids[0], s.rv.ops[1], 'position', s.span
            elif last_seg(strip_generics(nm)) in C:
                for o in s.rv.ops:
                    if o is not ids[0] and o.place is not None and TOKENS.search(opty(g, o)) and 'SourceId' not in opty(g, o):
                        yield ids[0], o, 'new ' + last_seg(strip_generics(nm)), s.span
        if t.kind == 'call':
            cc = strip_generics(t.callee)
            if cc.endswith('DiagnosticError::new'):
                yield t.args[0], t.args[1], 'DiagnosticError::new', t.span
            elif cc.endswith('DiagnosticError::from_syn_err'):
                yield t.args[0], t.args[1], 'DiagnosticError::from_syn_err', t.span
            else:
                k = c.resolve(t.callee)
                if k is not None and k.name in summary and len(k.params) == len(t.args):
                    for i, j in sorted(summary[k.name], key=str):
                        yield ('none' if i == 'none' else t.args[i]), t.args[j], 'call of ' + last_seg(root_fn(k.name)), t.span
