"""foreign_typemap! blocks of the built-in type maps, as data."""
import re
from rast import toks_text, walk


def split(ts, sep=';'):
    out, cur = [], []
    for t in ts:
        if t[0] == 'p' and t[1] == sep:
            out.append(cur)
            cur = []
        else:
            cur.append(t)
    if cur:
        out.append(cur)
    return out


def is_mac(ts, i, name=None):
    return i + 2 < len(ts) + 0 and ts[i][0] == 'i' and i + 1 < len(ts) and ts[i + 1][0] == 'p' and ts[i + 1][1] == '!' \
        and i + 2 < len(ts) and ts[i + 2][0] == 'g' and (name is None or ts[i][1] == name)


class Rule:
    """one `(..:r_type) A => B {..}` or `(..:f_type) => "T" "code"` part"""
    def __repr__(self):
        return 'Rule(%s)' % self.__dict__


def kv(ts):
    """`a = x, b = y` of a token list -> (rest, {a: tokens})"""
    d, rest = {}, []
    for part in split(ts, ','):
        if len(part) >= 3 and part[0][0] == 'i' and part[1][0] == 'p' and part[1][1] == '=':
            d[part[0][1]] = part[2:]
        else:
            rest.append(part)
    return rest, d


def opt_text(ts):
    """option expression as text: "A" or ("A", "B") or !"A" """
    return [t[1] for t in flat(ts) if t[0] == 's'], toks_text(ts)


def flat(ts):
    for t in ts:
        if t[0] == 'g':
            yield from flat(t[3])
        else:
            yield t


def subst(ts, f):
    """rewrite tokens: f(list, i) -> (replacement tokens, consumed) or None"""
    out = []
    i = 0
    while i < len(ts):
        r = f(ts, i)
        if r:
            out += r[0]
            i += r[1]
            continue
        t = ts[i]
        if t[0] == 'g':
            out.append(['g', t[1], t[2], subst(t[3], f)])
        else:
            out.append(t)
        i += 1
    return out


class Block:
    def __init__(self, ts, line):
        self.line = line
        self.aliases = {}       # name -> tokens
        self.ctypes = []        # dict(module, option, toks)
        self.code = []          # dict(module, option, text, line)
        self.rules = []
        self.other = []
        for part in split(ts):
            if not part:
                continue
            self.one(part)

    def one(self, part):
        if is_mac(part, 0, 'generic_alias'):
            g = part[2][3]
            self.aliases[g[0][1]] = g[2:]
            return
        if is_mac(part, 0, 'define_c_type') or is_mac(part, 0, 'foreign_code'):
            d = dict(module=None, option=None, line=part[0][2])
            body = []
            pp = split(part[2][3])
            hdr = True
            for q in pp:
                if hdr and len(q) >= 3 and q[0][0] == 'i' and q[0][1] in ('module', 'option') and q[1][1] == '=':
                    d[q[0][1]] = q[2][1] if q[2][0] == 's' and len(q) == 3 else opt_text(q[2:])
                    if q[0][1] == 'option' and isinstance(d['option'], str):
                        d['option'] = ([d['option']], d['option'])
                else:
                    hdr = False
                    body.append(q)
            if part[0][1] == 'foreign_code':
                d['text'] = body[0][0][1] if body else ''
                self.code.append(d)
            else:
                toks = []
                for n, q in enumerate(body):
                    if n:
                        toks.append(['p', ';', 0, False])
                    toks += q
                if pp and part[2][3] and part[2][3][-1][0] == 'p' and part[2][3][-1][1] == ';':
                    toks.append(['p', ';', 0, False])
                d['toks'] = toks
                self.ctypes.append(d)
            return
        if part[0][0] == 'g' and part[0][1] == '(':
            r = Rule()
            r.line = part[0][2]
            head = part[0][3]
            first, attrs = kv(head)
            h = first[0]
            r.var = None
            if h and h[0][0] == 'p' and h[0][1] == '$':
                r.var = h[1][1]
                h = h[3:]
            r.kind = h[0][1]
            r.attrs = attrs
            r.option = opt_text(attrs['option']) if 'option' in attrs else None
            rest = part[1:]
            # direction
            r.dir = None
            k = None
            for n in range(len(rest) - 1):
                if rest[n][0] == 'p' and rest[n + 1][0] == 'p' and (rest[n][1] + rest[n + 1][1]) in ('=>', '<=') and rest[n][3] and not (rest[n][1] + rest[n + 1][1] == '=>' and n and rest[n - 1][1] == '<'):
                    r.dir = rest[n][1] + rest[n + 1][1]
                    k = n
                    break
            if r.kind == 'r_type':
                left = rest[:k] if k is not None else rest
                right = rest[k + 2:] if k is not None else []
                r.generics, left = self.generics(left)
                r.code = None
                if right and right[-1][0] == 'g' and right[-1][1] == '{':
                    r.code = right[-1][3]
                    right = right[:-1]
                r.left, r.right = left, right
            else:
                right = rest[k + 2:] if k is not None else rest
                ss = [t[1] for t in right if t[0] == 's']
                r.left, r.right, r.generics = [], right, []
                r.ftype = ss[0] if ss else None
                r.code = ss[1] if len(ss) > 1 else None
            self.rules.append(r)
            return
        self.other.append(part)

    @staticmethod
    def generics(ts):
        if ts and ts[0][0] == 'p' and ts[0][1] == '<':
            d = 0
            for n, t in enumerate(ts):
                if t[0] == 'p' and t[1] == '<':
                    d += 1
                elif t[0] == 'p' and t[1] == '>' and not (n and ts[n - 1][0] == 'p' and ts[n - 1][1] == '-'):
                    d -= 1
                    if d == 0:
                        return ts[1:n], ts[n + 1:]
        return [], ts


def blocks(items):
    out = []
    for it in items:
        if it['k'] == 'MacroItem' and it['m']['name'] == 'foreign_typemap':
            out.append(Block(it['m']['toks'], it['l']))
    return out


def module_text(bls, module, options):
    """text the generator writes into C++ module `module` under a set of chosen options"""
    out = []
    for b in bls:
        for c in b.code:
            if c['module'] == module:
                if c['option'] is None or eval_opt(c['option'], options):
                    out.append(c['text'])
    return '\n'.join(out)


def eval_opt(o, options):
    names, text = o
    # `!"A"` negates, ("A", "B") is a conjunction
    r = True
    for m in re.finditer(r'(!?)\s*"?([\w:]+)"?', text):
        if m.group(2) in names:
            r = r and ((m.group(2) in options) != bool(m.group(1)))
    return r
