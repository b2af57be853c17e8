"""Shapes of declarations, to render templates of tmpl.py: values for the keys of conditions, holes and repetitions."""
import re, functools


def split_args(s):
    return list(_split_args(s))


@functools.lru_cache(maxsize=100000)
def _split_args(s):
    out, d, cur, q = [], 0, '', False
    i = 0
    while i < len(s):
        ch = s[i]
        if q:
            cur += ch
            if ch == '\\':
                i += 1
                cur += s[i:i + 1]
            elif ch == '"':
                q = False
        elif ch == '"':
            q = True
            cur += ch
        elif ch in '([':
            d += 1
            cur += ch
        elif ch in ')]':
            d -= 1
            cur += ch
        elif ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
        i += 1
    if cur.strip():
        out.append(cur.strip())
    return out


@functools.lru_cache(maxsize=100000)
def call(k):
    """(name, inner) if k is one call name(...) to the end"""
    m = re.match(r'^([A-Za-z_]\w*)\(', k)
    if not m or not k.endswith(')'):
        return None
    d, q = 0, False
    for i in range(m.end() - 1, len(k)):
        ch = k[i]
        if q:
            if ch == '"' and k[i - 1] != '\\':
                q = False
            continue
        if ch == '"':
            q = True
        elif ch in '([':
            d += 1
        elif ch in ')]':
            d -= 1
            if d == 0:
                return (m.group(1), k[m.end():-1]) if i == len(k) - 1 else None
    return None


def binop(k):
    """(left, operator, right) of an operation written with blanks around its operator, outside of all brackets"""
    d = 0
    for m in re.finditer(r'"(?:[^"\\\\]|\\\\.)*"|[\[\](){}]| (==|!=|<=|>=|<|>|\+|-|\*|/|%) ', k):
        if m.group(0) in '([{':
            d += 1
        elif m.group(0) in ')]}':
            d -= 1
        elif m.group(1) and d == 0:
            return k[:m.start()], m.group(1), k[m.end():]
    return None


class Model:
    """values: exact keys or regular expressions (compiled, matched in full) -> str | bool | int | list of tags (collection)
    | ('variant', name);  a function gets the match object"""

    def __init__(self, values=None, rules=(), hole=None):
        self.values = dict(values or {})
        self.rules = [(re.compile(r), v) for r, v in rules]
        self.hole_default = hole
        self.unknown_holes = {}
        self.unknown_items = set()
        self.seen = set()

    def look(self, k):
        if k in self.values:
            return self.values[k]
        for r, v in self.rules:
            m = r.fullmatch(k)
            if m:
                return v(m) if callable(v) else v
        m = re.search(r'(?<=\w)\[index\((\w[\w.]*)\)\[(\w+)\]\]', k)
        if m and m.group(2) in (self.tags(m.group(1)) or ()):
            # an element taken by the place of the corresponding one of another list
            n, t = self.tags(m.group(1)), self.tags(re.search(r'[\w.]+$', k[:m.start()]).group(0))
            if t is not None and n.index(m.group(2)) < len(t):
                return self.look(k[:m.start()] + '[%s]' % t[n.index(m.group(2))] + k[m.end():])
        return None

    def members(self, k):
        """elements of a list written as [item, when(c,[..],[..]), each(base,depth,[..])]"""
        out = []
        if re.fullmatch(r'(?:default|new|with_capacity\w*)\(.*\)', k):
            return out
        c = call(k)
        if c and c[0] == 'if':
            a = split_args(c[1])
            v = self.val(a[0]) if len(a) == 3 else None
            return None if v is None else self.members(a[1] if v else a[2])
        if not (k.startswith('[') and k.endswith(']')):
            return None
        for x in split_args(k[1:-1]):
            c = call(x)
            if x == '..':
                return None
            if c and c[0] == 'when':
                a = split_args(c[1])
                v = self.val(a[0]) if len(a) == 3 else None
                if v is None:
                    return None
                l = self.members(a[1] if v else a[2])
                if l is None:
                    return None
                out += l
            elif c and c[0] == 'each':
                a = split_args(c[1])
                t = self.tags(a[0]) if len(a) == 3 and a[1].isdigit() else None
                if t is None:
                    return None
                for tag in t:
                    l = self.members(re.sub(r'\[\*{%d}\]' % (int(a[1]) + 1), '[%s]' % tag, a[2]))
                    if l is None:
                        return None
                    out += l
            else:
                out.append(x)
        return out

    def tags(self, base):
        if base.startswith('[') and base.endswith(']') and self.look(base) is None:
            return self.members(base)
        v = self.look(base)
        if isinstance(v, (list, tuple)) and not (isinstance(v, tuple) and v and v[0] == 'variant'):
            return list(v)
        m = re.fullmatch(r'(.*)\.(skip|take)\((\d+)\)', base)
        if m:
            t = self.tags(m.group(1))
            if t is not None:
                n = int(m.group(3))
                return t[n:] if m.group(2) == 'skip' else t[:n]
        m = re.fullmatch(r'(.*)\.chars\(\)', base, re.S)
        if m:
            v = self.str_of(m.group(1))
            if v is not None:
                return ['ch%d_%d' % (i, ord(x)) for i, x in enumerate(v)]
        m = re.fullmatch(r'(.*)\.(?:rev|reverse)\(\)', base)
        if m and self.tags(m.group(1)) is not None:
            return self.tags(m.group(1))[::-1]
        m = re.fullmatch(r'range\(0,(.*)\)', base)
        if m:
            v = self.val(m.group(1))
            if isinstance(v, int):
                return [str(i) for i in range(v)]
        return None

    def val(self, k):
        """value of an expression key, or None"""
        k = k.strip()
        v = self.look(k)
        if v is not None:
            return v
        if k == 'true':
            return True
        if k == 'false':
            return False
        if re.fullmatch(r'-?\d+', k):
            return int(k)
        if len(k) > 1 and k[0] == '"' and k[-1] == '"' and '"' not in k[1:-1]:
            return k[1:-1]
        if k.startswith('!'):
            v = self.val(k[1:])
            return None if v is None else not v
        c = call(k)
        if c:
            n, inner = c
            if n == 'is':
                s, p = inner.rsplit(' ', 1)
                v = self.val(s) if not s.endswith(')') or self.look(s) is not None else self.look(s)
                if v is None:
                    v = self.val(s)
                if isinstance(v, tuple) and v[0] == 'variant':
                    return v[1] == p
                if v is not None and p == 'Some':
                    return True
                if v is not None and p == 'None':
                    return False
                return None
            if n == 'eq':
                a = split_args(inner)
                if len(a) == 2:
                    x, y = self.val(a[0]), self.val(a[1])
                    if x is not None and y is not None:
                        x = x[1] if isinstance(x, tuple) else x
                        y = y[1] if isinstance(y, tuple) else y
                        return str(x) == str(y)
                return None
            if n == 'cond':
                return self.val(inner)
            if n == 'if':
                a = split_args(inner)
                if len(a) == 3:
                    x = self.val(a[0])
                    return None if x is None else self.val(a[1] if x else a[2])
            if n == 'exists':
                a = split_args(inner)
                base, cnd = a[0], ','.join(a[1:])
                t = self.tags(base)
                if t is None:
                    return None
                res = False
                for tag in t:
                    v = self.val(self.at(cnd, base, tag))
                    if v is None:
                        return None
                    res = res or bool(v)
                return res
            if n in ('position', 'find'):
                a = split_args(inner)
                base, cnd = a[0], ','.join(a[1:])
                t = self.tags(base)
                for tag in t or []:
                    if self.val(self.at(cnd, base, tag)):
                        return tag
                return None
            if n == 'count':
                a = split_args(inner)
                l = self.members(a[0]) if len(a) == 2 else None
                if l is None:
                    return None
                x, l = self.val(a[1]), [self.val(e) for e in l]
                return None if x is None or None in l else l.count(x)
            if n == 'empty':
                t = self.tags(inner)
                if t is not None:
                    return not t
                v = self.val(inner)
                return v == '' if isinstance(v, str) else None
            if n == 'len':
                t = self.tags(inner)
                if t is not None:
                    return len(t)
                v = self.val(inner)
                if isinstance(v, str):
                    return len(v)
        m = re.fullmatch(r'(.*)\.(contains|starts_with|ends_with)\((".*?"|\'.\')\)', k, re.S)
        if m:
            v = self.str_of(m.group(1))
            if v is not None:
                x = m.group(3)[1:-1]
                return {'contains': x in v, 'starts_with': v.startswith(x), 'ends_with': v.endswith(x)}[m.group(2)]
        m = re.fullmatch(r'(.*)\.(trim|trim_start|trim_end|to_string|as_str|to_owned|clone|as_bytes|display|to_lowercase|to_uppercase|is_empty)\(\)', k, re.S)
        if m:
            v = self.str_of(m.group(1))
            if v is not None:
                return {'trim': v.strip(), 'trim_start': v.lstrip(), 'trim_end': v.rstrip(), 'is_empty': not v, 'to_lowercase': v.lower(), 'to_uppercase': v.upper()}.get(m.group(2), v)
        if c and c[0] == 'text':
            # a concatenation: expressions and plain pieces (blank ones are a blank)
            out = ''
            for x in split_args(c[1]):
                v = self.val(x)
                if not x:
                    out += ' '
                elif isinstance(v, (str, int)) and not isinstance(v, bool):
                    out += str(v)
                elif re.fullmatch(r'[\w ]+', x):
                    out += x
                else:
                    return None
            return out
        if c and c[0] == 'replace':
            a = split_args(c[1])
            if len(a) == 3:
                b, x, y = self.str_of(a[0]), self.str_of(a[1]), self.str_of(a[2])
                if None not in (b, x, y):
                    return b.replace(x, y)
        m = re.fullmatch(r'.*\.chars\(\)\[ch\d+_(\d+)\]', k, re.S)
        if m:
            return chr(int(m.group(1)))
        m = re.fullmatch(r'index\((.*)\)\[([^\[\]]*)\]', k)
        if m:
            t = self.tags(m.group(1))
            if t is not None and m.group(2) in t:
                return t.index(m.group(2))
        if k.startswith('[') and k.endswith(']'):
            return self.members(k)
        if k.startswith('(') and k.endswith(')'):
            m = binop(k[1:-1])
            if m:
                x, y = self.val(m[0]), self.val(m[2])
                x, y = (int(z) if isinstance(z, str) and re.fullmatch(r'-?\d+', z) else z for z in (x, y))
                if isinstance(x, int) and isinstance(y, int):
                    return {'==': x == y, '!=': x != y, '<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y, '+': x + y, '-': x - y, '*': x * y, '/': x // y if y else None, '%': x % y if y else None}[m[1]]
        k2 = self.norm(k)
        if k2 != k:
            return self.val(k2)
        return None

    def str_of(self, k):
        v = self.val(k)
        return v if isinstance(v, str) else None

    def at(self, c, base, tag):
        m = re.search(re.escape(base) + r'\[(\*+)\]', c)
        if m:
            # everything that runs along with this sequence, but not repetitions of their own at the same depth
            def own():
                out = []
                for q in re.finditer(r'(?<!\w)(?:each|exists|find|position|find_map)\(', c):
                    d, j = 0, q.end() - 1
                    while j < len(c):
                        if c[j] == '"':
                            j += 1
                            while j < len(c) and c[j] != '"':
                                j += 1 + (c[j] == '\\')
                        d += (c[j:j + 1] in ('(', '[')) - (c[j:j + 1] in (')', ']'))
                        if d == 0:
                            break
                        j += 1
                    a = split_args(c[q.end():j])
                    if q.group(0) == 'each(' and len(a) == 3 and a[1].isdigit():
                        n = int(a[1]) + 1
                    else:
                        x = re.search(re.escape(a[0]) + r'\[(\*+)\]', c[q.end() + len(a[0]):j])
                        n = len(x.group(1)) if x else None
                    if n is None or n == len(m.group(1)):
                        out.append((q.end() + len(a[0]), j))
                return out
            spans = own()
            free = lambda q: not any(a <= q.start() <= b for a, b in spans)
            c = re.sub(re.escape(base) + r'\[\*+\]', lambda q: '%s[%s]' % (base, tag) if free(q) else q.group(0), c)
            spans = own()
            c = re.sub(r'(?<=[\w\])])\[\*{%d}\]' % len(m.group(1)), lambda q: '[%s]' % tag if free(q) else q.group(0), c)
        return c

    def norm(self, k):
        """resolves positions inside indices, adaptors in front of indices and constant indices"""
        k1 = re.sub(r'\.(?:rev\(\)|reverse\(\)|skip\(\d+\)|take\(\d+\))(?=\[)', '', k)
        if k1 != k:
            return k1
        m = re.search(r'^(.*?[\w\])])\[(\d+)\]', k)
        if m:
            t = self.tags(m.group(1).rsplit('(', 1)[-1])
            if t and m.group(2) not in t and int(m.group(2)) < len(t):
                return k[:m.start(2)] + str(t[int(m.group(2))]) + k[m.end(2):]
        m = re.search(r'\[(position|find)\(', k)
        if m:
            i = m.start() + 1
            d = 0
            for j in range(i, len(k)):
                if k[j] in '([':
                    d += 1
                elif k[j] in ')]':
                    d -= 1
                    if d < 0:
                        break
            v = self.val(k[i:j])
            if v is not None:
                return k[:i] + str(v) + k[j:]
        m = re.search(r'(?<![\w])find\(', k)
        if m:
            d = 0
            for j in range(m.end() - 1, len(k)):
                if k[j] in '([':
                    d += 1
                elif k[j] in ')]':
                    d -= 1
                    if d == 0:
                        break
            inner = k[m.end():j]
            base = split_args(inner)[0]
            v = self.val(k[m.start():j + 1])
            if v is not None:
                return k[:m.start()] + '%s[%s]' % (base, v) + k[j + 1:]
        return k

    # ------------------------------------------------ callbacks of Render
    def decide(self, c):
        v = self.val(c)
        self.seen.add((c, v))
        if isinstance(v, bool):
            return v
        if v is None:
            return None
        return bool(v)

    def hole(self, k):
        v = self.val(k)
        if isinstance(v, (str, int)) and not isinstance(v, bool):
            return str(v)
        m = call(k)
        if m and m[0] == 'replace':
            a = split_args(m[1])
            if len(a) == 3:
                b, x, y = self.hole(a[0]), self.val(a[1]), self.val(a[2])
                if isinstance(x, str) and isinstance(y, str):
                    return b.replace(x, y)
        k2 = self.norm(k)
        if k2 != k:
            return self.hole(k2)
        if self.hole_default:
            r = self.hole_default(k)
            if r is not None:
                return r
        if k not in self.unknown_holes:
            self.unknown_holes[k] = 'vf_hole%d' % len(self.unknown_holes)
        return self.unknown_holes[k]

    def items(self, base):
        t = self.tags(base)
        if t is None:
            t2 = self.norm(base)
            if t2 != base:
                return self.items(t2)
            self.unknown_items.add(base)
            return []
        return t
