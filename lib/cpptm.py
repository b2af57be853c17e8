"""The built-in C++ type map (cpp-include.rs) as data: C declarations, C++ modules and conversion rules, with the type
parameters of generic rules replaced by stand-in types."""
import re
import rast, tmacro
from rast import toks_text

CPP_INC = 'cpp/cpp-include.rs'


class Inst:
    """stand-in for a type parameter: Rust type, its intermediate (C) type on the Rust side, in C, and the C++ type"""

    def __init__(self, rust, irust, ic, f, fref=None, frefout=None, ident=None):
        self.rust, self.irust, self.ic, self.f, self.fref, self.frefout = rust, irust, ic, f, fref or f, frefout or f
        self.ident = ident or re.sub(r'\W', '', ic)


class CppMaps:
    def __init__(self, src, file=CPP_INC):
        self.src = src
        self.file = file
        self.blocks = tmacro.blocks(src.files[file])
        # Rust type text -> C type text, from the rules that name both sides
        self.cmap = {}
        for b in self.blocks:
            if len(b.rules) == 2 and b.rules[0].kind == 'r_type' and b.rules[1].kind == 'f_type' and not b.rules[0].generics \
                    and b.rules[0].dir is None and b.rules[0].var is None:
                self.cmap[norm_ty(toks_text(b.rules[0].left))] = b.rules[1].ftype

    def with_module(self, mod):
        return [b for b in self.blocks if any(c['module'] == mod for c in b.code + b.ctypes)]

    # ---- substitution
    def alias(self, b, name, inst):
        ts = b.aliases[name]
        # swig_concat_idents ! ( a, swig_i_type!(T), ...)
        out = ''
        for part in tmacro.split(ts[2][3] if tmacro.is_mac(ts, 0, 'swig_concat_idents') else ts, ','):
            if tmacro.is_mac(part, 0):
                m, arg = part[0][1], toks_text(part[2][3])
                i = inst[re.sub(r'\W.*$', '', arg.strip('& '))]
                out += i.ident
            elif len(part) == 1 and part[0][0] == 'i':
                out += part[0][1]
            else:
                raise ValueError('alias %s: %s' % (name, toks_text(part)))
        return out

    def rust(self, b, toks, inst, var=None, out='out', pre='p'):
        """Rust tokens of block b -> text"""
        def f(ts, i):
            t = ts[i]
            if t[0] == 'p' and t[1] == '$' and i + 1 < len(ts) and ts[i + 1][0] == 'i':
                n = ts[i + 1][1]
                return [['i', out if n == 'out' else pre if n == var else n, t[2]]], 2
            if tmacro.is_mac(ts, i):
                n, g = t[1], ts[i + 2]
                arg = toks_text(g[3])
                if n in b.aliases:
                    return [['i', self.alias(b, n, inst), t[2]]], 3
                key = arg.split(',')[0].strip()
                if n in ('swig_i_type', 'swig_subst_type', 'swig_f_type'):
                    k = re.sub(r'^&( mut)? ?', '', key).strip()
                    if k in inst:
                        ty = inst[k].irust if n == 'swig_i_type' else inst[k].rust
                        return [['l', ty, t[2]]], 3
                if n in ('swig_from_rust_to_i_type', 'swig_from_i_type_to_rust'):
                    a = tmacro.split(g[3], ',')
                    ty, e, v = toks_text(a[0]), tmacro.subst(a[1], f), toks_text(a[2])
                    k = re.sub(r'^&( mut)? ?', '', ty).strip()
                    r = '&mut ' if ty.startswith('& mut') else '&' if ty.startswith('&') else ''
                    suffix = {'': '', '&': '_ref', '&mut ': '_mut'}[r]
                    if n == 'swig_from_rust_to_i_type':
                        txt = 'let mut %s: %s = vf_to_i_%s%s(%s);' % (v, inst[k].irust, inst[k].ident, suffix, toks_text(e))
                    else:
                        txt = 'let mut %s: %s%s = vf_from_i_%s%s(%s);' % (v, r, inst[k].rust, inst[k].ident, suffix, toks_text(e))
                    return [['l', txt, t[2]]], 3
            return None
        return toks_text(tmacro.subst(toks, f))

    def cpp(self, b, text, inst, var=None, pre='p', out='out'):
        """C++ text of block b with its macros expanded"""
        def arg_of(s, i):
            d = 0
            for j in range(i, len(s)):
                if s[j] == '(':
                    d += 1
                elif s[j] == ')':
                    d -= 1
                    if d == 0:
                        return s[i + 1:j], j + 1
            raise ValueError('unbalanced ' + s)
        changed = True
        while changed:
            changed = False
            for m in re.finditer(r'(\w+)!\(', text):
                n = m.group(1)
                a, e = arg_of(text, m.end() - 1)
                rep = None
                if n in b.aliases:
                    rep = self.alias(b, n, inst)
                elif n in ('swig_f_type', 'swig_i_type'):
                    key = a.split(',')[0].strip()
                    outp = ',' in a
                    k = re.sub(r'^&( ?mut)? ?', '', key).strip()
                    if k in inst:
                        i = inst[k]
                        rep = i.ic if n == 'swig_i_type' else (i.f if not key.startswith('&') else i.frefout if outp else i.fref)
                    elif re.match(r'\w+!\(\)$', k) and k[:-3] in b.aliases:
                        rep = self.alias(b, k[:-3], inst)
                elif n in ('swig_foreign_from_i_type', 'swig_foreign_to_i_type'):
                    k, ex = a.split(',', 1)
                    k = k.strip()
                    rep = 'vf_%s_%s(%s)' % ('from' if 'from' in n else 'to', inst[k].ident, ex.strip())
                if rep is not None:
                    text = text[:m.start()] + rep + text[e:]
                    changed = True
                    break
        if var:
            text = re.sub(r'\$%s\b' % re.escape(var), pre, text)
        text = text.replace('$out', out)
        return text.replace('$RUST_SWIG_USER_NAMESPACE', 'vfns')

    # ---- C declarations
    def items(self, b, inst):
        """items of the define_c_type parts: [(module, syntax trees)]"""
        out = []
        for c in b.ctypes:
            txt = self.rust(b, c['toks'], inst)
            d = rast.dump_text(txt)
            if 'error' in d:
                raise ValueError('define_c_type at line %d: %s\n%s' % (c['line'], d['error'], txt))
            mod = c['module']
            m = re.match(r'(\w+)!\(\)(.*)$', mod or '')
            if m:
                mod = self.alias(b, m.group(1), inst) + m.group(2)
            out.append((mod, d['items'], txt))
        return out

    def ctype(self, ty, extra):
        ty = norm_ty(ty)
        if ty in extra:
            return extra[ty]
        if ty in self.cmap:
            return re.sub(r'/\*.*?\*/', '', self.cmap[ty])
        m = re.match(r'\*(const|mut)(.*)$', ty)
        if m:
            inner = self.ctype(m.group(2), extra)
            return ('const %s *' if m.group(1) == 'const' else '%s *') % inner
        if re.match(r'\w+$', ty):
            return ty
        raise ValueError('no C type for ' + ty)

    def cdecl(self, items, extra):
        """C text of repr(C) items (struct, union, extern fn, static)"""
        out = []
        for it in items:
            if it['k'] in ('Struct', 'Union'):
                kw = 'struct' if it['k'] == 'Struct' else 'union'
                out.append('typedef %s %s {\n%s\n} %s;' % (kw, it['name'], '\n'.join('    %s %s;' % (self.ctype(f['ty'], extra), f['name']) for f in it['fields']), it['name']))
            elif it['k'] == 'Fn':
                o = it['sig']['output']
                out.append('extern "C" %s %s(%s);' % (self.ctype(o, extra) if o else 'void', it['name'], ', '.join(self.ctype(a['ty'], extra) for a in it['sig']['inputs'])))
            elif it['k'] == 'Static':
                out.append('extern "C" const %s %s;' % (self.ctype(it['ty'], extra), it['name']))
        return '\n'.join(out)


def norm_ty(t):
    return re.sub(r'\s+', '', t).replace('*const', '*const ').replace('*mut', '*mut ').replace('*const ', '*const').replace('*mut ', '*mut')
