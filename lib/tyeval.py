"""Abstract evaluation (tmpl.py) of the functions that compose glue for one concrete self type: types are texts, the type map
answers questions about them structurally, conversions between Rust types are calls of a stand-in."""
import re
from tmpl import *

SMART = ('Box', 'Rc', 'Arc')


def inner(ty, sp):
    """inner type of the smart pointer type `sp<...>`"""
    m = re.fullmatch(r'\s*(?:\w+\s*::\s*)*%s\s*<(.*)>\s*' % sp, ty, re.S)
    return m.group(1).strip() if m else None


def lit(v):
    v = to_text(v)
    return v.lit()


class TEval(Eval):
    def __init__(self, src, pre=(), inline_files=None, overrides=None, conv=None):
        self.pre = dict(pre)
        self.convs = []
        self.convf = conv or self.conv_default
        o = {'.find_or_alloc_rust_type': self.o_arg1, '.find_or_alloc_rust_type_with_suffix': self.o_arg1, '.ty_to_rust_type': self.o_arg1,
             '.find_or_alloc_rust_type_no_src_id': self.o_arg1, '.to_idx': self.o_self, '.to_type_without_lifetimes': self.o_self,
             '.convert_rust_types': self.o_convert, 'check_if_smart_pointer_return_inner_type': self.o_smart, 'list_lifetimes': lambda ev, a: Lst(),
             '.typename': self.o_typename}
        o.update(overrides or {})
        Eval.__init__(self, src, inline_files=inline_files, overrides=o)

    def conv_default(self, frm, to, a, b):
        if lit(frm) is not None and re.sub(r'\s', '', lit(frm)) == re.sub(r'\s', '', lit(to) or '') and lit(a) is not None and lit(a) == lit(b):
            return Text()
        return Text(('let mut ',)) + b + T(': ') + to + T(' = vf_conv::<') + frm + T(', ') + to + T('>(') + a + T(');\n')

    @staticmethod
    def o_arg1(ev, a):
        return a[1]

    @staticmethod
    def o_self(ev, a):
        return a[0]

    @staticmethod
    def o_typename(ev, a):
        return Sym(a[0].key + '.normalized_name') if isinstance(a[0], Sym) else a[0]

    @staticmethod
    def o_convert(ev, a):
        frm, to, x, y = [to_text(v) for v in a[1:5]]
        ev.convs.append((frm, to))
        return var('Ok', var('tuple', Lst(), ev.convf(frm, to, x, y)))

    @staticmethod
    def o_smart(ev, a):
        t, sp = lit(a[0]), lit(a[1])
        if t is None or sp is None:
            return Sym('check_if_smart_pointer_return_inner_type(%s, %s)' % (keyof(a[0]), keyof(a[1])))
        r = inner(t, sp)
        return NONE if r is None else var('Some', T(r))

    def field(self, v, f):
        if isinstance(v, Text) and f in ('ty', 'normalized_name', 'src_id'):
            return v
        if isinstance(v, Sym) and v.key + '.' + f in self.pre:
            return self.pre[v.key + '.' + f]
        return Eval.field(self, v, f)

    def e_Index(self, e, env):
        b = self.ev(e['e'], env)
        if isinstance(b, Sym) and re.search(r'(^|\.)(conv_map|tmap|type_map)$', b.key):
            return self.ev(e['i'], env)
        return Eval.e_Index(self, e, env)

    def e_Macro(self, e, env):
        n = e['name'].split('::')[-1]
        if n in ('parse_type_spanned_checked', 'parse_spanned', 'parse_type_spanned'):
            toks = e['toks']
            for i, t in enumerate(toks):
                if t[0] == 'p' and t[1] == ',':
                    return self.quote(toks[i + 1:], env)
        return Eval.e_Macro(self, e, env)
