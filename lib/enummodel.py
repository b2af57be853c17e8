"""What the generators make of an enum declaration, rendered for a sample enum with variants [(foreign name, Rust path)]."""
import re
from tyeval import *
from model import Model
import clsmodel

GEN = {'cpp': ('cpp/fenum.rs', 'cpp'), 'java': ('java_jni/fenum.rs', 'java_jni'), 'python': ('python/mod.rs', 'python')}
_ev = {}


def evaluated(src, lang):
    k = id(src), lang
    if k not in _ev:
        file, d = GEN[lang]
        inl = lambda f: f.startswith(d + '/')
        base = {'parse_ty_with_given_span': lambda ev, a: var('Ok', a[0]), 'extend_foreign_enum': lambda ev, a: var('Ok', UNIT),
                '.find_or_alloc_rust_type_that_implements': lambda ev, a: a[1]}
        ev = TEval(src, inline_files=inl, overrides=base)
        ret = ev.run(src.fn('generate_enum', file))
        rules, ft = [], []

        def add(e, a):
            rules.append((to_text(a[1]), to_text(a[2]), to_text(a[3])))
            return UNIT

        def aft(e, a):
            ft.append(a[1])
            return var('Ok', UNIT)
        ev2 = TEval(src, inline_files=inl, overrides={**base, '.add_conversion_rule': add, '.alloc_foreign_type': aft, 'new': lambda e, a: a[0] if a else Text(),
                    'new2': lambda e, a: a[0], 'invalid_src_id_span': lambda e, a: UNIT})
        ev2.run(src.fn('generate_enum', file))
        _ev[k] = ev, ret, rules, ft
    return _ev[k]


def trunc(t, v):
    n = int(t[1:])
    v &= (1 << n) - 1
    return v - (1 << n) if t[0] == 'i' and v >> n - 1 else v


class EnumText:
    """.files [(name, text)], .rust [texts], .result [texts of the returned tuple], .rules [(from, to, code)], .into / .outof: conversion code of the foreign type"""

    def __init__(self, src, lang, items, name='VfEnum', ns='vfns', pkg='vf.pkg'):
        ev, ret, rules, ft = evaluated(src, lang)
        P = r'(?:fenum|enum_info)'
        tags = ['t%d' % i for i in range(len(items))]
        it = dict(zip(tags, items))
        up = {'to_uppercase': str.upper, 'to_lowercase': str.lower, 'to_snake_case': lambda x: re.sub(r'(?<!^)(?=[A-Z])', '_', x).lower(), 'to_string': str}
        fx = lambda s, f: up[f](s) if f else s
        R = [(P + r'\.items', tags), (P + r'\.name(?:\.(\w+)\(\))?', lambda m: fx(name, m.group(1))), (P + r'\.(?:items\[\w+\]\.)?doc_comments', []),
             (P + r'\.items\[(t\d+)\]\.name(?:\.(\w+)\(\))?', lambda m: fx(it[m.group(1)][0], m.group(2))),
             (P + r'\.items\[(t\d+)\]\.rust_name(?:\.(\w+)\(\))?', lambda m: fx(it[m.group(1)][1], m.group(2))),
             (r'index\(' + P + r'\.items\)\[t(\d+)\]', lambda m: m.group(1)),
             (r'trunc\((\w+), index\(' + P + r'\.items\)\[t(\d+)\]\)', lambda m: str(trunc(m.group(1), int(m.group(2))))),
             (r'eq\(index\(' + P + r'\.items\)\[t(\d+)\], .*', lambda m: int(m.group(1)) == len(tags) - 1),
             (r'empty\(.*', True), (r'.*derive_list.*', []), (r'(?:ctx|self)\.cfg\.(?:package_name|namespace_name)', lambda m: pkg if 'package' in m.group(0) else ns),
             (r'len\(' + P + r'\.items\)', len(tags))]
        self.m = m = Model({}, R)
        self.R = Render(m.decide, m.hole, m.items)
        self.files = []
        for cc, x in clsmodel.flat(ev.store.get(('s', '$files')) or Lst()):
            for a, t in self.R.all(x.f['1'], 4):
                self.files.append((self.R.text(x.f['0']), t))
        rc = ev.store.get(('s', 'ctx.rust_code'))
        self.rust = [self.R.text(x) for _, x in clsmodel.flat(rc)] if rc is not None else []
        self.result = []
        if isinstance(ret, Rec) and isinstance(ret.f.get('0'), Rec):
            self.result = [self.R.text(x) for x in ret.f['0'].f.values() if isinstance(x, Text)]
        self.rules = [(self.R.text(a), self.R.text(b), self.R.text(c)) for a, b, c in rules]
        self.conv = {}
        for f in ft:
            for d in ('into_from_rust', 'from_into_rust'):
                r = f.f.get(d)
                if isinstance(r, Rec) and r.name == 'Some':
                    i = r.f['0'].f['intermediate']
                    if isinstance(i, Rec) and i.name == 'Some':
                        i = i.f['0'].f
                        self.conv[d] = (self.R.text(to_text(i['intermediate_ty'])).strip(), self.R.text(to_text(i['conv_code'])), i.get('input_to_output'))
