"""JNI_OnLoad and JNI_OnUnload as the generator writes them for a set of cached classes and members."""
import re
from tyeval import *
from model import Model
import clsmodel

KINDS = {'methods': ('GetMethodID', 'jmethodID'), 'static_methods': ('GetStaticMethodID', 'jmethodID'), 'static_fields': ('GetStaticFieldID', 'jfieldID'), 'fields': ('GetFieldID', 'jfieldID')}
# class id -> (path, {list: [(id, name, sig)]})
SAMPLE = {'CA': ('vf/A', {'methods': [('MA1', 'run', '()V'), ('MA2', 'run', '(I)V')], 'static_methods': [('SA1', 'of', '(I)Lvf/A;'), ('SA2', 'on', '()V')],
                         'static_fields': [('FA1', 'ONE', 'Lvf/A;'), ('FA2', 'TWO', 'Lvf/A;')], 'fields': [('GA1', 'ptr', 'J'), ('GA2', 'len', 'I')]}),
          'CB': ('vf/B', {'methods': [('MB1', 'run', '()V')], 'static_methods': [], 'static_fields': [], 'fields': []}),
          'CC': ('vf/C', {'methods': [], 'static_methods': [], 'static_fields': [('FC1', 'ONE', 'Lvf/C;')], 'fields': [('GC1', 'ptr', 'J')]})}


def text(src):
    """(Rust text with identifiers VFID_*, unknown holes)"""
    ev = TEval(src, inline_files=lambda f: f.startswith('java_jni/'),
               overrides={'parse_file': lambda e, a: Sym('file'), 'default': lambda e, a: Sym('calls'), '.visit_file': lambda e, a: UNIT})
    ev.store[('vf', 'out')] = Text()
    out = []
    over = dict(ev.overrides)
    fn = src.fn('generate_load_unload_jni_funcs', 'java_jni/rust_code.rs')
    ret = ev.run(fn, generated_code=Text())
    t = ev.store.get(('c', 1))
    base = r'calls\.calls(?:\.values\(\)|\.iter\(\)|\.values_mut\(\))?'
    ids = list(SAMPLE)

    def member(m):
        k = ids[int(m.group(1)[1:])]
        i, name, sig = SAMPLE[k][1][m.group(2)][int(m.group(3)[1:])]
        return {'id': 'VFID_' + i, 'name': '"%s"' % name, 'sig': '"%s"' % sig, 'class_id': 'VFID_' + k}[m.group(4)]
    R = [(base, ['c%d' % i for i in range(len(ids))]),
         (base + r'\[(c\d+)\](?:\.1)?\.id', lambda m: 'VFID_' + ids[int(m.group(1)[1:])]),
         (base + r'\[(c\d+)\](?:\.1)?\.path', lambda m: '"%s"' % SAMPLE[ids[int(m.group(1)[1:])]][0]),
         (base + r'\[(c\d+)\](?:\.1)?\.(methods|static_methods|static_fields|fields)(?:\.iter\(\))?', lambda m: ['m%d' % i for i in range(len(SAMPLE[ids[int(m.group(1)[1:])]][1][m.group(2)]))]),
         (base + r'\[(c\d+)\](?:\.1)?\.(methods|static_methods|static_fields|fields)(?:\.iter\(\))?\[(m\d+)\]\.(id|name|sig|class_id)', member)]
    m = Model({}, R)
    r = Render(m.decide, m.hole, m.items)
    return r.text(t), m.unknown_holes
