"""Translation units around the C++ support headers, shared by P13 and P14."""
import os, re
from core import REPO
import rast, tmacro, cpptm
from llvmir import *

HPP = ['rust_vec_impl.hpp', 'rust_vec_access.hpp', 'rust_foreign_vec_impl.hpp', 'rust_foreign_slice_impl.hpp',
       'rust_foreign_slice_iter.hpp', 'rust_slice_access.hpp', 'rust_slice_tmpl.hpp']
DIR = os.path.join(REPO, 'macroslib/src/cpp')
FLAGS = ['-DRUST_SWIG_USER_NAMESPACE=vfns']

_src = _maps = None


def source():
    global _src
    if _src is None:
        _src = rast.Source()
    return _src


def maps():
    global _maps
    if _maps is None:
        _maps = cpptm.CppMaps(source())
    return _maps


def headers():
    r = {}
    for f in sorted(os.listdir(DIR)):
        if f.endswith('.hpp'):
            r[f] = open(os.path.join(DIR, f)).read()
    return r


ELEM = 12      # size of the stand-in element: not a power of two, not the size of a pointer
PRE = '''
struct vf_elem { char x[%d]; };
inline bool operator==(const vf_elem &, const vf_elem &) { return false; }
''' % ELEM


def insts():
    t = cpptm.Inst('VfElem', 'VfElem', 'vf_elem', 'vf_elem', 'vfns::vf_ref', 'vfns::vf_ref', ident='vfelem')
    return {'T': t, 'T1': t, 'T2': t, 'T3': t}, {'VfElem': 'vf_elem'}


def cstructs():
    """C declarations of all built-in container structs, by module, with T = the stand-in element"""
    M = maps()
    inst, extra = insts()
    mods = {}
    for b in M.blocks:
        for mod, items, txt in M.items(b, inst):
            mods.setdefault(mod, []).append((b, items, M.cdecl([i for i in items if i['k'] in ('Struct', 'Union', 'Fn', 'Static')], extra)))
    return mods


def find_struct(mods, pred):
    for mod, l in mods.items():
        for b, items, txt in l:
            for it in items:
                if it['k'] == 'Struct' and pred(it['name']):
                    return it
    return None


def guard(text):
    return '#pragma once\n#include <stdint.h>\n#include <stddef.h>\n' + text


def part_offsets(mod, st, types):
    return None
