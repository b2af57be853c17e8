PROPERTY='P13'
NEEDS='a C++ RustVec that is empty but has capacity (for example after Rust returned Vec::with_capacity)'
BREAKS='its allocation is never returned to Rust'
EDITS=[('macroslib/src/cpp/rust_vec_impl.hpp','''        FreeFunc(*this);
        reset(*this);''','''        if (!empty()) {
            FreeFunc(*this);
        }
        reset(*this);''')]
FILES={'demo.sh':r'''#!/bin/bash
# run with cwd /repo; exit 0: behaviour as promised, nonzero otherwise
ROOT=$PWD
W=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$W"' EXIT
sed 's/RUST_SWIG_USER_NAMESPACE/demo/' "$ROOT/macroslib/src/cpp/rust_vec_impl.hpp" > "$W/vec.hpp"
cat > "$W/main.cpp" <<'T'
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <utility>
#include "vec.hpp"
struct C { const int32_t *data; uintptr_t len; uintptr_t capacity; };
static int live = 0;
static void free_c(C c) { if (c.capacity != 0) --live; }
static C make(uintptr_t len, uintptr_t cap) { if (cap) ++live; return C{ (const int32_t *)16, len, cap }; }
using V = demo::RustVec<C, free_c>;
int main() {
    { V v(make(3, 4)); }
    { V v(make(0, 8)); }
    { V v(make(0, 8)); V w(std::move(v)); w = V(make(0, 2)); w.clear(); }
    { V v; V w(make(0, 0)); }
    return live == 0 ? 0 : 1;
}
T
g++ -std=c++11 -o "$W/demo" "$W/main.cpp" || exit 3
"$W/demo"
'''}
