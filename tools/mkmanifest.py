#!/usr/bin/env python3
"""writes MANIFEST.json from the table below and properties.jsonl"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
MIRT = 'whole-crate MIR analysis: '
C = {
 'P01': (MIRT + 'consumption of every fallible result, recorded visitor errors reach a return',
         'Every call of the macroslib crate that yields a Result, an error list or a recorded error is examined in compiler MIR; assumes the error types of dependencies follow the Result convention.'),
 'P02': (MIRT + 'typestate of output files, write effects and must-reach of the commit',
         'Every creation of an output file object, every file-system write effect and the compare-before-write path are examined in MIR of the whole crate; assumes std::fs semantics.'),
 'P03': (MIRT + 'guard analysis of delete effects and registration of generated files',
         'Every delete effect of the crate and the conditions on all paths to it are examined in MIR; assumes std::fs semantics.'),
 'P04': (MIRT + 'effect analysis for nondeterminism sources',
         'Every iteration over a hashed container and every call of a nondeterministic std function in MIR; assumes FxHash is deterministic and the dependencies (rustfmt included) are.'),
 'P05': (MIRT + 'must-precede of cache invalidation on every mutation of the conversion graph',
         'Every function that can change rules or types after the first query is examined in MIR on all paths; rules are related to the types they name.'),
 'P06': (MIRT + 'path analysis of snapshot, rollback and step bound of the conversion search',
         'All paths of the search functions are examined in MIR with helpers inlined; assumes petgraph and smallvec semantics.'),
 'P07': (MIRT + 'provenance pairing of source id and span of every diagnostic',
         'Every construction of a positioned diagnostic or source-id span in MIR; provenance is tracked through locals, fields and parameters.'),
 'P08': (MIRT + 'path rule over every loop over declared things, provenance of parsed fields, fields read per backend',
         'Every loop, iterator adaptor and field of the declaration types in MIR; assumes syn yields what is written.'),
 'P13': ('ownership typestate over LLVM IR of the C++ support classes and of the generated class text',
         'Every special member and operation of the owning C++ types is compiled from the current headers and templates with stand-in element types; all operation sequences are covered by a fixpoint over abstract ownership states. Assumes clang compiles C++ correctly.'),
 'P15': ('ownership and provenance dataflow over the MIR of every conversion rule and helper of the built-in C++ type map',
         'Every rule and helper of cpp-include.rs that takes apart or rebuilds a buffer is compiled with stand-in types and followed on all paths; assumes std String/Vec semantics.'),
 'P14': ('symbolic address polynomials over LLVM IR of the C++ support headers',
         'Every access and iterator operation of the containers is evaluated for arbitrary base, index, length and stride on all paths; assumes no address wrap-around.'),
 'P11': ('member-by-member comparison of both halves of every shared declaration, rendered by abstract evaluation of the generator templates',
         'Sizes and signs of the C types come from LLVM constants, struct members from both declarations in cpp-include.rs, prototypes, Rust functions and C++ calls from the templates of cpp_code.rs and fclass.rs. C++ back end and Java primitives; types of single members are related by the rules other properties check.'),
 'P12': ('tag and payload dataflow over MIR paths of the Rust rules and LLVM IR of every C++ alternative against reference types',
         'Every Option, Result, tuple, bool and string view rule of cpp-include.rs, under every configuration alternative, evaluated per variant; C++ back end.'),
 'P16': ('ownership ledger by abstract interpretation of the MIR of generated glue, for every kind of self type, derive and position',
         'The generator templates are evaluated for each kind of self type (plain, Box, Rc, Arc, with RefCell, Mutex or RwLock inside) and derive, the resulting Rust is compiled with stand-in conversions and every path followed; the foreign text is compared with what the Rust side takes. C++ and Java back ends.'),
 'P17': ('dominating null checks on the MIR paths of generated and built-in glue and on the LLVM IR paths of the C++ class',
         'Every dereference or take-back of a handle parameter in generated class glue (all kinds of self type) and built-in helpers, every object argument of a JNI call in a conversion rule, and every handle the C++ class stores at construction, frees or clones must be proven non-null on its path.'),
 'P18': ('agreement of table layout, initialiser and callers over the LLVM IR and MIR of rendered callback glue',
         'For sample declarations of each shape (no method, results, conversions, equal signatures) the generator templates are rendered; table offsets and types are constant-folded from the C++ IR, the initialisers and entries are compared path by path with a direct virtual call and delete, and every MIR path of the Rust side (methods, Drop, conversion) must use the matching entry once.'),
 'P19': ('acquire/release typestate over the MIR paths of the JNI helpers, guard types and conversion rules',
         'Every helper and rule of jni-include.rs is compiled with stand-in types and followed on all returning paths (loops up to two turns); resources kept in guard structs are followed into the destructors of all guards.'),
 'P20': ('pending-exception typestate over the MIR paths of the JNI helpers and conversion rules',
         'Every helper and rule of jni-include.rs on all returning paths, against the JNI specification of which functions fail, throw and may run with an exception pending.'),
 'P25': ('generated enum text rendered from the templates; constant propagation over MIR, LLVM IR and Java bytecode of both directions',
         'Sample enums of one, three and five variants (names not in the order of the Rust declaration) in every back end, and every built-in rule for enums and optional enums.'),
 'P21': ('identifiers of the JNI macros against class files of the platform and of the generated Java text; receiver, result and argument types of every JNI call on the MIR paths; abstract interpretation of the id cache',
         'Every lookup macro of jni-include.rs and of the text generated for classes and enums is resolved in class files, every JNI call of every helper and rule is checked on all MIR paths, and find_cache and the load/unload generator are interpreted in MIR. Callbacks are not covered.'),
 'P22': ('abstract interpretation of the Java bytecode of the generated wrappers, for every conversion of a class',
         'The generator is evaluated for sample classes of every derive, every conversion in both directions, with and without null annotations and with both fence variants; the Java text is compiled and every path of its bytecode followed. Assumes the Java memory model and a native call that does not itself delete the object.'),
 'P23': ('symbolic evaluation of the generator for sample classes, the Java text compiled and its native methods compared with the exported functions by the JNI mangling rules',
         'Both texts are produced by evaluating the generator source symbolically for sample classes with overloads, underscores, arrays, constructors and every self kind; each native method of the compiled class must have exactly one exported function with matching parameters. Names are ASCII identifiers (rustc rejects others for exported functions).'),
 'P24': ('path-sensitive analysis (MIR) of the Rust code generated for sample callback interfaces, against the compiled Java interface and the JNI specification',
         'The generator source is evaluated symbolically for sample interfaces covering every JNI type as argument and result, overloads and both kinds of self; the generated Rust is compiled together with jni-include.rs and every path of every function followed, including attachment, failures to attach and pending exceptions. Conversions are stand-ins here (P15 to P18); panics are not followed.'),
 'P10': ('abstract evaluation of the MIR of every conversion rule and of generated glue: identity of numeric rules, losslessness or path bound of every cast; casts in the C++ syntax tree and Java bytecode',
         'Every numeric rule, cast and computation of the Rust glue on all paths, every cast of the compiled C++ glue and every instruction of the generated Java; 64-bit targets, one known finding (SystemTime).'),
 'P09': ('abstract interpretation of the declaration parser and of the class validators over token classes; reachable parser states to a fixpoint',
         'Class bodies are sequences over 105 items (valid and malformed); every item is judged in every abstract state the parser can reach (80, to a fixpoint), for every back end; enums and callbacks over sample bodies. Types are opaque symbols; the handlers registered by users are not judged.'),
 'P26': ('evaluation of the generator for every storage, derive, pointer, reference and receiver; the glue type-checked and followed on all MIR paths',
         'Five constructor types x three derives x 30 positions and four receivers, evaluated from the source of python/mod.rs; accepted combinations are compiled against stand-ins of the binding and every path followed, refused ones compared with the specification.'),
 'P27': ('evaluation of the generator for sample types, the glue type-checked and every MIR path followed with the discriminants known on it',
         'Results and arguments of 70 nested types of options, results, vectors, slices, tuples, enums and objects; the conversion is followed structurally through closures and the error paths. The binding and std iterators are assumed to behave as documented.'),
}
NA = {
 'N01': 'Compilability of the composed text quantifies over all user declarations and type maps and would need a type checker for four languages over templates with unbounded holes; no static argument in reach is sound, and generating and compiling samples is testing.',
 'N02': 'Equality of values after a round trip quantifies over run-time values and over user-written conversion bodies; the parts that are structural are decided by other properties here, the value equality itself is not statically decidable.',
 'N03': 'A time bound over all inputs needs a cost analysis of recursive macro expansion and path search over user-provided graphs; no sound static bound is in reach (the step bound of the search itself is part of P06).',
}
checks = [dict(property=i, quick_cmd='python3 run.py %s' % i, thorough_cmd='python3 run.py %s' % i, technique=t, level='other', level_note=n)
          for i, (t, n) in sorted(C.items())]
na = [dict(property=i, reason=NA.get(i, 'No check built yet.')) for i in ids if i not in C]
json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
