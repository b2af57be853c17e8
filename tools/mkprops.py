import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))
M="macroslib/src/"
p("P01","No failure is silent: every error reaches the caller of the generator",
 "Whenever reading, parsing, resolving, generating, formatting or writing fails, the failure ends the run: it is returned to the caller or reported as a panic, and is never discarded, replaced by a default or left in a variable nobody reads. In particular an error recorded while a visitor or a type replacement is running is reported once the visit is over.",
 ["inputs","fault_sequences"],"every input program, type map and file-system fault; every fallible call of the generator",
 "The tests feed a few dozen descriptions and never make a file operation fail; a swallowed error only shows as missing or wrong generated code for the input that triggers it.",
 [M+"lib.rs",M+"typemap.rs",M+"typemap/typemap_macro.rs",M+"java_jni/find_cache.rs",M+"file_cache.rs"],
 [("error propagation with ?",M+"lib.rs Generator::expand_str"),("recorded error of a visitor",M+"typemap/typemap_macro.rs ReplaceTypes::err, "+M+"java_jni/find_cache.rs JniCacheMacroCallsVisitor::errors")])
p("P02","A successful run writes every generated file, and rewrites only changed ones",
 "When a run succeeds, every output file it composed has been committed to disk with exactly the composed content. A file whose content on disk is already identical is not opened for writing, and a run never writes output files in any other way.",
 ["inputs","histories","fault_sequences"],"every run, every set of declarations, every previous content of the output directory",
 "Tests start from an empty or unrelated output directory and look at a few files; nothing checks modification times, and an output that is composed but not committed on one branch only shows for the declaration kind that takes it.",
 [M+"file_cache.rs",M+"lib.rs",M+"cpp/mod.rs",M+"cpp/fclass.rs",M+"java_jni/mod.rs"],
 [("content cache with compare-before-write",M+"file_cache.rs FileWriteCache"),("commit calls",M+"cpp/*.rs, "+M+"java_jni/*.rs update_file_if_necessary")])
p("P03","Clean-up deletes only stale files of the output folder and only when asked",
 "The generator deletes a file only if the user switched on removal of not generated files, only inside the configured output directory, only for files with the extension of the backend's own output, and never a file that the same run generated.",
 ["inputs","histories","configurations"],"every previous content of the output directory, every configuration and every set of generated files",
 "Tests use fresh output directories; the case of a directory with the user's own files next to generated ones is not exercised for all item kinds, and a wrong filter destroys user data.",
 [M+"cpp/mod.rs",M+"java_jni/mod.rs",M+"lib.rs"],
 [("remove_files_if with a filter on path and registered files",M+"lib.rs, "+M+"cpp/mod.rs, "+M+"java_jni/mod.rs")])
p("P04","Generated output is a deterministic function of the inputs",
 "Two runs of the generator on the same sources, type maps and configuration produce byte for byte the same files. Nothing random, time-, address- or process-dependent and no iteration order of a randomly seeded container influences generated text, chosen conversions or names.",
 ["inputs","histories"],"every input and every pair of runs",
 "A test compares one run with an expectation containing a few lines; order that differs between processes makes builds flicker rarely and passes any sampled run.",
 [M+"typemap.rs",M+"cpp/mod.rs",M+"java_jni/mod.rs",M+"typemap/ty.rs"],
 [("deterministic hash maps (FxHash) and index-ordered graphs",M+"typemap.rs")])
p("P05","A cached type conversion never outlives the rules it was computed from",
 "The answer to 'how does this Rust type map to the foreign language and back' always reflects all type-conversion rules known at that moment: after any change of the rules or of the set of known types that can affect an answer, the next question is answered from the new rules and not from an answer remembered earlier.",
 ["histories","inputs"],"every order of merging type maps, registering classes, enums and callbacks, and querying conversions",
 "Tests merge all type maps first and query afterwards; staleness needs a query between two changes for the same type.",
 [M+"typemap.rs",M+"typemap/merge.rs"],
 [("conversion caches and their invalidation",M+"typemap.rs rust_to_foreign_cache, rust_from_foreign_cache, invalidate_conv_cache, invalidate_conv_for_rust_type")])
p("P06","A failed conversion search leaves the conversion graph unchanged",
 "Looking for a chain of conversions between two types tries generic rules by adding tentative types and conversions; when the search does not succeed everything it added is removed again, in an order that keeps all remaining indices valid, and a successful search keeps exactly what the found chain needs to stay valid. The search always terminates within its step bound.",
 ["inputs","histories"],"every type-map, every pair of types and every order of searches",
 "Leaked tentative edges only change the result of a later unrelated query; tests do one query per rule set.",
 [M+"typemap.rs"],
 [("graph snapshot with rollback on drop",M+"typemap.rs TypeGraphSnapshot"),("bounded search loop",M+"typemap.rs try_build_path")])
p("P07","A diagnostic points into the source text it was found in",
 "Every diagnostic that carries a position carries the identity of the very source text (user file or type map) from which the offending tokens were parsed, so that file, line and column printed to the user belong to the offending declaration; items passed from one source to another keep their own source identity.",
 ["inputs","programs"],"every erroneous declaration, in every source file or type map of a run with several sources",
 "Unit tests check that an error occurs, with a single source; a wrong source identity needs two sources and an error in the second.",
 [M+"error.rs",M+"code_parse.rs",M+"typemap/parse.rs",M+"typemap/typemap_macro.rs",M+"source_registry.rs"],
 [("source identity carried by declarations and types",M+"error.rs DiagnosticError::new, "+M+"types.rs src_id")])
p("P08","Code that is not flapigen's passes through; every flapigen item is expanded",
 "Every item of a processed source file is either a flapigen macro call, which is parsed and expanded (or rejected with an error), or is copied unchanged and in order to the generated Rust file. No item, declared method, enum variant, callback method, attribute or keyword of a declaration is skipped without an error.",
 ["inputs","programs"],"every source file and every declaration",
 "Tests check for the presence of a few lines; a dropped item or method of an untested kind leaves no trace in them.",
 [M+"lib.rs",M+"code_parse.rs",M+"cpp/mod.rs",M+"java_jni/mod.rs",M+"python/mod.rs"],
 [("dispatch over items",M+"lib.rs Generator::expand_str"),("expansion loops over methods and variants",M+"cpp/fclass.rs, "+M+"java_jni/fclass.rs, "+M+"python/mod.rs")])
p("P09","Contradictory declarations are rejected, all others understood as written",
 "A class, enum or callback declaration that contradicts itself is rejected with a diagnostic, never accepted with a part of it dropped and never answered with a panic: a constructor without self type, a self type without constructor, two self types, a method with self in a class without self type, an empty constructor that is not private, that stands beside another constructor or without a self type, constructors without result or of different types, a self argument that is not the first or belongs to a constructor, duplicate or pattern argument names, an unnamed argument of an inline function, an alias on a constructor or inline function, two access levels, an access level or an attribute other than documentation on what is not a function, Copy without a clone method (Java, C++), SmartPtrCopy of a class that is not stored as Rc or Arc (Java, C++) or that has a clone method (C++), an unknown derive, attribute, keyword or kind of item, a callback without self_type, with a method whose first argument is not self, or with a self type bound that is not Send, Sync or a lifetime. A declaration without contradiction is accepted, and each function keeps the name, alias, access, kind, kind of self and arguments it was declared with; the handler registered for a derive is called for each declaration that has it.",
 ["inputs","programs"],"every class, enum and callback declaration in every back end",
 "Tests contain only a few malformed declarations and mostly for one back end; what is silently dropped depends on the order of items.",
 [M+"code_parse.rs",M+"cpp/mod.rs",M+"java_jni/mod.rs",M+"python/mod.rs",M+"types.rs",M+"extension.rs"],
 [("parser of declarations",M+"code_parse.rs do_parse_foreigner_class, parse for ForeignEnumInfo and ForeignInterface"),("validation of class descriptions",M+"types.rs ForeignClassInfo, "+M+"cpp/mod.rs, "+M+"java_jni/mod.rs, "+M+"python/mod.rs register_class"),("derives and attributes",M+"extension.rs extend_foreign_class, extend_foreign_enum")])
p("P10","Numeric conversions never change a value silently",
 "In the glue of the Java and the C++ back ends (64-bit targets), an integer, boolean or floating point value that crosses the language border - plain, inside an Option, or as the length of a string, a slice or a Vec - either arrives as the same number or the conversion fails visibly (a checked conversion that panics or throws); it is never truncated, wrapped, clamped, rounded or sign-changed silently, in Rust, in C++ or in Java code.",
 ["inputs"],"every value of every numeric type accepted by a built-in conversion rule of the Java and C++ back ends",
 "Tests pass small numbers; truncation and sign change need values outside the narrower type's range.",
 [M+"java_jni/jni-include.rs",M+"cpp/cpp-include.rs",M+"cpp/fclass.rs"],
 [("checked integer conversions",M+"java_jni/jni-include.rs"),("same-width primitive type maps",M+"cpp/cpp-include.rs")])
p("P11","Both sides of the border agree on the representation of every shared type",
 "For every primitive type, C-compatible struct, union, tag and callback table that both generated Rust code and generated foreign code declare, the two declarations agree in number, order, width, signedness and type of their members and in tag values, and initialisers on either side give each member the value meant for it.",
 ["inputs","configurations","programs"],"every built-in type mapping and every configuration option that selects a different representation",
 "Only compiling and running foreign code against the Rust library on every platform would show a mismatch; the foreign C++ tests are not built here and tests cover few of the instances.",
 [M+"cpp/cpp-include.rs",M+"cpp/fclass.rs",M+"cpp/finterface.rs",M+"java_jni/jni-include.rs",M+"java_jni/map_type.rs"],
 [("paired r_type / define_c_type declarations",M+"cpp/cpp-include.rs"),("callback struct",M+"cpp/finterface.rs")])
p("P12","C++ optional, result and configuration variants convert with the same meaning",
 "For every optional, result, tuple and bool conversion of the C++ back end the side that has a value, an Ok or an Err is decided by the same tag on both sides of the border, the payload is read only under the tag that makes it valid, and all alternative renderings of one conversion that a configuration option selects (library of optional, variant and string view type) have the same meaning.",
 ["inputs","configurations"],"every built-in C++ optional and result conversion, every configuration of the backend and both values of the tag",
 "Tests build one configuration and check few type instances; an inverted or misplaced tag in another arm is not reached.",
 [M+"cpp/cpp-include.rs",M+"java_jni/jni-include.rs",M+"java_jni/fclass.rs"],
 [("Option/Result type maps",M+"cpp/cpp-include.rs, "+M+"java_jni/jni-include.rs")])
p("P13","C++ handles release the Rust object they own exactly once",
 "Every C++ object that owns a Rust allocation (class wrappers, strings, vectors of values and of objects) frees it exactly once over any sequence of construction, copy, move, assignment, self-assignment, swap, release, clear and destruction; after a move or release the source owns nothing, and a non-owning reference never frees.",
 ["histories","inputs"],"every sequence of special member functions and ownership-transferring methods on the owning C++ types",
 "The C++ tests are not built in the test suite; the Rust tests only look for fragments of generated text.",
 [M+"cpp/fclass.rs",M+"cpp/cpp-include.rs",M+"cpp/rust_vec_impl.hpp",M+"cpp/rust_foreign_vec_impl.hpp",M+"cpp/rust_vec_access.hpp"],
 [("move constructors, assignment, free_mem",M+"cpp/fclass.rs generated class, "+M+"cpp/*.hpp")])
p("P14","C++ containers address elements exactly within their bounds",
 "Indexing, iteration, first and last access, size and emptiness of the C++ views of Rust sequences refer to the element at base plus index times element stride and to nothing outside the sequence, and the index-checked containers assert the bound before the access. Iterators obey the random access laws: difference, comparison, increments and offsets agree with each other.",
 ["inputs","histories"],"every container instance, length, stride and index",
 "The headers are only text to the test suite; off-by-one and stride errors need multi-element containers used from compiled C++.",
 [M+"cpp/rust_foreign_slice_iter.hpp",M+"cpp/rust_foreign_slice_impl.hpp",M+"cpp/rust_foreign_vec_impl.hpp",M+"cpp/rust_vec_impl.hpp",M+"cpp/rust_slice_tmpl.hpp",M+"cpp/rust_slice_access.hpp",M+"cpp/rust_vec_access.hpp"],
 [("iterator arithmetic",M+"cpp/rust_foreign_slice_iter.hpp")])
p("P15","Buffers handed across the C++ border are rebuilt from the same parts once",
 "A Rust string, vector or slice passed to C++ as raw parts is taken apart without being freed, carries pointer, length, capacity (and element stride) each in its own place, and is rebuilt on the way back with the same parts and element type exactly once: never freed twice, leaked, or rebuilt with length and capacity confused. After in-place changes the parts seen by C++ are the current ones.",
 ["inputs","histories"],"every string, vector and slice crossing the C++ border, for any length and capacity",
 "Tests do not run the C++ side; length/capacity confusion and double frees are invisible for vectors whose length equals capacity.",
 [M+"cpp/cpp-include.rs"],
 [("CRustString, CRustVec, CRustForeignVec, slices",M+"cpp/cpp-include.rs")])
p("P16","An object's heap handle is created and consumed by matching operations",
 "A Rust object that crosses the border as an opaque handle is boxed into raw form once when it leaves and is taken back by the inverse operation for the same smart pointer and the same type, exactly once, when it is destroyed or passed by value; passing by reference neither consumes nor frees the object, and a shared object's reference count is kept balanced. This covers the C++ and Java back ends: the functions, conversions and trait implementations generated for a class, and the built-in helpers that box or unbox objects of any class.",
 ["inputs","histories","programs"],"every declared class and every self type (plain, Box, Rc, Arc, with Mutex or RefCell inside), each argument and return position",
 "Double free or leak depends on the combination of self type and position and on the call sequence; tests exercise a handful and do not run a leak checker.",
 [M+"typemap/utils.rs",M+"cpp/fclass.rs",M+"cpp/map_class_self_type.rs",M+"java_jni/fclass.rs",M+"java_jni/map_class_self_type.rs"],
 [("convert_to_heap_pointer / unpack_from_heap_pointer",M+"typemap/utils.rs")])
p("P17","Glue checks a handle coming from foreign code before it dereferences it",
 "Generated and built-in Rust glue dereferences or takes back a class handle, callback table or object pointer received from the foreign side only after a check that it is not null: methods, destructors and conversions of a class check the handle they receive, built-in helpers check object pointers and pass no null object reference to a JNI function that does not accept one. For the C functions that release or clone a C++ object the check is made by the generated C++ class before it calls them, and its constructors refuse to create an object when Rust returns a null handle (the explicit constructor from a raw handle excepted).",
 ["inputs","histories"],"every exported method, destructor, conversion and callback, for handles that are null (released, moved from, deleted)",
 "Tests never call through a null handle.",
 [M+"cpp/fclass.rs",M+"cpp/cpp-include.rs",M+"cpp/map_class_self_type.rs",M+"java_jni/fclass.rs",M+"java_jni/jni-include.rs",M+"java_jni/map_class_self_type.rs"],
 [("assert on null pointers in generated code",M+"cpp/map_class_self_type.rs, "+M+"java_jni/map_class_self_type.rs")])
p("P18","Callback objects: table order, single release, no use after release",
 "For a callback implemented in C++ the function table declared in C, the Rust struct that mirrors it and the initialiser that fills it list the same functions in the same order with the same parameters; the object is released exactly once, by the release function of its own table, when Rust drops it, and not at all when it was only lent.",
 ["programs","histories"],"every callback declaration with any number of methods, and every life of a callback object",
 "The C++ side is not compiled in the tests; swapped entries with equal signatures pass even compilation.",
 [M+"cpp/finterface.rs",M+"cpp/cpp-include.rs"],
 [("callback table generation",M+"cpp/finterface.rs")])
p("P19","JNI resources acquired by the glue are released exactly once on every path",
 "Every JNI resource that a built-in helper, guard type or conversion rule of the Java back end acquires (string characters, array elements, global references, local references created in loops or as private copies, thread attachment) is released exactly once, by the matching release operation with the values of the acquisition, on every path that returns, and is not used after; array elements that were only read are not written back, and nothing that belongs to the caller is released.",
 ["inputs","fault_sequences","histories"],"every call of a built-in JNI helper with any input, including pending exceptions and failures",
 "The JVM does not report leaks in the tests and they use few elements; release on error paths is never taken.",
 [M+"java_jni/jni-include.rs",M+"java_jni/mod.rs"],
 [("RAII wrappers JavaString, Java*Array, JniEnvHolder",M+"java_jni/jni-include.rs")])
p("P20","Java exceptions raised inside glue are noticed before JNI is used again",
 "After each JNI call that can run Java code or raise an exception a built-in helper, guard type or conversion rule of the Java back end checks for a pending exception or a null result before it uses the result or makes a further JNI call that is not allowed with a pending exception; when the glue itself raises an exception it returns to Java at once with a dummy value and without touching results.",
 ["inputs","fault_sequences"],"every built-in JNI helper and conversion rule, when any JNI call fails or throws",
 "Failing JNI calls (out of memory, throwing accessors) do not happen in the tests.",
 [M+"java_jni/jni-include.rs"],
 [("ExceptionCheck after calls",M+"java_jni/jni-include.rs"),("jni_throw_exception with dummy return",M+"java_jni/jni-include.rs")])
p("P21","JNI class, method and field references resolve in Java and match their use",
 "Every Java class, method and field that a built-in JNI helper or conversion rule, or the glue generated for a class or an enum, looks up by name and signature exists with that signature in the Java platform or in the Java code that the generator emits, is static or not as looked up, is used through the JNI function of its kind and result type with as many arguments of the types the signature has and with the class or object it was looked up for; one cached identifier stands for one class or member, and JNI_OnLoad looks up and JNI_OnUnload releases what the macros name.",
 ["inputs","programs"],"every built-in helper and conversion rule, every generated class and enum, every set of cached identifiers",
 "A wrong descriptor fails only at run time when that helper is first used; the Java tests use a part of them.",
 [M+"java_jni/jni-include.rs",M+"java_jni/find_cache.rs",M+"java_jni/rust_code.rs",M+"java_jni/fclass.rs",M+"java_jni/fenum.rs",M+"java_jni/finterface.rs"],
 [("swig_jni_find_class and swig_jni_get_*_id macros",M+"java_jni/jni-include.rs, "+M+"java_jni/find_cache.rs")])
p("P22","The Java peer frees its native object exactly once and never uses it after",
 "The generated Java class destroys its native object at most once however delete, finalisation and repeated deletes from several threads interleave; only delete frees it, after it was destroyed or passed by value its handle is zero, a handle that comes from Rust is owned by exactly one new Java object, and an object whose handle a native call gets is kept reachable until that call has returned.",
 ["schedules","histories"],"every generated class, every interleaving of delete, finalisation and calls",
 "Needs garbage collection or a second thread at a particular moment; the tests are single threaded.",
 [M+"java_jni/fclass.rs",M+"java_jni/map_class_self_type.rs",M+"java_jni/map_type.rs"],
 [("delete/finalize and by value argument code",M+"java_jni/fclass.rs")])
p("P23","Exported JNI symbols are the names the Java virtual machine looks for",
 "For every native method the generated Java text declares (of classes, including delete and finalize, and of the reachability fence), the generated Rust library exports exactly one function whose name is the JNI mangling of package, class and method name ('_' as _1, '/' as _, ';' as _2, '[' as _3), with the mangled argument signature appended exactly when the name is overloaded among the native methods of that class, and whose parameters and return type are the JNI types of the declared Java types, in order; no exported function lacks its native method; and the signature the generator assumes for a Java type is that type's descriptor.",
 ["programs","inputs"],"every package, class and method name and every argument and return type",
 "Linking happens at run time per method; tests do not use names with underscores, overloads or arrays in all combinations.",
 [M+"java_jni/rust_code.rs",M+"java_jni/fclass.rs",M+"java_jni/map_type.rs"],
 [("generate_jni_func_name and signature mangling",M+"java_jni/rust_code.rs, "+M+"java_jni/fclass.rs")])
p("P24","Rust to Java callbacks call the declared method and survive exceptions",
 "For every callback interface: the generated Java interface declares each method with its name and its types in order; a call of a trait function from Rust invokes, exactly once, the method declared for it (looked up by that name and JNI signature in the class of the object) on a global reference to the registered object, with the arguments in order, promoted to what a variadic C call passes (int for boolean, byte and short, double for float), with the Call<Type>Method of its result type, whose converted result is returned; it runs in the environment of the calling thread, which is attached first if it is not attached and detached afterwards exactly if it was attached for the call; and an exception thrown by the callback is described and cleared before any conversion, further JNI call or return.",
 ["programs","schedules","fault_sequences"],"every callback declaration, any thread, and callbacks that throw",
 "Tests have few callback shapes and never throw from one on a foreign thread.",
 [M+"java_jni/finterface.rs",M+"java_jni/rust_code.rs",M+"java_jni/jni-include.rs"],
 [("method id vector and call generation",M+"java_jni/finterface.rs")])
p("P25","Enum values keep their identity across the border, and others are rejected",
 "In every backend, the number that stands for an enum variant on the foreign side is the same as on the Rust side for conversions in both directions and for every declared variant, and a number that stands for no variant is rejected visibly instead of becoming some variant.",
 ["inputs","programs"],"every enum declaration, every variant and every number",
 "Tests have two enums with few variants and never pass a wrong number.",
 [M+"cpp/fenum.rs",M+"java_jni/fenum.rs",M+"python/mod.rs"],
 [("index based mapping in both directions",M+"cpp/fenum.rs, "+M+"java_jni/fenum.rs, "+M+"python/mod.rs generate_enum_code")])
p("P26","Python class conversions respect ownership of the wrapped Rust object",
 "In Python glue, a method or argument gets a mutable reference to a shared Rust object only through its lock, gets it by value only through a declared clone, gets a shared pointer only by counting a new reference, and a returned object is wrapped with the storage its class was declared with; any other combination is rejected at generation time.",
 ["programs","inputs"],"every combination of declared storage (plain, Box, Arc, Mutex, Arc<Mutex>), argument or return position and reference kind",
 "The Python tests use a few of the combinations.",
 [M+"python/mod.rs"],
 [("storage kinds and deref generation",M+"python/mod.rs")])
p("P27","Python conversions map errors to exceptions and containers elementwise",
 "In Python glue an Err result always becomes a raised Python exception and never a value, a callable that returns a value returns the converted value, and optional values, sequences and tuples are converted element by element in order and in both directions with the conversion of the element type.",
 ["programs","inputs"],"every method signature made of supported types, both for Ok and Err and for present and absent values",
 "Python tests have few nested types; a wrong element order or swallowed error in an untested nesting is not seen.",
 [M+"python/mod.rs",M+"python/python-include.rs"],
 [("type conversion generation",M+"python/mod.rs")])
p("P28","Generated identifiers are unique and overloads stay distinguishable",
 "Every name the generator invents (C function, type alias, temporary, cached class or method identifier, unique type suffix) is different from every other name in the same scope, including names given by the user, and different types never share one identity in the type map.",
 ["programs","inputs"],"every set of declarations, including names that coincide with invented ones",
 "Collisions need particular user names or argument names.",
 [M+"namegen.rs",M+"typemap/ty.rs",M+"typemap.rs",M+"cpp/fclass.rs",M+"java_jni/find_cache.rs"],
 [("new_unique_name with the set of known names",M+"namegen.rs")])
p("P29","The declared type rule is the rule applied, and ambiguity is an error",
 "When user and built-in type maps define a conversion, a conversion for the exact type takes precedence over generic ones, a generic rule is used only when its trait bounds hold for the substituted types, conditional parts are selected by the configuration, contradictory or multiple applicable parts are an error, and redefinition of a conversion by a later type map either replaces the earlier completely or is refused.",
 ["inputs","configurations","histories"],"every set and order of type maps and every configuration",
 "Tests merge few overlapping rules.",
 [M+"typemap.rs",M+"typemap/merge.rs",M+"typemap/typemap_macro.rs",M+"typemap/ast.rs"],
 [("rule merge and generic applicability",M+"typemap/merge.rs, "+M+"typemap/ast.rs, "+M+"typemap/typemap_macro.rs")])
p("N01","Generated Rust, C++, Java and Python code always compiles",
 "For every accepted set of declarations the generated code of both sides compiles without errors against each other.",
 ["programs"],"every accepted declaration and type map",
 "Tests compile the few sample crates.",
 [M+"cpp/mod.rs",M+"java_jni/mod.rs",M+"python/mod.rs"],[("code generation",M+"*")])
p("N02","Values round-trip through the border at run time",
 "A value sent through a declared method in both directions arrives equal to the one sent, for all declared types and conversions, including user-defined type maps.",
 ["inputs","programs"],"every value and every user-defined conversion",
 "Tests send sample values.",
 [M+"cpp/cpp-include.rs",M+"java_jni/jni-include.rs",M+"python/mod.rs"],[("type maps",M+"typemap.rs")])
p("N03","The generator finishes in reasonable time on every input",
 "Resolution of conversions and expansion of macros take time polynomial in the size of the declarations and type maps.",
 ["inputs"],"every set of declarations and type maps",
 "Tests use small inputs.",
 [M+"typemap.rs"],[("conversion path search",M+"typemap.rs")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
