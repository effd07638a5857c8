#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
M = "macroslib/src/"
prop("P01", "Generation is a pure function of the descriptions and configuration",
 "Running the generator on the same description files with the same configuration always produces byte-identical Rust and foreign files: in any process, however often it is repeated in one process, in whatever directory the inputs and outputs live and whatever an earlier run left in the output directory. "
 "A run over inputs whose outputs are already up to date leaves every foreign file untouched (same contents, not rewritten).",
 ["programs", "histories", "configurations"],
 "All descriptions of the enumerated corpus, all back ends, every repetition, hash seed and location of the menu.",
 "Existing tests generate each description once and look for fragments of the output; none compares two runs, two processes or two locations.",
 [M+"lib.rs", M+"file_cache.rs", M+"typemap.rs", M+"cpp/mod.rs", M+"java_jni/mod.rs", M+"java_jni/find_cache.rs", M+"python/mod.rs"],
 [("expansion pipeline", M+"lib.rs Generator::expand_many"), ("write-if-changed cache", M+"file_cache.rs FileWriteCache::update_file_if_necessary"),
  ("ordered/hashed collections feeding the output", M+"typemap.rs, java_jni/rust_code.rs generate_load_unload_jni_funcs")])
prop("P02", "Every run reconciles the output directory, also after a crash or failed write",
 "Whatever the output directory holds when a run starts (nothing, stale, truncated or damaged generated files, files of other descriptions, files that are not ours, or what a run killed or refused a write at any point left behind), a run that reports success leaves every file it generates exactly as a run into an empty directory would. "
 "With removal of files that are no longer generated switched on, exactly the leftover files of the back end's own kinds directly in the output directory disappear and nothing else does; without it nothing is ever removed. "
 "A run during which a write fails never reports success.",
 ["histories", "crash_points", "fault_sequences"],
 "All sequences of runs, edits, removals and damages up to the bound over the abstract directory states; every file operation of a run as kill point, torn-write point and failing-write point.",
 "No existing test runs the generator twice into one directory, pre-populates it, or makes a write fail.",
 [M+"file_cache.rs", M+"typemap/utils.rs", M+"cpp/mod.rs", M+"java_jni/mod.rs", M+"lib.rs"],
 [("write-if-changed cache", M+"file_cache.rs"), ("stale file removal", M+"typemap/utils.rs remove_files_if"), ("set of generated files", M+"cpp/mod.rs, java_jni/mod.rs")])
prop("P03", "C++: every Rust object is owned exactly once",
 "Under every sequence of uses of the generated C++ classes (construct, move, copy, self-safe assignment, release and re-adopt, pass by value or by reference, return by value, by optional, result or borrowed view, store in containers, destroy), each underlying Rust object is destroyed exactly once, at the point where its owner goes away, and never used afterwards. "
 "A copy of a copyable class is an independent equal object, a copy of a shared class denotes the same object, a borrowed view never destroys what it views, and a moved-from or released wrapper is empty.",
 ["histories"],
 "All operation sequences up to the bound over two or three wrapper slots for each ownership flavour (plain, Copy, Clone, shared smart pointer, boxed).",
 "The stable tests only compare generated text for the C++ back end; the repository's C++ driver samples single histories and is not part of them.",
 [M+"cpp/fclass.rs", M+"cpp/map_class_self_type.rs", M+"typemap/utils.rs", M+"cpp/cpp-include.rs"],
 [("generated wrapper class", M+"cpp/fclass.rs generate"), ("box/unbox of self", M+"typemap/utils.rs convert_to_heap_pointer"), ("class argument and return conversions", M+"cpp/map_class_self_type.rs")])
prop("P04", "C++: Rust vectors, slices and strings behave like the standard containers",
 "The C++ view of Rust vectors (of primitives and of exported classes), slices, mutable slices and strings agrees with a plain sequence under every sequence of their operations: size, emptiness, indexing, iteration and iterator arithmetic and comparison, push, remove, reserve, clear, move, swap, copy, conversion to std types and views, and crossing back into Rust. "
 "No such sequence leaks, double-frees or touches freed memory, and default-constructed or moved-from ones behave as empty.",
 ["histories", "inputs"],
 "All operation sequences up to the bound over the container kinds, with element counts around the capacity boundaries, against a list model.",
 "The stable tests never execute this C++ code; the sample program touches one or two calls of it.",
 [M+"cpp/rust_vec_impl.hpp", M+"cpp/rust_foreign_vec_impl.hpp", M+"cpp/rust_foreign_slice_impl.hpp", M+"cpp/rust_foreign_slice_iter.hpp", M+"cpp/rust_slice_tmpl.hpp", M+"cpp/rust_slice_access.hpp", M+"cpp/rust_vec_access.hpp", M+"cpp/cpp-include.rs"],
 [("C++ templates", M+"cpp/*.hpp"), ("Rust side of the containers", M+"cpp/cpp-include.rs CRustVec, CRustForeignVec, CRustSlice, RustString")])
prop("P05", "C++: values cross the boundary unchanged",
 "Every value of every supported type (integers, floats, booleans, characters, strings and string views, paths, C structures, tuples, vectors and slices, options, results, classes by value and by reference, and their supported nestings) arrives on the other side as the same value when passed as an argument, returned, or returned inside an option, result or tuple, for every choice of C++ standard flavour. "
 "Absent stays absent, failure stays failure and carries its error, and argument order is preserved.",
 ["inputs", "configurations", "programs"],
 "All types of the type matrix in all positions, with all boundary values of each type, under all configurations of optional, variant and string view.",
 "The stable tests only compare generated text for C++; no value ever crosses.",
 [M+"cpp/cpp-include.rs", M+"cpp/map_type.rs", M+"cpp/fclass.rs", M+"cpp/mod.rs", M+"typemap.rs"],
 [("built-in C++ conversion rules", M+"cpp/cpp-include.rs"), ("type mapping", M+"cpp/map_type.rs"), ("method glue", M+"cpp/fclass.rs")])
prop("P06", "C++: callbacks deliver each call faithfully and are released once",
 "For every sequence of calls made from Rust on a callback implemented in C++, each call reaches exactly the corresponding method with the same arguments in the same order, and the value the C++ side returns is what Rust receives. "
 "The C++ callback object stays alive while Rust holds it and is destroyed exactly once, when Rust drops it, on whichever thread that happens.",
 ["histories", "schedules", "inputs"],
 "All call sequences up to the bound over interfaces with every argument and return kind; all hand-over and drop points of the callback, including other threads.",
 "No stable test executes a C++ callback.",
 [M+"cpp/finterface.rs", M+"cpp/cpp-include.rs", M+"cpp/map_type.rs"],
 [("callback table and its C++ adapter", M+"cpp/finterface.rs"), ("release hook", M+"cpp/finterface.rs")])
prop("P07", "Java: every Rust object is owned exactly once",
 "Under every sequence of uses of the generated Java classes (construct, call, pass by value or by reference, by optional, in arrays, return in every form, delete repeatedly, garbage collection), each underlying Rust object is destroyed exactly once and never used after that; passing by value empties the Java object unless the class is copyable or shared (an optional argument always empties it). "
 "This holds also when several threads delete the same object or when the collector runs during a native call that still uses an argument, and using an emptied object stops loudly instead of touching freed memory.",
 ["histories", "schedules"],
 "All operation sequences up to the bound over two object slots per ownership flavour; all interleavings of threads deleting and finalizing at every field access, lock and native call of the generated classes; the collector at every such point of every method of a signature matrix.",
 "The stable Java tests run a fixed script per feature; they count no destructions, delete once, and never pause inside a native call.",
 [M+"java_jni/fclass.rs", M+"java_jni/map_class_self_type.rs", M+"java_jni/jni-include.rs", M+"typemap/utils.rs"],
 [("generated class, delete and finalizer", M+"java_jni/fclass.rs generate_java_code"), ("class conversions", M+"java_jni/map_class_self_type.rs"), ("reachability fences", M+"java_jni/fclass.rs convert_code_for_method")])
prop("P08", "Java: values cross the boundary unchanged or are refused",
 "Every value of every type supported for Java (all integer widths, floats, booleans, strings of any Unicode text, paths, dates, arrays, options of each kind, classes, enumerations, results) crosses in both directions unchanged and with argument order preserved, for static methods, methods, constructors and overloads. "
 "An error returned by Rust becomes a Java exception with exactly the error's text, an absent value becomes the documented absent form, and a Java value outside the range of the Rust type is never silently turned into another value.",
 ["inputs", "programs"],
 "All types of the type matrix in all positions with all boundary values of each type.",
 "The stable Java tests exercise one or two values per type.",
 [M+"java_jni/jni-include.rs", M+"java_jni/fclass.rs", M+"java_jni/map_type.rs", M+"java_jni/rust_code.rs"],
 [("built-in JNI conversion rules", M+"java_jni/jni-include.rs"), ("method glue", M+"java_jni/fclass.rs"), ("native symbol names", M+"java_jni/rust_code.rs generate_jni_func_name")])
prop("P09", "Java: the native glue keeps the JNI rules even when the JVM refuses requests",
 "Whatever JNI requests the JVM refuses or fails (allocation, string and array access, references, attach, calls that throw), the generated native code never uses the missing result, makes no call that is forbidden while an exception is pending, releases every string and array it obtained exactly once, and never uses a deleted reference. "
 "When nothing fails, everything it obtained is given back: global references balance once objects and callbacks are gone, and every thread it attached is detached again.",
 ["fault_sequences", "histories"],
 "All exported native entry points of the glue, with every single (and, deeper, every pair of) JNI request of each execution made to fail.",
 "The stable tests run on a healthy JVM, which never refuses a request.",
 [M+"java_jni/jni-include.rs", M+"java_jni/finterface.rs", M+"java_jni/rust_code.rs"],
 [("string, array and object helpers", M+"java_jni/jni-include.rs"), ("attach/detach guard", M+"java_jni/jni-include.rs JniEnvHolder"), ("class cache at load/unload", M+"java_jni/rust_code.rs generate_load_unload_jni_funcs")])
prop("P10", "Java: callbacks deliver each call faithfully from any thread",
 "For every sequence of calls made from Rust on a callback implemented in Java, from the calling thread or from threads unknown to the JVM, each call reaches exactly the corresponding method with the same arguments in the same order, and the value the Java side returns is what Rust receives. "
 "An exception thrown by a callback is contained: it neither leaks into later calls nor prevents them, and the callback object becomes collectable once Rust has dropped it.",
 ["histories", "schedules", "inputs"],
 "All call sequences up to the bound over interfaces with every argument and return kind, on every assignment of the calls to the JVM thread and to native threads, with and without exceptions.",
 "The stable Java tests call each callback once from the main thread.",
 [M+"java_jni/finterface.rs", M+"java_jni/jni-include.rs"],
 [("callback adapter", M+"java_jni/finterface.rs generate_rust_code_for_interface"), ("JVM attachment", M+"java_jni/jni-include.rs JavaCallback")])
prop("P11", "Enumerations map one to one in every target language",
 "For every enumeration description (any number and order of items, any Rust discriminants, renamed items), each item maps to the same item on the other side in both directions, alone and inside options, results, vectors of arguments, callbacks and struct-like positions, and distinct items stay distinct. "
 "A foreign value that names no item is rejected, never mapped to some item.",
 ["programs", "inputs"],
 "All enumeration shapes up to the bound, all items, all out-of-range codes of the menu, for C++, Java and Python.",
 "The stable tests use two fixed enumerations with default discriminants.",
 [M+"cpp/fenum.rs", M+"java_jni/fenum.rs", M+"python/mod.rs", M+"java_jni/jni-include.rs", M+"cpp/cpp-include.rs", M+"code_parse.rs"],
 [("enum glue", M+"cpp/fenum.rs, java_jni/fenum.rs, python/mod.rs generate_enum"), ("enum in option", M+"java_jni/jni-include.rs, cpp/cpp-include.rs")])
prop("P12", "Python: classes and values behave like their Rust originals",
 "Every value of every type supported for Python (numbers, booleans, strings, options, vectors and slices, tuples, results, classes, enumerations) crosses in both directions unchanged with argument order preserved, out-of-range integers and ill-typed arguments raise instead of being altered, and a Rust error becomes the module's exception carrying the whole error chain. "
 "Under every sequence of operations on Python wrappers, the wrapped Rust object keeps one identity or copy as its storage kind promises and is destroyed exactly once, after its last holder is gone.",
 ["inputs", "histories"],
 "All types of the type matrix with all boundary values; all operation sequences up to the bound over the storage kinds.",
 "The stable Python tests call each feature with one value.",
 [M+"python/mod.rs", M+"python/python-include.rs"],
 [("argument and return conversion", M+"python/mod.rs"), ("storage of the wrapped object", M+"python/mod.rs PointerType")])
prop("P13", "Methods reach the right object however it is stored",
 "For every way a class can store its Rust object (directly, boxed, or behind each supported combination of shared pointer, cell and lock, and for Java with fallible or infallible construction) and every receiver form a method can take, a method called from the foreign side runs the designated Rust function on the designated object with its arguments in order; mutations are visible to every later call through every handle on that object and to no other object, and any borrow or lock taken for a call is released when it returns.",
 ["programs", "histories"],
 "All combinations of storage kind, receiver form, construction form and call sequence up to the bound, for C++ and Java.",
 "The stable tests cover a handful of the combinations, mostly as text comparisons.",
 [M+"typemap.rs", M+"typemap/utils.rs", M+"cpp/fclass.rs", M+"java_jni/fclass.rs", M+"cpp/cpp-include.rs", M+"java_jni/jni-include.rs"],
 [("self conversion path", M+"typemap/utils.rs create_suitable_types_for_constructor_and_self, typemap.rs convert_rust_types"), ("smart pointer dereference rules", M+"cpp/cpp-include.rs, java_jni/jni-include.rs")])
prop("P14", "User conversion rules are honoured and composed correctly",
 "A conversion rule supplied by the user is used for the types it names and overrides the built-in rule for the same type, conditional rules take effect exactly when their condition holds for the configuration, and generic rules apply exactly to types meeting their bounds. "
 "When no single rule suffices, the rules applied in sequence convert the value by a chain from the source to the target type, each step receiving the previous step's result; the outcome does not depend on the order in which unrelated items are declared or on earlier failed or successful look-ups.",
 ["programs", "configurations"],
 "All small rule sets (direct, chained, generic, overriding, conditional) times all declaration orders times use positions up to the bound.",
 "The stable tests hold one or two rule examples each in a single order and never run the resulting code.",
 [M+"typemap.rs", M+"typemap/merge.rs", M+"typemap/ast.rs", M+"typemap/typemap_macro.rs", M+"typemap/parse.rs", M+"typemap/utils.rs"],
 [("rule merging", M+"typemap/merge.rs"), ("conversion path search and rollback", M+"typemap.rs"), ("generic rule substitution", M+"typemap/typemap_macro.rs, typemap/ast.rs"), ("conditions", M+"typemap/utils.rs configure_ftype_rule")])
prop("P15", "The foreign API is exactly the one described",
 "For every description, the generated foreign API consists of exactly the described classes, constructors, methods, enumerations and interfaces: each under its declared or aliased name (with camel-case conversion when asked for), with its described visibility, static or instance nature, constness, argument names and order, documentation, verbatim foreign code, and package, namespace or module. "
 "Each foreign method calls the Rust function it was declared for, also among overloads, aliases and similar names, and generated helper names never capture or clash with user-chosen ones.",
 ["programs"],
 "All descriptions built from the feature menu up to the bound, for C++, Java and Python, compared with a model of the description through reflection, symbol tables and calls.",
 "The stable tests check text fragments for one description per feature, not combinations.",
 [M+"code_parse.rs", M+"types.rs", M+"namegen.rs", M+"cpp/fclass.rs", M+"cpp/cpp_code.rs", M+"java_jni/fclass.rs", M+"java_jni/java_code.rs", M+"java_jni/rust_code.rs", M+"python/mod.rs"],
 [("description parser", M+"code_parse.rs"), ("names", M+"namegen.rs, types.rs short_name"), ("foreign class writers", M+"cpp/fclass.rs, java_jni/fclass.rs")])
prop("P16", "Invalid descriptions are refused with the place of the mistake",
 "Every description that breaks a rule of the description language or uses a type without a conversion is refused: the run fails, says so on the error stream naming the offending file, and leaves the Rust output file as it was. "
 "When the mistake is syntactic or concerns one item, the reported line lies inside that item, also when the item is not the first, is preceded by other text, or sits in a later one of several input files.",
 ["programs"],
 "All single-fault mutations of the menu, at every item position and in every input-file position, for every back end they concern.",
 "The stable tests check that a dozen malformed inputs panic, not where the error points, nor that nothing was written.",
 [M+"error.rs", M+"lib.rs", M+"code_parse.rs", M+"source_registry.rs", M+"types.rs", M+"typemap/typemap_macro.rs", M+"cpp/map_type.rs", M+"java_jni/map_type.rs"],
 [("diagnostics", M+"error.rs"), ("parser checks", M+"code_parse.rs"), ("semantic checks", M+"types.rs, cpp/fclass.rs, java_jni/fclass.rs, python/mod.rs")])
prop("P17", "Attribute callbacks see every annotated item exactly once",
 "For C++ and Java, a callback registered for a class, method or enumeration attribute or derive is invoked exactly once for each item carrying it and for no other (for a C++ enumeration, once for each of the two modules generated for it), receives the text generated for that item and its name (for a method the class and the foreign name), and what it leaves there is what is written. "
 "An annotation that is neither built in nor registered for that kind of item makes the run fail. For Python, which has no such callbacks, a description with items of a kind for which one is registered is refused.",
 ["programs"],
 "All placements of the annotations of the menu on the items of a description, times all subsets of registered callbacks, for C++, Java and Python.",
 "The stable tests register one callback of each kind on one item.",
 [M+"extension.rs", M+"lib.rs", M+"code_parse.rs", M+"cpp/fclass.rs", M+"java_jni/fclass.rs", M+"cpp/fenum.rs", M+"java_jni/fenum.rs"],
 [("dispatch of annotations", M+"extension.rs"), ("registration", M+"lib.rs register_*_attribute_callback")])
prop("P18", "What is accepted compiles on both sides",
 "Whenever the generator accepts a description that names existing Rust items with the stated signatures, the generated Rust code and the generated foreign code both compile without edits, and link together: for every combination of supported type, position, storage kind and configuration, and for any order of items in which a class or enumeration is declared before or after its users where that is allowed.",
 ["programs", "configurations"],
 "All descriptions of the combination matrix up to the bound under all configurations of each back end.",
 "The stable tests compile two fixed descriptions (Java, Python) and one small C++ example; the text comparisons compile nothing.",
 [M+"lib.rs", M+"cpp/fclass.rs", M+"cpp/map_type.rs", M+"cpp/cpp_code.rs", M+"java_jni/fclass.rs", M+"java_jni/finterface.rs", M+"python/mod.rs", M+"typemap.rs"],
 [("Rust glue", M+"cpp/fclass.rs, java_jni/fclass.rs, python/mod.rs"), ("C++ headers and their includes", M+"cpp/cpp_code.rs, cpp/mod.rs")])
out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
