#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the list)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "rust::String/Str accept exactly valid UTF-8/UTF-16 and convert losslessly",
  "For every byte or UTF-16 code-unit sequence, constructing rust::String or rust::Str in C++ succeeds exactly when the input is well-formed, and then holds exactly the text Rust's standard library decodes from it; otherwise it throws std::invalid_argument and creates nothing. The lossy constructors never fail and yield exactly what Rust's from_utf8_lossy / from_utf16_lossy yield.",
  ["inputs"], "every byte sequence and every u16 sequence, through every constructor overload (std::string, NUL-terminated, pointer+length, char16_t, char8_t)",
  "Tests convert a handful of literals; the overlong, surrogate, truncated and boundary sequences are a large input space.",
  ["src/cxx.cc", "include/cxx.h", "src/symbols/rust_string.rs", "src/symbols/rust_str.rs"],
  [("initString/initString16", "src/cxx.cc"), ("string_from_utf8/utf16(_lossy)", "src/symbols/rust_string.rs"), ("str_from", "src/symbols/rust_str.rs")])

p("C02", "rust::String and rust::Str behave as value types over any history",
  "Over any sequence of construction, copy, move, assignment, swap, reserve, c_str, iteration and comparison, every rust::String and rust::Str has exactly the contents a plain text model predicts; copies are independent, moved-from objects stay usable, and no memory is leaked, double-freed or read out of bounds. Comparisons agree with Rust's ordering of the same text, capacity is at least the size and never below a requested reserve, and c_str is NUL-terminated with the same contents.",
  ["histories", "inputs"], "every sequence of operations over a pool of live String/Str objects and every text content",
  "The tests exercise each member function once on short ASCII literals; aliasing, moved-from reuse, reallocation and non-ASCII ordering are never combined.",
  ["src/cxx.cc", "include/cxx.h", "src/rust_string.rs", "src/symbols/rust_string.rs"],
  [("String members", "src/cxx.cc"), ("Str members", "src/cxx.cc"), ("reserve/c_str", "src/symbols/rust_string.rs")])

p("C03", "rust::Vec<T> in C++ behaves like a growable array shared with Rust",
  "Over any interleaving of C++ and Rust operations on a rust::Vec<T>, its length, element values, order and capacity guarantees are those of one growable-array model, out-of-range at() throws std::out_of_range, and each element is constructed and destroyed exactly once with no leak, double free or out-of-bounds access. This holds for every supported element category: primitives, bool, rust::String, shared structs and opaque Rust types.",
  ["histories", "inputs"], "every operation sequence (push, emplace, reserve, truncate, clear, copy, move, swap, index, iterate, sort, init-list, from arrays, round trips through Rust) and every element value",
  "Tests push a few elements into single vectors; growth, truncation at boundaries, self-aliasing and ownership across languages are histories.",
  ["include/cxx.h", "src/cxx.cc", "src/symbols/rust_vec.rs", "src/rust_vec.rs", "macro/src/expand.rs", "gen/src/write.rs"],
  [("Vec<T> template", "include/cxx.h"), ("rust_vec shims for builtin T", "src/symbols/rust_vec.rs"), ("RustVec", "src/rust_vec.rs"), ("expand_rust_vec / write_rust_vec_impl", "macro/src/expand.rs, gen/src/write.rs")])

p("C04", "rust::Slice<T> views exactly the memory it was given, in both languages",
  "A rust::Slice constructed in C++ or received from Rust always denotes exactly the same elements, in order, as the span it came from, through indexing, at(), front/back, iterator arithmetic and comparison, and after crossing the language boundary in either direction; at() throws std::out_of_range exactly for indices beyond the end. Empty slices are valid on both sides, whatever pointer they carry.",
  ["inputs", "histories"], "every span length and content, element type and iterator arithmetic sequence",
  "Tests use two or three fixed slices and never random iterator arithmetic, null-pointer empties or strided opaque elements.",
  ["include/cxx.h", "src/cxx.cc", "src/rust_slice.rs", "src/symbols/rust_slice.rs"],
  [("Slice and Slice::iterator", "include/cxx.h"), ("slice_new/ptr/len", "src/symbols/rust_slice.rs"), ("RustSlice", "src/rust_slice.rs")])

p("C05", "rust::Box<T> has unique ownership over any history",
  "Over any sequence of creation, move, swap, in_place, into_raw/from_raw, dereference and passing to and from Rust, each boxed value is owned by at most one rust::Box, is reachable unchanged through it, and is dropped exactly once.",
  ["histories"], "every operation sequence over a pool of boxes of shared structs and opaque Rust types",
  "Tests create and pass one box at a time; double drops and leaks on move-assignment, swap or throwing construction need sequences.",
  ["include/cxx.h", "macro/src/expand.rs", "gen/src/write.rs", "src/rust_type.rs"],
  [("Box<T> template and allocation guard", "include/cxx.h"), ("expand_rust_box", "macro/src/expand.rs")])

p("C06", "CxxString in Rust agrees with std::string and Rust text semantics",
  "For every byte content, a CxxString seen from Rust has the same bytes and length as the std::string in C++, edits from either side are seen by the other, equality, ordering and hashing agree with its bytes, and Display/Debug/to_str/to_string_lossy match what Rust's standard library does for the same bytes. A stack string made with let_cxx_string is constructed and destroyed exactly once, also when its initialising expression panics or leaves the scope early.",
  ["inputs", "histories"], "every byte string and every sequence of push_str/push_bytes/clear/reserve/compare/format operations",
  "Tests format two fixed strings; the lossy formatter, ordering and embedded-NUL behaviour range over all byte strings, and panicking initialisers are not tried.",
  ["src/cxx_string.rs", "src/lossy.rs", "src/cxx.cc", "src/hash.rs"],
  [("CxxString methods, StackString", "src/cxx_string.rs"), ("lossy display/debug", "src/lossy.rs"), ("cxxbridge1$cxx_string$*", "src/cxx.cc")])

p("C07", "CxxVector<T> in Rust behaves like the std::vector it is",
  "Over any sequence of pushes, pops, indexed access, iteration (both shared and mutable, partially consumed), reserve and slicing, a CxxVector<T> seen from Rust has exactly the elements, order and length of the std::vector, out-of-range get and index_mut return None, and every element is destroyed exactly once. This holds for primitives, CxxString, shared structs and opaque C++ element types of any size.",
  ["histories", "inputs"], "every operation sequence and element value for each element category",
  "Tests read a few vectors of fixed length; iterator exact-size behaviour, pop/push ownership and stride arithmetic are unexplored.",
  ["src/cxx_vector.rs", "src/cxx.cc", "macro/src/expand.rs", "gen/src/write.rs"],
  [("CxxVector, Iter, IterMut, VectorElement", "src/cxx_vector.rs"), ("std_vector macros", "src/cxx.cc"), ("expand_cxx_vector / write_cxx_vector", "macro/src/expand.rs, gen/src/write.rs")])

p("C08", "UniquePtr<T> owns its target exactly once, null included",
  "Over any sequence of null/new/from_raw/into_raw/as_ref/as_mut/pin_mut/drop operations and transfers between Rust and C++, a UniquePtr is null exactly when the model says so, dereferences to the same object, and destroys its target exactly once; dereferencing null panics instead of touching memory. Its comparison, formatting, hashing and I/O trait implementations give the result of the pointed-to value.",
  ["histories", "inputs"], "every operation sequence for opaque C++ types, shared structs, CxxString and CxxVector targets",
  "Tests cover single hand-offs; null handling and ownership are history properties, and most forwarding impls are untested.",
  ["src/unique_ptr.rs", "src/cxx.cc", "macro/src/expand.rs", "gen/src/write.rs"],
  [("UniquePtr / UniquePtrTarget", "src/unique_ptr.rs"), ("write_unique_ptr_common", "gen/src/write.rs"), ("expand_unique_ptr", "macro/src/expand.rs")])

p("C09", "SharedPtr/WeakPtr keep correct shared ownership over any history",
  "Over any sequence of creating, cloning, dropping, downgrading, upgrading and passing SharedPtr and WeakPtr across the boundary, the target lives exactly while some strong pointer (Rust or C++) does and is destroyed exactly once; upgrade yields a strong pointer exactly when the target is alive, null pointers behave as null on both sides, and comparison/formatting/hashing give the result of the pointed-to value.",
  ["histories"], "every interleaving of clone, drop, downgrade, upgrade and cross-language transfer over a pool of pointers and several targets",
  "Tests make one or two clones; reference-count mistakes show only in histories mixing strong and weak on both sides.",
  ["src/shared_ptr.rs", "src/weak_ptr.rs", "src/cxx.cc", "macro/src/expand.rs", "gen/src/write.rs"],
  [("SharedPtr/WeakPtr", "src/shared_ptr.rs, src/weak_ptr.rs"), ("write_shared_ptr/write_weak_ptr", "gen/src/write.rs")])

p("C10", "Errors cross the boundary as errors, carrying their message and nothing leaks",
  "When a fallible Rust function returns Err, its C++ caller gets a rust::Error whose what() is exactly the error's Display text, and when a fallible C++ function throws, its Rust caller gets an Err whose text is the exception's message (lossily decoded); Ok values arrive intact. Arguments and results are each destroyed exactly once on every path, for every nesting of Rust and C++ frames, and copies and moves of rust::Error keep the text.",
  ["inputs", "histories", "fault_sequences"], "every error text, return type and alternation of throwing Rust and C++ frames",
  "Tests throw a few constant errors through one frame; ownership of arguments on error paths and arbitrary message bytes are unexplored.",
  ["src/result.rs", "src/exception.rs", "src/cxx.cc", "gen/src/write.rs", "macro/src/expand.rs", "src/symbols/exception.rs"],
  [("PtrLen/Result wire format", "src/result.rs"), ("Error class, cxxbridge1$error", "src/cxx.cc"), ("try/catch wrapper", "gen/src/write.rs"), ("r#try", "src/result.rs")])

p("C11", "A Rust panic never unwinds into C++; it terminates the process",
  "When any Rust function, method, operator, drop or callback invoked from C++ panics, the process terminates without running any further C++ code of the caller, whatever the signature or nesting; a Rust function that does not panic is never terminated.",
  ["fault_sequences", "programs"], "every entry point kind and argument/return signature, and every call depth at which a panic strikes",
  "A unit test process cannot survive the abort, so no test in the suite observes it.",
  ["src/unwind.rs", "macro/src/expand.rs", "src/result.rs"],
  [("prevent_unwind", "src/unwind.rs"), ("expand_rust_function_shim_impl", "macro/src/expand.rs")])

p("C12", "A call through a bridge behaves like a direct call, for any signature",
  "For every bridge signature accepted by the generator, the macro and rustc (functions and methods in either direction, function pointers, any combination of supported argument and return types), the callee observes exactly the values the caller passed, the caller observes exactly the value returned and every mutation made through references, and every value passed by value is moved exactly once.",
  ["programs", "inputs"], "every signature built from the supported types, in both directions, and every argument value",
  "The suite has one fixed set of signatures; indirect-return, by-value aggregate, Result and reference rules interact combinatorially.",
  ["macro/src/expand.rs", "gen/src/write.rs", "syntax/types.rs"],
  [("Rust shims", "macro/src/expand.rs"), ("C++ shims", "gen/src/write.rs"), ("indirect argument/return decisions", "syntax/types.rs")])

p("C13", "Shared structs have the same layout and fields in Rust and C++",
  "For every accepted shared struct, size, alignment and the offset and value of every field are identical in Rust and C++, including nested structs, arrays, over-aligned extern types and enums; a by-value copy made in either language carries every field.",
  ["programs", "inputs"], "every struct shape built from supported field types, alignments, nesting and declaration order",
  "The tests contain a handful of structs; a wrong order, alignment or type mapping is silent memory corruption elsewhere.",
  ["gen/src/write.rs", "macro/src/expand.rs", "syntax/toposort.rs", "syntax/attrs.rs", "gen/src/builtin.rs"],
  [("write_struct", "gen/src/write.rs"), ("expand_struct", "macro/src/expand.rs"), ("topological struct order", "syntax/toposort.rs")])

p("C14", "Shared enums get the same representation and values in Rust and C++",
  "For every accepted shared enum, Rust and C++ agree on the underlying type and on the value of every variant, following Rust's discriminant rules (explicit value, or previous plus one from zero) and choosing the declared repr or else the first integer type that holds all values; enums whose values overflow or do not fit are rejected. Any value of the underlying type survives a round trip, and Debug prints the variant name or Type(value).",
  ["programs", "inputs"], "every list of variants with implicit, explicit, negative, suffixed and boundary discriminants, with and without repr",
  "Tests have four enums; limits of ten integer types and mixed discriminants are a large space.",
  ["syntax/discriminant.rs", "macro/src/expand.rs", "gen/src/write.rs", "macro/src/derive.rs"],
  [("DiscriminantSet", "syntax/discriminant.rs"), ("expand_enum", "macro/src/expand.rs"), ("write_enum", "gen/src/write.rs")])

p("C15", "Derived operators agree between Rust and C++ for all values",
  "For every shared struct or enum that derives Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord or Hash, the Rust impl gives the result an ordinary Rust derive on the same fields would, and the C++ operators ==, !=, <, <=, >, >= give exactly the answers of the Rust traits, unordered values included, and std::hash gives equal results for equal values and distinguishes what the Rust Hash distinguishes.",
  ["programs", "inputs"], "every struct shape with any set of derives and every pair of values (NaN and signed zero included)",
  "Tests compare one or two struct values and never look at partially ordered fields or Hash agreement.",
  ["macro/src/derive.rs", "macro/src/expand.rs", "gen/src/write.rs"],
  [("derive expansions", "macro/src/derive.rs"), ("expand_struct_operators", "macro/src/expand.rs"), ("write_struct_operators, write_struct_operator_decls", "gen/src/write.rs")])

p("C16", "Every item is linked to exactly its counterpart, under any naming",
  "With any combination of namespace, cxx_name, rust_name, raw identifiers, overloaded methods and same-named items in different types, namespaces or modules, each Rust-side name calls exactly the C++ entity it was declared for and the reverse, and C++ declarations appear under the declared namespace and name. Distinct items never collide in linker symbols.",
  ["programs"], "every assignment of namespaces and renames to functions, methods, types, enums and variants",
  "Tests use a few fixed namespaces; a symbol collision or misdirection needs an unlucky combination.",
  ["syntax/mangle.rs", "syntax/symbol.rs", "syntax/names.rs", "syntax/namespace.rs", "syntax/attrs.rs", "gen/src/namespace.rs", "gen/src/names.rs"],
  [("mangled symbol names", "syntax/mangle.rs"), ("Pair of names", "syntax/names.rs"), ("namespace blocks", "gen/src/out.rs, gen/src/block.rs")])

p("C17", "The Rust macro and the C++ generator agree on every bridge",
  "For every bridge module, the procedural macro and the C++ generator either both accept it or both reject it, and when both accept, the set of linker symbols one side defines and the other side uses match exactly in both directions, so no accepted bridge fails to link.",
  ["programs"], "every syntactically valid bridge module, valid or semantically invalid",
  "Each side is tested separately on fixed inputs (ui tests for the macro, three string tests for the generator).",
  ["macro/src/expand.rs", "gen/src/write.rs", "syntax/check.rs", "syntax/mangle.rs", "syntax/types.rs"],
  [("shared front end", "syntax/"), ("symbol users", "macro/src/expand.rs, gen/src/write.rs"), ("instantiations", "syntax/instantiate.rs")])

p("C18", "Generated C++ compiles for every accepted bridge",
  "For every bridge the generator accepts, the generated header is self-contained and includable repeatedly, and the implementation compiles without errors, under C++11 through C++20 on both major compilers, with or without a shared rust/cxx.h, whatever the declaration order, comments, attributes and names (valid in both languages) used.",
  ["programs", "configurations"], "every accepted bridge, standard level, compiler and generator option set",
  "Tests compile three fixed bridges with one compiler and one standard.",
  ["gen/src/write.rs", "gen/src/builtin.rs", "gen/src/include.rs", "gen/src/ifndef.rs", "gen/src/out.rs", "syntax/toposort.rs"],
  [("write::gen", "gen/src/write.rs"), ("builtins selection", "gen/src/builtin.rs"), ("include set", "gen/src/include.rs")])

p("C19", "Generated code is deterministic and ignores irrelevant source changes",
  "Generating code for the same bridge any number of times, in any process, gives identical bytes; and changing only whitespace, plain comments, code outside the bridge module, or the header/implementation request order changes nothing in the output. Splitting the items of a bridge into several extern blocks of the same ABI keeps the generated declarations the same up to order.",
  ["programs", "histories"], "every bridge and every meaning-preserving rewriting of its source, and repeated generation",
  "No test generates anything twice; hash-order or global-state leakage would show as unreproducible builds.",
  ["gen/src/mod.rs", "gen/src/file.rs", "gen/src/include.rs", "syntax/set.rs", "syntax/map.rs", "gen/src/out.rs"],
  [("ordered sets", "syntax/set.rs"), ("unordered maps", "syntax/map.rs"), ("section-ordered output", "gen/src/out.rs")])

p("C20", "The generator answers every input with output or an error, never a crash",
  "For every source text, however malformed, the C++ generator (library and command line) returns either generated code or errors, each with its message and its exact position in the text, without panicking, hanging, overflowing its stack on reasonable nesting, or writing a partial output; rendering the error is equally safe for every text.",
  ["inputs"], "every source text: random bytes, mutated bridges and syntactically valid but semantically wrong bridges",
  "The suite contains three generator tests, all on well-formed text.",
  ["gen/src/error.rs", "gen/src/mod.rs", "gen/src/file.rs", "syntax/parse.rs", "syntax/check.rs", "syntax/attrs.rs", "syntax/discriminant.rs"],
  [("parse", "syntax/parse.rs"), ("check", "syntax/check.rs"), ("report/display_syn_error", "gen/src/error.rs")])

p("C21", "Bridges that would be unsound are always rejected",
  "A bridge containing an unsupported or unsound construct (opaque types by value, unpinned mutable C++ references, safe declarations of C++ functions outside unsafe extern blocks, raw pointers in safe signatures, unsupported generic targets, missing lifetimes on safe functions returning references, conflicting or duplicate declarations) is rejected with an error, wherever the construct occurs and however it is nested, and the same bridge without it is accepted.",
  ["programs"], "every valid bridge combined with every single violation from the rule catalogue at every position",
  "The ui tests have one fixed example per rule; rules must hold at every nesting position (argument, return, field, fn pointer, inside Box/Vec/slice/array).",
  ["syntax/check.rs", "syntax/parse.rs", "syntax/attrs.rs", "syntax/types.rs", "macro/src/expand.rs"],
  [("typecheck", "syntax/check.rs"), ("type classification", "syntax/types.rs"), ("reserved and duplicate names", "syntax/types.rs, syntax/check.rs")])

p("C22", "Extern type aliases are accepted only when identity and kind really match",
  "A type alias in a bridge compiles exactly when the aliased Rust type declares the same C++ identity (namespace and name) and, where the bridge uses it by value, declares itself trivially movable; a by-value extern C++ type is accepted by the C++ compiler exactly when it is trivially move-constructible and destructible or declares IsRelocatable. Equality of two identities holds exactly when the strings are equal.",
  ["programs", "inputs"], "every pair of declared and expected C++ names, kinds, and every way of using the alias by value",
  "Two ui tests cover one mismatch each; the identity is built by separate code in two places from names, namespaces and attributes.",
  ["macro/src/type_id.rs", "src/type_id.rs", "src/extern_type.rs", "macro/src/expand.rs", "syntax/trivial.rs", "gen/src/write.rs", "include/cxx.h"],
  [("type_id!", "macro/src/type_id.rs"), ("verify_extern_type/kind", "src/extern_type.rs"), ("required trivial reasons", "syntax/trivial.rs"), ("IsRelocatable static_assert", "gen/src/write.rs, include/cxx.h")])

p("C23", "Conditional compilation selects the same items on both sides",
  "For every cfg expression over known facts, on bridge modules and on the items, blocks, fields and variants in them, the C++ generator keeps exactly the items for which the expression is true under ordinary Boolean rules, matching what the Rust compiler keeps for the same facts; expressions depending on unknown facts are reported as errors rather than silently dropped or kept.",
  ["programs", "configurations"], "every nesting of all/any/not over feature, name and name=value predicates and every assignment of true/false/unknown to them",
  "The suite has one test with cfg'd items; three-valued evaluation over nested expressions is never enumerated.",
  ["syntax/cfg.rs", "gen/src/cfg.rs", "gen/build/src/cargo.rs", "gen/cmd/src/cfg.rs"],
  [("cfg parsing", "syntax/cfg.rs"), ("eval and strip", "gen/src/cfg.rs"), ("Cargo environment evaluator", "gen/build/src/cargo.rs"), ("--cfg arguments", "gen/cmd/src/cfg.rs")])

p("C24", "The cxxbridge command writes exactly what was asked, where it was asked",
  "For every combination of input file, --header, --include, --cxx-impl-annotations, --cfg and --output arguments, the cxxbridge command writes to each named output exactly the code the library generates for those options and touches nothing else; for an invalid invocation or bridge it writes nothing and exits nonzero with a message, and it never exits successfully with an output it could not write.",
  ["configurations", "inputs"], "every argument combination, order and output kind over generated bridges",
  "The command line crate has only one test, of its help text.",
  ["gen/cmd/src/main.rs", "gen/cmd/src/app.rs", "gen/cmd/src/output.rs", "gen/cmd/src/cfg.rs"],
  [("try_main", "gen/cmd/src/main.rs"), ("argument parsing", "gen/cmd/src/app.rs")])

p("C25", "cxx_build writes only inside its output directories, at predictable paths",
  "For every relative or absolute bridge path and every include-prefix, export and dependency configuration, cxx_build writes generated files, headers and links only beneath its output directory, at paths determined by the package name and source path, never escaping through .. or absolute components; headers are then includable at <prefix>/<path>.rs.h, stale generated content is replaced while files already up to date are left untouched, configurations that name something that does not exist are refused, links survive moving the package and its target directory as one (or, with CARGO_TARGET_DIR, moving the target directory alone), and exported headers of direct dependencies are reachable while unexported ones are not.",
  ["configurations", "inputs", "histories"], "every source path shape, include prefix and dependency graph, and repeated builds",
  "No test in the workspace drives cxx_build over more than its own fixed files.",
  ["gen/build/src/lib.rs", "gen/build/src/paths.rs", "gen/build/src/out.rs", "gen/build/src/deps.rs", "gen/build/src/cfg.rs", "gen/build/src/target.rs", "gen/build/src/syntax"],
  [("paths", "gen/build/src/paths.rs"), ("out::write / symlinks", "gen/build/src/out.rs"), ("deps", "gen/build/src/deps.rs")])

p("C26", "Rust function objects given to C++ call the right closure-free function",
  "A function pointer passed from Rust to C++ as rust::Fn can be copied, stored and called any number of times, in any order, and always runs the Rust function it was made from with the arguments given, returning exactly what that function returns.",
  ["programs", "histories"], "every supported function-pointer signature, and every history of storing, copying and calling several of them",
  "Tests have three callbacks, each called once immediately.",
  ["src/function.rs", "include/cxx.h", "gen/src/write.rs", "macro/src/expand.rs"],
  [("FatFunction", "src/function.rs"), ("function pointer trampolines", "macro/src/expand.rs, gen/src/write.rs")])

p("C27", "The Rust-facing API of a bridge upholds Rust's static safety contract",
  "For every accepted bridge, opaque C++ types are neither Send, Sync nor Unpin unless declared so, smart pointers inherit those traits from their target exactly as documented, a C++ function is callable without unsafe exactly when its block and declaration made it safe, an exported Rust function is accepted only with the declared signature and unsafety, opaque C++ values cannot be moved or overwritten from safe code, and returned values cannot outlive the arguments they are tied to, nor are bound to others.",
  ["programs"], "every kind of opaque type, smart pointer target and signature with lifetimes",
  "A trait or lifetime that is too permissive compiles silently, and the ui tests probe only a few fixed items.",
  ["src/opaque.rs", "src/unique_ptr.rs", "src/shared_ptr.rs", "src/weak_ptr.rs", "src/cxx_vector.rs", "macro/src/expand.rs", "macro/src/generics.rs"],
  [("Opaque marker", "src/opaque.rs"), ("unsafe impl Send/Sync", "src/unique_ptr.rs, src/shared_ptr.rs, src/weak_ptr.rs"), ("signature expansion", "macro/src/expand.rs")])

p("C28", "Documentation of a bridge item documents the same item in C++ and Rust",
  "For every documentation text, in whatever form (///, /** */, #[doc = ...], one or several, among other attributes), the generated header documents exactly the structs, fields, enums, variants, opaque Rust types, functions and methods that are documented in the bridge, each directly in front of its declaration and line for line with the same text - as comments, or as comments which Doxygen recognises when CFG.doxygen is set -, the code around it is what it is without documentation, and the Rust items the macro makes carry the same documentation.",
  ["inputs", "configurations"], "every documentation text and form on every kind of item",
  "Tests have a few fixed one-line comments, and compare no text.",
  ["gen/src/write.rs", "syntax/doc.rs", "syntax/attrs.rs", "macro/src/expand.rs"],
  [("write_doc", "gen/src/write.rs"), ("Doc", "syntax/doc.rs")])

p("C29", "The expansion of a bridge compiles cleanly wherever it stands",
  "The Rust code which the macro writes for an accepted bridge whose items are implemented as declared compiles without errors and without warnings of its own (with warnings denied, unsafe_op_in_unsafe_fn forbidden and the 2024 compatibility lints on, including the improper_ctypes lints the macro itself denies), in every edition, with or without std and the prelude, whatever else the user's crate defines under the names the expansion needs, and whatever lifetimes a signature leaves to be elided.",
  ["inputs", "configurations"], "every bridge, edition and surrounding names",
  "The test crate denies warnings over one fixed bridge in one edition, with nothing around it that takes names.",
  ["macro/src/expand.rs", "macro/src/derive.rs", "syntax/improper.rs", "syntax/types.rs", "src/lib.rs"],
  [("shims", "macro/src/expand.rs"), ("determine_improper_ctype", "syntax/improper.rs"), ("private", "src/lib.rs")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
