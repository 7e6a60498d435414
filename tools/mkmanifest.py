#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (one place to edit the claimed checks)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RT = "Generated search, not proof. The public API of the real cxx runtime, called through real bridges, both languages under AddressSanitizer with allocation accounting; trusts the reference model in the harness, Rust's std and libstdc++. "
E2E = "Generated search, not proof. Whole random bridges are generated, compiled by the real macro (rustc) and the real generator (clang++), linked and run under AddressSanitizer; trusts rustc, clang++ and the harness' own recording types. "
GEN = "Generated search, not proof. The real generator (cxx-gen library and the cxxbridge command built from /repo) on generated bridge sources; trusts the harness' own oracle. "
CHECKS = {
 "C01": ("PBT: exhaustive short-sequence sweep + structured random byte/u16 strings, differential against Rust's std UTF-8/UTF-16 decoders", RT + "All sequences up to length 2-3 and prefixes per lead byte are enumerated; longer ones are sampled."),
 "C02": ("stateful model-based PBT over string operation histories vs a Vec<String> model under ASan", RT),
 "C03": ("stateful model-based PBT over rust::Vec histories for many element types vs a Vec model under ASan with leak accounting", RT),
 "C04": ("PBT of random spans and random iterator programs vs index arithmetic model under ASan", RT),
 "C05": ("stateful model-based PBT over rust::Box histories (C++ and Rust operations) vs an ownership model, ASan and drop accounting", RT),
 "C06": ("PBT of arbitrary byte strings and edit histories, differential against Rust's std on the same bytes; random let_cxx_string scopes with panics and early exits under ASan", RT),
 "C07": ("stateful model-based PBT over CxxVector histories for many element types vs a Vec model, ASan and drop accounting", RT),
 "C08": ("stateful model-based PBT over UniquePtr histories across both languages vs an ownership model; trait results differential against the pointee", RT),
 "C09": ("stateful model-based PBT over SharedPtr/WeakPtr histories vs a reference-count model, ASan and drop accounting", RT),
 "C10": ("PBT of random programs of nested fallible Rust/C++ frames vs a pure model (result, error text, destruction trace, leaks); rust::Error value histories; arbitrary-byte messages in both directions", RT),
 "C11": ("PBT over entry-point shapes x panic kinds x nesting x calling context, each in a forked child observed from outside (termination signal, C++ code run after the panic)", RT),
 "C12": ("PBT over whole random bridges (grammar-based generation of types, signatures, methods, callbacks), differential: both languages log every value seen by caller and callee, logs must match and objects/allocations balance", E2E),
 "C13": ("PBT over random shared structs and extern types: size, alignment, every field offset, default state and bytes compared between the languages, values passed by every route", E2E),
 "C14": ("PBT over random shared enums (repr, explicit/implicit discriminants at range ends), differential: every constant and arbitrary in-range values compared between the languages and with the model", E2E),
 "C15": ("PBT over random derived structs and enums: operators, hash and traits on both sides differential against a field-wise reference model over related values", E2E),
 "C16": ("PBT over programs of one to three bridges with colliding, raw, renamed, overloaded and namespaced names; every call must reach the function it was declared for (event log)", E2E),
 "C17": ("PBT over batches of valid, planted-unsound and token-mutated bridges, differential: the real macro under rustc vs the generator, by acceptance and by the sets of symbols defined and used on each side", GEN),
 "C18": ("PBT over random bridges, header arrangements and options: generated code must compile with g++ and clang++ under random standards C++11-C++20", "Generated search, not proof. Real generator output through both real compilers with -fsyntax-only; trusts the compilers and the harness' user headers. "),
 "C19": ("metamorphic PBT: repeated generation in one process and across processes, whitespace/comment/attribute rewrites of the text, and regrouping of blocks and items, compared by output bytes (or as item sets)", GEN),
 "C20": ("grammar- and mutation-based fuzzing of bridge texts (token and byte level), differential: library vs cxxbridge command, with crash/hang/message oracles", GEN),
 "C21": ("PBT: unsound constructs planted at random positions of random accepted bridges must be rejected, their sound twins accepted (metamorphic pair)", GEN),
 "C22": ("PBT: type identities of related names compared at run time; random alias declarations and uses vs an acceptance model under rustc; random C++ classes used by value vs a relocatability model under both C++ compilers", "Generated search, not proof. Real macro, generator and compilers; trusts the harness' acceptance model, cross-checked against std type traits."),
 "C23": ("PBT over random cfg expressions and facts, differential: conditional bridge vs the bridge selected by a Boolean reference evaluator (library, command, build script), and vs rustc on the same facts, linked programs included", GEN),
 "C24": ("PBT over random bridges, argument lists in random order and spelling and files already at the output paths; stdout, status and the whole scratch directory compared with a model of the command over the library", GEN),
 "C27": ("PBT over random bridges compiled by rustc: constant assertions of auto traits from a model; wrappers and implementations with random lifetimes against a region solver; calls, function pointer types and user signatures with planted differences; a grammar of escapes with sound twins", GEN),
 "C28": ("PBT over random bridges with random documentation in random forms: the comments in front of each declaration of the header (library and cxx_build with and without doxygen) and the doc attributes of the macro's expansion against the lines written; metamorphic against the same bridge without documentation; compiled with g++ and clang++", GEN),
 "C29": ("PBT over random accepted bridges with generated user code, compiled by rustc in random editions and surroundings (warnings denied, no prelude, no std, shadowed macros and modules); oracle: nothing is reported", GEN),
 "C25": ("stateful model-based PBT over histories of builds by a real cxx_build build script (edits, path spellings, obstacles, prefixes) run as an unprivileged user, whole-tree comparison with a path model; random package graphs vs an export model", "Generated search, not proof. A real build script using cxx_build, with the environment Cargo would give it; trusts the harness' path and export model."),
 "C26": ("stateful model-based PBT over rust::Fn stores, copies and calls for many signatures, differential against direct calls", RT),
}
PENDING = "Check under construction."
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1,
     "setup_cmd": "bash setup.sh",
     "checks": [{"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
                 "technique": CHECKS[i][0], "level": "exploration", "level_note": CHECKS[i][1].strip()} for i in ids if i in CHECKS],
     "not_applicable": [{"property": i, "reason": PENDING} for i in ids if i not in CHECKS],
     "notes": "No hooks: every check drives public surface of /repo (runtime, cxx-gen, cxx-build, cxxbridge-cmd, cxxbridge-macro sources by path)."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(V + "/MANIFEST.json", "a").write("\n")
