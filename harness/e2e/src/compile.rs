//! C18: what the generator writes compiles, alone and together with rust/cxx.h,
//! under every language standard and both compilers.
use std::collections::BTreeSet;
use crate::prog::{self, Dir};
use bgen::gen::{bridge, Profile};
use bgen::render::Text;
use bgen::{Bridge, Kind, Lang, Ty};
use pbt::{Entry, Prop, Src};

pub fn entry() -> Entry {
    Entry {
        id: "C18",
        rule: "A case is a random bridge with its generated header and implementation, compiled by g++ and clang++ under random standards of C++11 to C++20, in several arrangements: with no other header, with rust/cxx.h before or after, header twice, several bridges' headers together. Non-trivial when the bridge has a type or function; distinct by text.",
        assumptions: &["Bridges as C12 and C16 generate them; structs defined by the user's own C++ derive no comparisons (the user would have to define the operators).", "Compiled with -fsyntax-only: everything but code generation and linking."],
        props: vec![
            Prop { name: "single", quick: 72, thorough: 3000, f: single },
            Prop { name: "tiny", quick: 500, thorough: 20000, f: tiny },
            Prop { name: "narrow", quick: 80, thorough: 4000, f: narrow },
            Prop { name: "several", quick: 16, thorough: 800, f: several },
        ],
    }
}

/// What a user's header says of types it only names.
const FORWARD: &str = "#include <sys/types.h>\nnamespace rust {\ninline namespace cxxbridge1 {\nclass String;\nclass Str;\ntemplate <typename T> class Slice;\ntemplate <typename T> class Box;\ntemplate <typename T> class Vec;\ntemplate <typename Signature> class Fn;\nusing isize = ssize_t;\n}\n}\n";
const LIVE: &str = "#ifndef LAB_LIVE\n#define LAB_LIVE\nnamespace lab { struct Live { explicit Live(unsigned long long); Live(const Live &); ~Live(); unsigned long long v; }; }\n#endif\n";

fn user_header(t: &Text, with_cxx: bool) -> String {
    let mut h = t.impl_h().replace("#include \"lab_fwd.h\"\n", LIVE);
    // Nothing but what the header itself needs.
    for (name, parts) in [("array", &["::std::array"][..]), ("cstdint", &["int8_t", "int16_t", "int32_t", "int64_t"]), ("memory", &["_ptr<"]), ("string", &["::std::string"]), ("vector", &["::std::vector"])] {
        if !parts.iter().any(|p| h.contains(p)) { h = h.replace(&format!("#include <{name}>\n"), ""); }
    }
    if h.contains("size_t") { h = h.replace("#pragma once\n", "#pragma once\n#include <cstddef>\n"); }
    if h.contains("std::true_type") { h = h.replace("#pragma once\n", "#pragma once\n#include <type_traits>\n"); }
    if !h.contains("lab::Live") { h = h.replace(LIVE, ""); }
    if !with_cxx {
        let needed = h.replace("#include \"rust/cxx.h\"\n", "").contains("rust::");
        h = h.replace("#include \"rust/cxx.h\"\n", if needed { FORWARD } else { "" });
    }
    h
}

fn profile(s: &mut Src) -> Profile {
    let mut p = Profile::calls();
    p.structs = (0, 5);
    p.enums = (0, 3);
    p.rusts = (0, 3);
    p.cxxs = (0, 3);
    p.trivials = (0, 2);
    p.fns = (0, 16);
    p.fields = (1, 4);
    p.noise = s.coin();
    p.fancy = s.coin();
    p.namespaces = s.coin();
    p.derives = s.coin();
    p.lifetimes = s.coin();
    p.recursion = s.coin();
    p.plain_fields = s.chance(1, 4);
    p.external = false;
    p
}

fn strip_external_derives(b: &mut Bridge) {
    for t in &mut b.types {
        if let Kind::Struct { external: true, .. } = t.kind { t.derives.retain(|d| matches!(*d, "Clone" | "Copy" | "Debug" | "Default")); }
    }
}

const STANDARDS: [&str; 5] = ["-std=c++11", "-std=c++14", "-std=c++17", "-std=c++20", "-std=c++23"];

fn compile(dir: &Dir, compiler: &str, std: &str, files: &[&str]) -> Result<(), String> {
    let inc = format!("-I{}", prog::target().join("inc").display());
    for f in files {
        let limit = if compiler == "g++" { "-fmax-errors=3" } else { "-ferror-limit=3" };
        let o = prog::run(&[compiler, std, "-fsyntax-only", "-w", limit, &inc, "-I.", f], &dir.0);
        if !o.status.success() {
            return Err(format!("{compiler} {std}: {f} does not compile: {}", prog::errors(&o, &["error:"])));
        }
    }
    Ok(())
}

fn options(s: &mut Src, include: bool) -> cxx_gen::Opt {
    let mut o = cxx_gen::Opt::default();
    o.include.clear();
    if include { o.include.push(cxx_gen::Include { path: "rust/cxx.h".into(), kind: cxx_gen::IncludeKind::Quoted }); }
    if s.chance(1, 4) { o.cxx_impl_annotations = Some("__attribute__((visibility(\"default\")))".to_owned()); }
    o
}

fn arrange(s: &mut Src, text: &Text) -> Result<(), String> {
    let dir = Dir::new();
    // Whatever the user's header is called.
    let header = if s.chance(2, 3) { "impl.h" } else { *s.pick(&["ímpl.h", "it's.h", "a+b.h", "im\\pl.h", "%s{}.h", "имя/im.h", "#impl.h", "im\tpl.h", "impl..h", "日本.hpp"]) };
    let module = text.bridge(&header.replace('\\', "\\\\"));
    // Who brings in rust/cxx.h.
    let mode = s.below(3);
    let external = text.b.types.iter().any(|t| matches!(t.kind, Kind::Struct { external: true, .. }));
    let mode = if external { 0 } else { mode };
    let g = prog::generate_with(&module, &options(s, mode == 1))?;
    dir.put(header, &user_header(text, mode == 0));
    dir.put("gen.h", &g.header);
    dir.put("gen.cc", &g.implementation);
    dir.put("twice.cc", "#include \"gen.h\"\n#include \"gen.h\"\nint main() {}\n");
    dir.put("before.cc", "#include \"rust/cxx.h\"\n#include \"gen.h\"\n#include \"gen.h\"\n#include \"rust/cxx.h\"\n");
    dir.put("after.cc", "#include \"gen.h\"\n#include \"rust/cxx.h\"\n#include \"gen.h\"\n");
    dir.put("all.cc", &format!("{}#include \"gen.cc\"\n", if s.coin() { "#include \"gen.h\"\n" } else { "#include \"rust/cxx.h\"\n#include \"gen.h\"\n" }));
    s.key(module.as_bytes());
    s.note(|| format!("mode {mode}\n{module}\n-----\n{}", user_header(text, mode == 0)));
    if !text.b.types.is_empty() || !text.b.fns.is_empty() { s.nontrivial(); }
    let other = *s.pick(&["twice.cc", "before.cc", "after.cc", "all.cc", "gen.h"]);
    let first = s.us(5);
    let second = s.us(5);
    let (one, two) = if s.coin() { ("g++", "clang++") } else { ("clang++", "g++") };
    compile(&dir, one, STANDARDS[first], &["gen.cc"])?;
    compile(&dir, two, STANDARDS[second], &[other])
}

fn single(s: &mut Src) -> Result<(), String> {
    let mut p = profile(s);
    p.external = s.chance(1, 4);
    let mut b = bridge(s, &p);
    strip_external_derives(&mut b);
    arrange(s, &Text::new(b, "0", 1))
}

/// Small bridges: nothing else brings in what one construct needs.
fn narrow(s: &mut Src) -> Result<(), String> {
    let mut p = profile(s);
    p.structs = (0, 1);
    p.enums = (0, 1);
    p.rusts = (0, 1);
    p.cxxs = (0, 1);
    p.trivials = (0, 1);
    p.fns = (0, 2);
    p.fields = (1, 1);
    p.fancy = s.chance(1, 4);
    if s.coin() { p.cxxs = (0, 0); p.trivials = (0, 0); }
    let mut b = bridge(s, &p);
    if p.cxxs == (0, 0) { for f in &mut b.fns { if f.recv.is_none() && !f.sig.args.iter().any(|a| matches!(a.ty, Ty::Fn(_))) { f.lang = Lang::Rust; if f.sig.args.iter().any(|a| a.lt || matches!(a.ty, Ty::Ptr(..))) { f.sig.is_unsafe = true; } } } }
    strip_external_derives(&mut b);
    arrange(s, &Text::new(b, "0", 1))
}

fn several(s: &mut Src) -> Result<(), String> {
    let dir = Dir::new();
    let n = s.urange(2, 4);
    let mut tu = String::new();
    let mut log = String::new();
    let mut files = vec!["tu.cc".to_owned()];
    let mut order: Vec<usize> = Vec::new();
    for i in 0..n {
        let p = profile(s);
        let mut b = bridge(s, &p);
        let outer = format!("m{i}");
        b.ns.insert(0, outer.clone());
        for t in &mut b.types { t.name.ns.insert(0, outer.clone()); }
        for f in &mut b.fns { f.name.ns.insert(0, outer.clone()); }
        let t = Text::new(b, &i.to_string(), 1 + 1000 * i as u32);
        let module = t.bridge(&format!("impl{i}.h"));
        let include = s.chance(1, 3);
        let g = prog::generate_with(&module, &options(s, include))?;
        dir.put(&format!("impl{i}.h"), &user_header(&t, false));
        dir.put(&format!("gen{i}.h"), &g.header);
        // One bridge's implementation sees the other bridges' headers.
        let others: String = order.iter().map(|k| format!("#include \"gen{k}.h\"\n")).collect();
        dir.put(&format!("gen{i}.cc"), &(others + &g.implementation));
        files.push(format!("gen{i}.cc"));
        order.push(i);
        log += &module;
    }
    for _ in 0..n + 1 {
        match s.below(5) {
            0 => tu += "#include \"rust/cxx.h\"\n",
            _ => tu += &format!("#include \"gen{}.h\"\n", s.us(n)),
        }
    }
    for i in 0..n { tu += &format!("#include \"gen{i}.h\"\n"); }
    dir.put("tu.cc", &tu);
    s.key((log.clone() + &tu).as_bytes());
    s.note(|| format!("{log}\n-----\n{tu}"));
    s.nontrivial();
    let f: Vec<&str> = files.iter().map(String::as_str).collect();
    let first = s.us(5);
    let second = s.us(5);
    let (one, two) = if s.coin() { ("g++", "clang++") } else { ("clang++", "g++") };
    compile(&dir, one, STANDARDS[first], &f[..1])?;
    compile(&dir, two, STANDARDS[second], &f[1..])
}

/// One construct alone, from a bridge with nothing of the user's in it.
fn tiny(s: &mut Src) -> Result<(), String> {
    const PRIM: [&str; 14] = ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "f32", "f64", "bool", "c_char"];
    let prim = |s: &mut Src| *s.pick(&PRIM);
    let mut used = BTreeSet::new();
    // Types by the position they may appear in.
    fn element(s: &mut Src, used: &mut BTreeSet<char>) -> String {
        match s.below(5) {
            0 => { used.insert('S'); "S".into() }
            1 => { used.insert('E'); "E".into() }
            2 => { used.insert('R'); "R".into() }
            3 => "String".into(),
            _ => (*s.pick(&PRIM[..13])).into(),
        }
    }
    fn ty(s: &mut Src, used: &mut BTreeSet<char>, ret: bool) -> String {
        let target = |s: &mut Src, used: &mut BTreeSet<char>| match s.below(3) { 0 => { used.insert('S'); "S".to_owned() } 1 => { used.insert('E'); "E".to_owned() } _ => "CxxString".to_owned() };
        match s.below(14) {
            0 | 1 => (*s.pick(&PRIM)).to_owned(),
            2 => "String".to_owned(),
            3 => { used.insert('S'); "S".to_owned() }
            4 => { used.insert('E'); "E".to_owned() }
            5 => { used.insert('R'); "Box<R>".to_owned() }
            6 => { let mut e = element(s, used); if e == "c_char" { e = "u8".into(); } format!("Vec<{e}>") }
            7 => { let t = target(s, used); format!("UniquePtr<{t}>") }
            8 => { let t = target(s, used); format!("{}<{t}>", s.pick(&["SharedPtr", "WeakPtr"])) }
            9 => { let e = *s.pick(&["u8", "i64", "f32", "usize", "CxxString", "isize"]); format!("UniquePtr<CxxVector<{e}>>") }
            10 => { let e = s.us(3); used.insert(['S', 'E', 'R'][e]); format!("[{}; {}]", ["S", "E", "u16"][e], s.urange(1, 4)) }
            _ if ret => "String".to_owned(),
            11 => "&str".to_owned(),
            12 => { let e = element(s, used); format!("&[{}{e}]", "") }
            _ => format!("&{}{}", if s.coin() { "mut " } else { "" }, { let t = match s.below(5) { 0 => "String".into(), 1 => format!("Vec<{}>", element(s, used)), 2 => (*s.pick(&PRIM)).to_owned(), _ => element(s, used) }; t }),
        }
    }
    let mut body = String::new();
    let field;
    match s.below(8) {
        0 | 1 => { used.insert('S'); field = prim(s).to_owned(); }
        2 => {
            used.insert('S');
            field = match s.below(7) { 0 => "String".to_owned(), 1 => "Vec<u8>".to_owned(), 2 => "UniquePtr<CxxString>".to_owned(), 3 => "SharedPtr<E>".to_owned(), 4 => "[u32; 3]".to_owned(), 5 => { used.insert('R'); "Box<R>".to_owned() } _ => "&'static str".to_owned() };
            if field.contains('E') { used.insert('E'); }
        }
        3 => { used.insert('E'); field = prim(s).to_owned(); }
        4 => { used.insert('R'); field = prim(s).to_owned(); }
        5 => {
            field = prim(s).to_owned();
            used.insert('S');
            body += &match s.below(5) { 0 => "    impl Vec<S> {}\n".to_owned(), 1 => "    impl UniquePtr<S> {}\n".to_owned(), 2 => "    impl SharedPtr<S> {}\n".to_owned(), 3 => "    impl CxxVector<S> {}\n".to_owned(), _ => { used.insert('R'); "    impl Box<R> {}\n".to_owned() } };
        }
        _ => {
            field = prim(s).to_owned();
            let a = if s.coin() { format!("a: {}", ty(s, &mut used, false)) } else { String::new() };
            let r = match s.below(4) { 0 => String::new(), 1 => " -> Result<()>".to_owned(), 2 => format!(" -> Result<{}>", ty(s, &mut used, true)), _ => format!(" -> {}", ty(s, &mut used, true)) };
            let recv = match s.below(6) { 0 => { used.insert('R'); "self: &R" } 1 => { used.insert('S'); "self: &mut S" } _ => "" };
            body += &format!("    extern \"Rust\" {{ fn f({recv}{}{a}){r}; }}\n", if recv.is_empty() || a.is_empty() { "" } else { ", " });
        }
    }
    if used.contains(&'S') {
        let mut d: Vec<&str> = Vec::new();
        let plain = PRIM.contains(&field.as_str());
        if s.coin() { for t in ["PartialEq", "PartialOrd", "Hash", "Debug", "Default"] { if s.chance(1, 3) { if t == "Hash" && field.starts_with('f') { continue; } d.push(t); } } if plain && s.chance(1, 4) { d.push("Clone"); d.push("Copy"); } }
        if d.contains(&"PartialOrd") && !d.contains(&"PartialEq") { d.push("PartialEq"); }
        if !d.is_empty() { body += &format!("    #[derive({})]\n", d.join(", ")); }
        body += &format!("    struct S {{ a: {field} }}\n");
    }
    if used.contains(&'E') {
        if s.chance(1, 3) { body += &format!("    #[repr({})]\n", s.pick(&PRIM[..10])); }
        if s.chance(1, 4) { body += "    #[derive(Hash)]\n"; }
        body += "    enum E { A }\n";
    }
    if used.contains(&'R') { body += "    extern \"Rust\" { type R; }\n"; }
    let module = format!("#[cxx::bridge]\nmod ffi {{\n{body}}}\n");
    s.key(module.as_bytes());
    s.note(|| module.clone());
    let g = match prog::generate_with(&module, &options(s, false)) { Ok(g) => g, Err(_) => return Ok(()) };
    s.nontrivial();
    let dir = Dir::new();
    dir.put("gen.h", &g.header);
    dir.put("gen.cc", &g.implementation);
    let std = STANDARDS[s.us(5)];
    compile(&dir, if s.coin() { "g++" } else { "clang++" }, std, &[if s.chance(1, 4) { "gen.h" } else { "gen.cc" }])
}
