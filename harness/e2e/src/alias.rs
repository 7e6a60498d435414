//! C22: identities of extern types, aliases of them, and what C++ demands of a
//! type that Rust moves.
use crate::prog::{self, Dir};
use pbt::{Entry, Prop, Src};
use std::fmt::Write;

pub fn entry() -> Entry {
    Entry {
        id: "C22",
        rule: "ids: pairs of related C++ names, written in type_id! and as the names of types in bridges, compared at run time. aliases: modules with an alias to a type of some declared identity and kind, used in random ways; rustc must accept exactly the sound ones. relocatable: random C++ classes aliased and used by value; the C++ compiler must accept exactly those that are trivially movable or say so. Non-trivial when names differ by one step, or a use is by value; distinct by text.",
        assumptions: &["Names are identifiers in NFC.", "The declared kind of a Rust type is taken at its word, as the unsafe trait asks."],
        props: vec![
            Prop { name: "ids", quick: 32, thorough: 600, f: ids },
            Prop { name: "aliases", quick: 400, thorough: 6000, f: aliases },
            Prop { name: "relocatable", quick: 100, thorough: 4000, f: relocatable },
        ],
    }
}

const WORDS: &[&str] = &["a", "b", "ab", "ba", "A", "Ab", "abc", "a_b", "_a", "a_", "a1", "a11", "_1", "x9", "Type", "type", "folly", "File", "e\u{301}t\u{e9}", "\u{e9}", "\u{df}", "\u{65e5}\u{672c}", "Z", "zz", "fn_", "aB", "a0", "aO", "l1", "lI", "std", "rust"];

fn word(s: &mut Src) -> String {
    let w = if s.chance(1, 4) {
        let n = s.urange(1, 5);
        let mut t = String::new();
        for i in 0..n {
            let pool: Vec<char> = if i == 0 { "abzAZ_x".chars().collect() } else { "abzAZ_x0129".chars().collect() };
            t.push(*s.pick(&pool));
        }
        t
    } else {
        (*s.pick(WORDS)).to_owned()
    };
    // Only NFC; names that the bridge reserves or Rust cannot have are others'.
    let w = w.replace("e\u{301}", "\u{e9}");
    if w.contains("__") || w == "_" || w == "type" || w.starts_with("cxxbridge") { "q".to_owned() } else { w }
}

fn path(s: &mut Src) -> Vec<String> {
    let n = s.weighted(&[3, 4, 2, 1]) + 1;
    (0..n).map(|_| word(s)).collect()
}

/// Another name, a step away or the same.
fn near(s: &mut Src, p: &[String]) -> Vec<String> {
    let mut v = p.to_vec();
    let k = s.us(v.len());
    match s.below(9) {
        0 | 1 => {}
        2 => { v[k] = word(s); }
        3 => { v.insert(k, word(s)); }
        4 => { if v.len() > 1 { v.remove(k); } }
        5 => {
            // Join or split words.
            if v.len() > 1 && k + 1 < v.len() { let t = v.remove(k + 1); v[k] += &t; } else if v[k].chars().count() > 1 {
                let mut c = v[k].chars();
                let first: String = c.next().into_iter().collect();
                let rest: String = c.collect();
                if !rest.starts_with(|c: char| c.is_ascii_digit()) { v[k] = rest; v.insert(k, first); }
            }
        }
        6 => { let t = v[k].clone(); v[k] = if s.coin() { t.to_uppercase() } else { t.to_lowercase() }; }
        7 => { v.reverse(); }
        _ => { v[k].push(*s.pick(&['a', '_', '1', 'A'])); }
    }
    for w in &mut v { if w.contains("__") || w == "_" || w == "type" || w == "ss" || w == "SS" || w == "Self" || w == "self" { *w = "q".to_owned(); } }
    v
}

fn ids(s: &mut Src) -> Result<(), String> {
    let dir = Dir::new();
    let mut main = String::from("#![allow(warnings)]\nuse std::any::TypeId;\nuse cxx::ExternType;\nfn id<T: 'static>() -> TypeId { TypeId::of::<T>() }\n");
    let mut pairs: Vec<(String, String, bool, String)> = Vec::new();
    let n = s.urange(1, 120);
    let mut nontrivial = false;
    for _ in 0..n {
        let p = path(s);
        let q = near(s, &p);
        let lit = |s: &mut Src, p: &[String]| if s.coin() { format!("cxx::type_id!(\"{}\")", p.join("::")) } else { format!("cxx::type_id!({})", p.join("::")) };
        let (a, b) = (lit(s, &p), lit(s, &q));
        nontrivial |= p != q;
        pairs.push((a, b, p == q, format!("{p:?} {q:?}")));
    }
    // Types of bridges.
    let m = s.urange(0, 12);
    for k in 0..m {
        let p = path(s);
        let q = near(s, &p);
        let (name, ns) = p.split_last().unwrap();
        let own_name = name.is_ascii() && s.coin();
        let ident = if own_name { name.clone() } else { format!("T{k}") };
        let attr_name = if own_name { String::new() } else { format!("#[cxx_name = \"{name}\"] ") };
        let quoted = |s: &mut Src, v: &[String]| if s.coin() { format!("\"{}\"", v.join("::")) } else { v.join("::") };
        // The namespace from the module, the block or the item.
        let (mut module, mut block, mut item) = (String::new(), String::new(), String::new());
        if !ns.is_empty() {
            let q = quoted(s, ns);
            match s.below(4) {
                0 => module = format!("(namespace = {q})"),
                1 => block = format!("#[namespace = {q}] "),
                2 => { item = format!("#[namespace = {q}] "); module = "(namespace = \"other::place\")".to_owned(); }
                _ => item = format!("#[namespace = {q}] "),
            }
        } else if s.coin() {
            module = "(namespace = \"other\")".to_owned();
            item = "#[namespace = \"\"] ".to_owned();
        }
        let kind = s.below(4);
        if kind < 2 && !block.is_empty() { item = std::mem::take(&mut block); }
        let text = match kind {
            0 => format!("{item}{attr_name}pub struct {ident} {{ x: u8 }}"),
            1 => format!("{item}{attr_name}pub enum {ident} {{ X }}"),
            2 => format!("{block}unsafe extern \"C++\" {{ {item}{attr_name}type {ident}; }}"),
            _ => format!("{block}extern \"Rust\" {{ #[derive(ExternType)] {item}{attr_name}type {ident}; }}"),
        };
        let def = if kind == 3 { format!("pub struct {ident}(u8);") } else { String::new() };
        let at = if kind == 3 { format!("m{k}::{ident}") } else { format!("m{k}::ffi::{ident}") };
        let _ = writeln!(main, "mod m{k} {{ {def} #[cxx::bridge{module}] pub mod ffi {{ {text} }} }}");
        pairs.push((format!("<{at} as ExternType>::Id"), format!("cxx::type_id!(\"{}\")", p.join("::")), true, format!("{p:?} as {text} in {module:?}")));
        pairs.push((format!("<{at} as ExternType>::Id"), format!("cxx::type_id!(\"{}\")", q.join("::")), p == q, format!("{q:?} for {text} in {module:?}")));
        nontrivial = true;
    }
    main += "fn main() {\n";
    for (i, (a, b, eq, _)) in pairs.iter().enumerate() {
        let _ = writeln!(main, "    if (id::<{a}>() == id::<{b}>()) != {eq} {{ println!(\"differs {i}\"); }}");
    }
    main += "    println!(\"end\");\n}\n";
    s.key(main.as_bytes());
    s.note(|| main.clone());
    if nontrivial { s.nontrivial(); }
    dir.put("main.rs", &main);
    let o = prog::rustc(&dir.0, &["-o", "prog"]);
    if !o.status.success() { return Err(format!("does not compile: {}", prog::errors(&o, &["error"]))); }
    let o = prog::run(&["./prog"], &dir.0);
    let out = String::from_utf8_lossy(&o.stdout);
    if !out.contains("end") { return Err(format!("ended early: {}", prog::errors(&o, &["ERROR"]))); }
    for l in out.lines() {
        if let Some(k) = l.strip_prefix("differs ") {
            let p = &pairs[k.parse::<usize>().unwrap()];
            return Err(format!("identities are {}: {}", if p.2 { "different" } else { "equal" }, p.3));
        }
    }
    Ok(())
}

/// (items, definitions outside, by value). `Ali` is the alias.
const USES: &[(&str, &str, bool)] = &[
    ("", "", false),
    ("unsafe extern \"C++\" { fn u@(x: &Ali); }", "", false),
    ("extern \"Rust\" { fn u@(x: &Ali); }", "fn u@(x: &ffi::Ali) {}", false),
    ("unsafe extern \"C++\" { fn u@(x: u8, y: &Ali) -> Result<u8>; }", "", false),
    ("unsafe extern \"C++\" { fn u@(x: Pin<&mut Ali>); }", "", false),
    ("unsafe extern \"C++\" { fn u@(x: &Ali) -> &Ali; }", "", false),
    ("unsafe extern \"C++\" { unsafe fn u@(x: *const Ali, y: *mut Ali) -> *mut Ali; }", "", false),
    ("unsafe extern \"C++\" { fn u@() -> UniquePtr<Ali>; } impl UniquePtr<Ali> {}", "", false),
    ("unsafe extern \"C++\" { fn u@(x: SharedPtr<Ali>); } impl SharedPtr<Ali> {}", "", false),
    ("struct S@ { a: UniquePtr<Ali> }  impl UniquePtr<Ali> {}", "", false),
    ("unsafe extern \"C++\" { fn u@(x: fn(&Ali)); }", "", false),
    ("unsafe extern \"C++\" { fn u@(self: &Ali); }", "", false),
    ("unsafe extern \"C++\" { fn u@(self: Pin<&mut Ali>); }", "", false),
    ("unsafe extern \"C++\" { fn u@(x: Ali); }", "", true),
    ("unsafe extern \"C++\" { fn u@(x: u8, y: Ali, z: &str) -> Result<()>; }", "", true),
    ("unsafe extern \"C++\" { fn u@() -> Ali; }", "", true),
    ("unsafe extern \"C++\" { fn u@() -> Result<Ali>; }", "", true),
    ("extern \"Rust\" { fn u@(x: Ali); }", "fn u@(x: ffi::Ali) {}", true),
    ("extern \"Rust\" { fn u@() -> Ali; }", "fn u@() -> ffi::Ali { todo!() }", true),
    ("extern \"Rust\" { fn u@() -> Result<Ali>; }", "fn u@() -> Result<ffi::Ali, String> { todo!() }", true),
    ("struct S@ { a: Ali }", "", true),
    ("struct S@ { a: u8, b: Ali, c: u8 }", "", true),
    ("extern \"Rust\" { fn u@(x: Box<Ali>); }", "fn u@(x: Box<ffi::Ali>) {}", true),
    ("unsafe extern \"C++\" { fn u@() -> Vec<Ali>; } impl Vec<Ali> {}", "", true),
    ("extern \"Rust\" { fn u@(x: &[Ali]); }", "fn u@(x: &[ffi::Ali]) {}", true),
    ("unsafe extern \"C++\" { fn u@(x: &[Ali]); }", "", true),
    ("unsafe extern \"C++\" { fn u@(x: &mut [Ali]); }", "", true),
    ("unsafe extern \"C++\" { fn u@(x: &mut Ali); }", "", true),
    ("extern \"Rust\" { fn u@(x: &mut Ali); }", "fn u@(x: &mut ffi::Ali) {}", true),
    ("unsafe extern \"C++\" { fn u@(x: &mut u8) -> &mut Ali; }", "", true),
    ("unsafe extern \"C++\" { fn u@(self: &mut Ali); }", "", true),
    ("unsafe extern \"C++\" { fn u@(x: fn(Ali)); }", "", true),
    ("unsafe extern \"C++\" { fn u@(x: fn(u8) -> Ali); }", "", true),
    ("unsafe extern \"C++\" { fn u@(x: [Ali; 2], y: &Ali, z: Ali); }", "", true),
];

fn attrs(s: &mut Src, p: &[String], ident: &str) -> (String, String) {
    let (name, ns) = p.split_last().unwrap();
    let mut module = String::new();
    let mut item = String::new();
    if name != ident || s.chance(1, 8) { let _ = write!(item, "#[cxx_name = \"{name}\"] "); }
    if ns.is_empty() {
        if s.chance(1, 4) { module = "(namespace = \"zz\")".to_owned(); item += "#[namespace = \"\"] "; }
    } else if s.coin() {
        module = format!("(namespace = \"{}\")", ns.join("::"));
    } else {
        let _ = write!(item, "#[namespace = \"{}\"] ", ns.join("::"));
        if s.chance(1, 4) { module = "(namespace = \"zz::y\")".to_owned(); }
    }
    (module, item)
}

fn aliases(s: &mut Src) -> Result<(), String> {
    let n = s.urange(1, 16);
    let dir = Dir::new();
    let mut main = String::from("#![allow(warnings)]\n");
    let mut expect: Vec<(bool, String)> = Vec::new();
    for k in 0..n {
        let p = path(s);
        // The same name half of the time.
        let q = if s.coin() { p.clone() } else { near(s, &p) };
        let (module, item) = attrs(s, &q, "Ali");
        let lt = s.chance(1, 8);
        let (l0, l1) = if lt { ("<'a>", "<'a>") } else { ("", "") };
        let mut def;
        let mut target = "super::Ext".to_owned();
        let trivial;
        let mut known = true;
        match if lt { s.below(2) } else { s.below(8) } {
            0..=2 => {
                trivial = s.coin();
                let kind = if trivial { "Trivial" } else { "Opaque" };
                let (field, life) = if lt { ("x: u8, p: ::core::marker::PhantomData<&'a u8>", "<'a>") } else { ("x: u8", "") };
                def = format!("#[repr(C)] pub struct Ext{life} {{ {field} }}\nunsafe impl{life} cxx::ExternType for Ext{life} {{ type Id = cxx::type_id!(\"{}\"); type Kind = cxx::kind::{kind}; }}\n", p.join("::"));
                if s.chance(1, 10) { known = false; def = format!("#[repr(C)] pub struct Ext{life} {{ {field} }}\n"); }
            }
            j @ 3..=6 => {
                let (m2, i2) = attrs(s, &p, "Ext");
                trivial = j < 5;
                let text = match j {
                    3 => format!("{i2}pub struct Ext {{ x: u8, y: u32 }}"),
                    4 => format!("{i2}pub enum Ext {{ A, B }}"),
                    5 => format!("unsafe extern \"C++\" {{ {i2}type Ext; }}"),
                    _ => format!("extern \"Rust\" {{ #[derive(ExternType)] {i2}type Ext; }}"),
                };
                def = format!("pub mod other {{\n{}#[cxx::bridge{m2}] pub mod ffi {{ {text} }}\n}}\n", if j == 6 { "#[repr(C)] pub struct Ext(u8);\n" } else { "" });
                target = (if j == 6 { "super::other::Ext" } else { "super::other::ffi::Ext" }).to_owned();
            }
            _ => {
                // A chain: the alias of an alias.
                trivial = s.coin();
                let (m2, i2) = attrs(s, &p, "Mid");
                def = format!("#[repr(C)] pub struct Ext {{ x: u8 }}\nunsafe impl cxx::ExternType for Ext {{ type Id = cxx::type_id!(\"{}\"); type Kind = cxx::kind::{}; }}\nmod mid {{ #[cxx::bridge{m2}] pub mod ffi {{ unsafe extern \"C++\" {{ {i2}type Mid = super::super::Ext; }} }} }}\n", p.join("::"), if trivial { "Trivial" } else { "Opaque" });
                target = "super::mid::ffi::Mid".to_owned();
            }
        }
        let mut value = false;
        let mut uses = String::new();
        let mut needs = Vec::new();
        let count = if lt { s.urange(0, 1) } else { s.urange(0, 3) };
        for j in 0..count {
            let (u, d, v) = if lt { *s.pick(&[("unsafe extern \"C++\" { fn u@(x: &Ali); }", "", false), ("unsafe extern \"C++\" { fn u@(x: Ali); }", "", true), ("struct S@<'a> { a: Ali<'a> }", "", true)]) } else { *s.pick(USES) };
            // The same explicit impl only once.
            if needs.contains(&u) { continue; }
            needs.push(u);
            if u.contains("impl ") && uses.contains("impl ") { continue; }
            uses += "    ";
            uses += &u.replace('@', &j.to_string());
            uses += "\n";
            def += &d.replace('@', &j.to_string());
            def += "\n";
            value |= v;
        }
        let block = if s.coin() { "unsafe extern" } else { "extern" };
        let text = format!("{def}#[cxx::bridge{module}]\npub mod ffi {{\n    {block} \"C++\" {{ {item}type Ali{l0} = {target}{l1}; }}\n{uses}}}\n");
        let ok = known && p == q && (trivial || !value);
        if p != q || value { s.nontrivial(); }
        expect.push((ok, text.clone()));
        dir.put(&format!("m{k}.rs"), &text);
        let _ = writeln!(main, "mod m{k};");
    }
    main += "fn main() {}\n";
    dir.put("main.rs", &main);
    s.key(expect.iter().map(|e| e.1.as_str()).collect::<String>().as_bytes());
    let o = prog::rustc(&dir.0, &["--emit=metadata", "--error-format=short"]);
    let err = String::from_utf8_lossy(&o.stderr).into_owned();
    if err.contains("internal compiler error") || o.status.code() == Some(124) { return Err("rustc ended abnormally".to_owned()); }
    for (k, (ok, text)) in expect.iter().enumerate() {
        let mine: Vec<&str> = err.lines().filter(|l| l.starts_with(&format!("m{k}.rs:")) && l.contains(": error")).collect();
        if mine.is_empty() == *ok { continue; }
        s.note(|| text.clone());
        return Err(if *ok { format!("a sound alias is rejected: {}", mine[0]) } else { "an unsound alias is accepted".to_owned() });
    }
    if err.lines().any(|l| l.starts_with("error") && !l.starts_with("error: aborting")) && expect.iter().all(|e| e.0) {
        return Err(format!("rustc: {}", prog::errors(&o, &["error"])));
    }
    Ok(())
}

/// A random C++ class and whether Rust may move it.
struct Class {
    name: String,
    text: String,
    /// Trivially move constructible and destructible.
    trivial: bool,
    movable: bool,
    relocatable: bool,
    array: bool,
}

fn class(s: &mut Src, k: usize, before: &[Class]) -> Class {
    let name = format!("K{k}");
    if s.chance(1, 10) {
        let n = s.urange(1, 4);
        let (elem, r) = match before.iter().rev().find(|c| !c.array) { Some(c) if s.coin() => (c.name.clone(), c.relocatable), _ => ("char".to_owned(), true) };
        return Class { text: format!("using {name} = {elem}[{n}];\n"), name, trivial: false, movable: false, relocatable: r, array: true };
    }
    if s.chance(1, 12) {
        return Class { text: format!("enum class {name} : unsigned {{ A }};\n"), name, trivial: true, movable: true, relocatable: true, array: false };
    }
    let mut trivial = true;
    let mut movable = true;
    let mut body = String::new();
    let mut base = String::new();
    if s.chance(1, 5) {
        if let Some(b) = before.iter().rev().find(|c| !c.array && !c.text.contains("IsRelocatable") && !c.text.contains(" final") && !c.text.starts_with("enum")) {
            base = format!(" : public {}", b.name);
            trivial &= b.trivial;
            movable &= b.movable;
        }
    }
    for i in 0..s.urange(0, 3) {
        let (t, tr, mv) = match s.below(8) {
            0 => ("int".to_owned(), true, true),
            1 => ("void *".to_owned(), true, true),
            2 => ("::std::string".to_owned(), false, true),
            3 => ("::std::unique_ptr<int>".to_owned(), false, true),
            4 => ("const double".to_owned(), true, true),
            5 => ("::std::atomic<int>".to_owned(), false, false),
            _ => match before.iter().rev().nth(s.us(before.len().max(1))) { Some(c) if !c.array => (c.name.clone(), c.trivial, c.movable), _ => ("char".to_owned(), true, true) },
        };
        let _ = writeln!(body, "  {t} f{i};");
        trivial &= tr;
        movable &= mv;
    }
    let members_copy = !body.contains("unique_ptr") && !body.contains("atomic");
    match s.below(12) {
        0 => { let _ = writeln!(body, "  ~{name}();"); trivial = false; }
        1 if members_copy && base.is_empty() && !body.contains('K') => { let _ = writeln!(body, "  ~{name}() = default;"); }
        2 => { let _ = writeln!(body, "  {name}({name} &&) noexcept;"); trivial = false; movable = true; }
        3 if members_copy && !body.contains('K') && base.is_empty() => { let _ = writeln!(body, "  {name}(const {name} &);"); trivial = false; movable = true; }
        4 if movable => { let _ = writeln!(body, "  {name}({name} &&) = default;\n  {name}(const {name} &) = delete;"); }
        5 => { let _ = writeln!(body, "  {name}(const {name} &) = delete;"); trivial = false; movable = false; }
        6 => { let _ = writeln!(body, "  virtual void v();"); trivial = false; }
        7 if members_copy && base.is_empty() && !body.contains('K') => { let _ = writeln!(body, "  {name} &operator=(const {name} &);"); }
        8 if members_copy && base.is_empty() && !body.contains('K') => { let _ = writeln!(body, "  {name}(const {name} &) = default;"); }
        9 => { let _ = writeln!(body, "  {name}(int);"); }
        _ => {}
    }
    let mut relocatable = trivial;
    let mut after = String::new();
    match s.below(12) {
        0 | 1 => { body += "  using IsRelocatable = ::std::true_type;\n"; relocatable = true; }
        2 => { body += "  using IsRelocatable = ::std::false_type;\n"; relocatable = false; }
        3 => { body += "  struct IsRelocatable {};\n"; relocatable = false; }
        4 => { after = format!("}}\nnamespace rust {{ template <> struct IsRelocatable<::lab::{name}> : ::std::true_type {{}}; }}\nnamespace lab {{\n"); relocatable = true; }
        5 => { body += "  typedef ::std::true_type IsRelocatable;\n"; relocatable = true; }
        _ => {}
    }
    // Moving it must at least be possible in C++.
    let key = if s.chance(1, 6) { " final" } else { "" };
    Class { text: format!("struct {name}{key}{base} {{\n{body}}};\n{after}"), name, trivial, movable, relocatable, array: false }
}

fn relocatable(s: &mut Src) -> Result<(), String> {
    let mut classes: Vec<Class> = Vec::new();
    for k in 0..s.urange(1, 6) { let c = class(s, k, &classes); classes.push(c); }
    let dir = Dir::new();
    let mut h = String::from("#pragma once\n#include \"rust/cxx.h\"\n#include <atomic>\n#include <memory>\n#include <string>\nnamespace lab {\n");
    for c in &classes { h += &c.text; }
    h += "}\n";
    let mut bridge = String::from("#[cxx::bridge(namespace = \"lab\")]\nmod ffi {\n    unsafe extern \"C++\" {\n        include!(\"user.h\");\n");
    for c in &classes { let _ = writeln!(bridge, "        type {0} = crate::{0};", c.name); }
    bridge += "    }\n";
    let mut decls = String::from("namespace lab {\n");
    let mut want: Vec<(String, bool)> = Vec::new();
    let mut model = String::new();
    for (k, c) in classes.iter().enumerate() {
        if !c.array {
            let (n, r) = (&c.name, c.relocatable);
            let _ = writeln!(model, "static_assert(::rust::IsRelocatable<::lab::{n}>::value == {r}, \"@model {n}@\");\nstatic_assert(::rust::is_relocatable<::lab::{n}>::value == {r}, \"@model {n}@\");");
            if !c.text.contains("IsRelocatable") {
                let _ = writeln!(model, "static_assert((::std::is_trivially_move_constructible<::lab::{n}>::value && ::std::is_trivially_destructible<::lab::{n}>::value) == {}, \"@harness {n}@\");", c.trivial);
            }
        }
        let n = &c.name;
        // By reference nothing is demanded. A type that C++ cannot move at all
        // is not passed by value, whatever it says.
        let by_value = s.chance(3, 4) && (c.movable || !c.relocatable || c.array);
        let mut only_storage = true;
        let mut any = false;
        for _ in 0..s.urange(1, 2) {
            if !by_value {
                let _ = writeln!(bridge, "    unsafe extern \"C++\" {{ fn r{k}{any}(x: &{n}); }}");
                let _ = writeln!(decls, "void r{k}{any}(const {n} &);");
                any = true;
                break;
            }
            let tag = if any { "b" } else { "a" };
            let pick = if c.array && s.coin() { 0 } else { s.below(9) };
            match pick {
                0 => { let _ = writeln!(bridge, "    struct S{k}{tag} {{ a: u8, b: {n} }}"); }
                1 => { let _ = writeln!(bridge, "    unsafe extern \"C++\" {{ fn f{k}{tag}(x: &Vec<{n}>); }} "); let _ = writeln!(decls, "void f{k}{tag}(const ::rust::Vec<{n}> &);"); }
                2 => { only_storage = false; let _ = writeln!(bridge, "    unsafe extern \"C++\" {{ fn f{k}{tag}(x: {n}); }}"); let _ = writeln!(decls, "void f{k}{tag}({n});"); }
                3 if !c.array => { only_storage = false; let _ = writeln!(bridge, "    unsafe extern \"C++\" {{ fn f{k}{tag}() -> {n}; }}"); let _ = writeln!(decls, "{n} f{k}{tag}();"); }
                4 => { only_storage = false; let _ = writeln!(bridge, "    extern \"Rust\" {{ fn f{k}{tag}(x: {n}); }}"); }
                5 if !c.array => { only_storage = false; let _ = writeln!(bridge, "    extern \"Rust\" {{ fn f{k}{tag}() -> {n}; }}"); }
                6 => { only_storage = false; let _ = writeln!(bridge, "    unsafe extern \"C++\" {{ fn f{k}{tag}(x: &mut {n}); }}"); let _ = writeln!(decls, "void f{k}{tag}({n} &);"); }
                7 => { only_storage = false; let _ = writeln!(bridge, "    unsafe extern \"C++\" {{ fn f{k}{tag}(x: &[{n}]); }}"); let _ = writeln!(decls, "void f{k}{tag}(::rust::Slice<const {n}>);"); }
                _ => { only_storage = false; let _ = writeln!(bridge, "    unsafe extern \"C++\" {{ fn f{k}{tag}(x: &Box<{n}>); }}"); let _ = writeln!(decls, "void f{k}{tag}(const ::rust::Box<{n}> &);"); }
            }
            any = true;
        }
        let ok = !by_value || if c.array { c.relocatable && only_storage } else { c.relocatable };
        if by_value { s.nontrivial(); }
        want.push((n.clone(), ok));
    }
    bridge += "}\n";
    h += &decls;
    h += "}\n";
    dir.put("user.h", &h);
    let g = prog::generate(&bridge)?;
    dir.put("gen.cc", &g.implementation);
    dir.put("model.cc", &format!("#include \"user.h\"\n{model}"));
    s.key((bridge.clone() + &h).as_bytes());
    s.note(|| format!("{bridge}\n-----\n{h}"));
    let (compiler, limit) = if s.coin() { ("g++", "-fmax-errors=0") } else { ("clang++", "-ferror-limit=0") };
    let std = *s.pick(&["-std=c++11", "-std=c++14", "-std=c++17", "-std=c++20"]);
    let inc = format!("-I{}", prog::target().join("inc").display());
    let o = prog::run(&[compiler, std, "-fsyntax-only", "-w", limit, &inc, "-I.", "model.cc"], &dir.0);
    if !o.status.success() {
        let e = prog::errors(&o, &["@harness", "@model", "error:"]);
        return Err(if e.contains("@harness") { format!("HARNESS: {compiler} {std}: {e}") } else { format!("IsRelocatable is wrong: {compiler} {std}: {e}") });
    }
    let o = prog::run(&[compiler, std, "-fsyntax-only", "-w", limit, &inc, "-I.", "gen.cc"], &dir.0);
    let err = String::from_utf8_lossy(&o.stderr).into_owned();
    for (n, ok) in &want {
        let refused = err.lines().any(|l| l.contains("error:") && l.contains(&format!("type lab::{n} should be trivially")));
        if refused == *ok {
            return Err(format!("{compiler} {std}: {n} is {} by value", if refused { "refused" } else { "accepted" }));
        }
    }
    if want.iter().all(|w| w.1) && !o.status.success() {
        return Err(format!("{compiler} {std}: sound uses do not compile: {}", prog::errors(&o, &["error:"])));
    }
    Ok(())
}
