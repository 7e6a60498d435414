//! C29: the Rust code which a bridge expands to compiles wherever it stands.
use crate::calls::nontrivial;
use crate::prog::{self, Dir};
use bgen::gen::{bridge, Profile};
use bgen::render::Text;
use pbt::{Entry, Prop, Src};
use std::fmt::Write;

pub fn entry() -> Entry {
    Entry {
        id: "C29",
        rule: "A case is a random accepted bridge with user code that implements and calls all of it, compiled by rustc in a random edition and surroundings (warnings denied in the bridge, lints of later editions, no prelude, names of the prelude and of built-in macros taken by others, crate without std). Nothing may be reported. Non-trivial when the bridge has calls in both directions and an argument or result which is not a primitive; distinct by text.",
        assumptions: &["rustc nightly-2025-04-08. Lints about names the user chose, unused items and unused imports are the user's.", "The lints are those the repository's own test crate turns on: warnings, rust_2024_compatibility and unsafe_op_in_unsafe_fn."],
        props: vec![Prop { name: "anywhere", quick: 700, thorough: 12_000, f: anywhere }],
    }
}

/// Defined before the bridge, so in scope in it.
const MACROS: &[&str] = &["concat", "module_path", "panic", "unreachable", "unimplemented", "assert", "debug_assert", "assert_eq", "matches", "write", "format", "format_args", "vec", "stringify", "env", "line", "compile_error"];
/// Next to the bridge.
const ITEMS: &[&str] = &["pub mod core {}", "pub mod std {}", "pub mod alloc {}", "pub mod cxx {}", "pub struct MaybeUninit;", "pub trait Sized2 {}", "pub fn drop() {}", "pub mod mem {}", "pub mod ptr {}", "pub mod private {}", "pub struct c_void;", "pub mod option {}", "pub fn transmute() {}"];

fn anywhere(s: &mut Src) -> Result<(), String> {
    let mut p = Profile::calls();
    p.structs = (0, 4);
    p.enums = (0, 3);
    p.fns = (4, 18);
    p.noise = s.coin();
    p.fancy = s.coin();
    p.namespaces = s.coin();
    p.derives = s.coin();
    p.external = s.chance(1, 3);
    p.ptr_fields = s.coin();
    let t = Text::new(bridge(s, &p), "0", 1);
    if nontrivial(&t.b) { s.nontrivial(); }
    let edition = *s.pick(&["2018", "2021", "2024"]);
    let mut root = String::from("#![warn(unsafe_op_in_unsafe_fn, rust_2024_compatibility)]\n");
    if s.chance(1, 3) { root += "#![no_std]\nextern crate std;\n"; }
    root += "extern crate lab;\n";
    for m in MACROS { if s.chance(1, 6) { let _ = writeln!(root, "#[allow(unused_macros)]\nmacro_rules! {m} {{ ($($t:tt)*) => {{ not_this_one }} }}"); } }
    let mut head = String::from("#[deny(warnings)]\n");
    if s.coin() { head += "#[forbid(unsafe_op_in_unsafe_fn)]\n"; }
    head += "#[allow(dead_code, non_snake_case, non_camel_case_types, non_upper_case_globals, unused_imports)]\npub mod ffi {\n";
    let bare = s.coin();
    let rust = t.rust().replacen("#[cxx::bridge", "#[::cxx::bridge", 1).replacen("pub mod ffi {\n", &head, 1);
    // What is the user's own follows the edition and names what it needs.
    let at = rust.find("pub mod lab_glue").unwrap();
    let (bridge, glue) = rust.split_at(at);
    let mut glue = glue.to_owned();
    if bare { glue = glue.replacen("#![allow(warnings)]\n", "#![allow(warnings)]\nuse ::std::prelude::rust_2021::*;\n", 1); }
    if edition == "2024" { glue = glue.replace("#[no_mangle]", "#[unsafe(no_mangle)]").replace("extern \"C\" {", "unsafe extern \"C\" {"); }
    let mut beside = String::new();
    for i in ITEMS {
        let name = i.split(|c: char| !c.is_alphanumeric() && c != '_').nth(2).unwrap();
        let word = |t: &str| t.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == name);
        if s.chance(1, 4) && !t.b.types.iter().any(|d| word(&d.name.rust)) && !t.b.fns.iter().any(|f| word(&f.name.rust)) { beside += i; beside += "\n"; }
    }
    let main = format!("{root}#[allow(warnings)]\n{}pub mod m0 {{\n{bridge}\n{beside}{glue}\n}}\nfn main() {{}}\n", if bare { "#[no_implicit_prelude]\n" } else { "" });
    s.key(main.as_bytes());
    s.note(|| format!("// edition {edition}\n{main}"));
    let dir = Dir::new();
    dir.put("main.rs", &main);
    let o = prog::rustc_in(&dir.0, edition, "--cap-lints=forbid", &["--emit=metadata", "--error-format=short"]);
    if o.status.success() { return Ok(()); }
    let stderr = String::from_utf8_lossy(&o.stderr);
    if o.status.code() == Some(124) || stderr.contains("internal compiler error") { return Err("rustc ended abnormally".to_owned()); }
    Err(format!("edition {edition}: the expansion is reported: {}", prog::errors(&o, &["error"])))
}
