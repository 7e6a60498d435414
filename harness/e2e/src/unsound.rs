//! C21: unsound and unsupported constructs are rejected wherever they occur;
//! the same bridge with a sound construct in their place is accepted.
use crate::prog;
use crate::robust::base_bridge;
use pbt::{Entry, Prop, Src};

pub fn entry() -> Entry {
    Entry {
        id: "C21",
        rule: "A case is a random accepted bridge into which one unsound or unsupported construct is planted at a random position and nesting; it must be rejected, and the same bridge with a sound construct in the same place must be accepted. Every case is non-trivial; distinct by construct, position and bridge.",
        assumptions: &["The generator front end is the one the macro uses too (C17 checks that both agree)."],
        props: vec![
            Prop { name: "types", quick: 40_000, thorough: 1_500_000, f: types },
            Prop { name: "items", quick: 24_000, thorough: 700_000, f: items },
        ],
    }
}

pub const SCAFFOLD: &str = "
    struct Zs { a: u8 }
    #[derive(Clone)] struct Zl<'a> { a: &'a str }
    #[repr(u8)] enum Ze { A, B }
    extern \"Rust\" { type Zr; type Zr2; }
    unsafe extern \"C++\" { type Zc; type Zc2; type Za = crate::Za; }
";

/// Inserts text between two items of the module.
pub fn insert(s: &mut Src, module: &str, text: &str) -> String {
    let lines: Vec<&str> = module.lines().collect();
    let start = lines.iter().position(|l| l.starts_with("pub mod ffi")).unwrap() + 1;
    let mut at: Vec<usize> = vec![start];
    at.extend((start..lines.len()).filter(|i| lines[*i] == "    }").map(|i| i + 1));
    let at = *s.pick(&at);
    let mut out = lines[..at].join("\n");
    out += "\n";
    out += text;
    out += "\n";
    out += &lines[at..].join("\n");
    out
}

fn accepted(module: &str) -> Result<(), String> {
    let mut opt = cxx_gen::Opt::default();
    opt.include.clear();
    prog::generate_with(module, &opt).map(drop)
}

/// Rejected whatever surrounds them.
pub const BAD_ANYWHERE: &[&str] = &[
    "Box<Zc>", "Box<u8>", "Box<String>", "Box<CxxString>", "Box<Box<Zs>>", "Box<Vec<u8>>", "Box<&Zs>", "Box<[u8; 2]>", "Box<UniquePtr<Zc>>", "Box<Zq>", "Box<CxxVector<u8>>", "Box<bool>", "Box<c_char>",
    "Vec<Zc>", "Vec<CxxString>", "Vec<Vec<u8>>", "Vec<Box<Zs>>", "Vec<UniquePtr<Zc>>", "Vec<SharedPtr<Zs>>", "Vec<&Zs>", "Vec<&[u8]>", "Vec<[u8; 2]>", "Vec<Zq>", "Vec<*const u8>", "Vec<WeakPtr<Zs>>", "Vec<CxxVector<u8>>", "Vec<fn()>",
    "UniquePtr<Zr>", "UniquePtr<u8>", "UniquePtr<String>", "UniquePtr<Box<Zs>>", "UniquePtr<UniquePtr<Zc>>", "UniquePtr<Vec<u8>>", "UniquePtr<&Zs>", "UniquePtr<Zq>", "UniquePtr<c_char>", "UniquePtr<bool>", "UniquePtr<SharedPtr<Zc>>", "UniquePtr<[u8; 2]>", "UniquePtr<CxxVector<Zr>>", "UniquePtr<CxxVector<bool>>", "UniquePtr<CxxVector<c_char>>", "UniquePtr<CxxVector<String>>", "UniquePtr<CxxVector<Vec<u8>>>", "UniquePtr<CxxVector<Zq>>", "UniquePtr<CxxVector<CxxVector<u8>>>", "UniquePtr<CxxVector<Box<Zr>>>", "UniquePtr<CxxVector<SharedPtr<Zs>>>", "UniquePtr<CxxVector<&Zs>>",
    "SharedPtr<Zr>", "SharedPtr<String>", "SharedPtr<c_char>", "SharedPtr<CxxVector<u8>>", "SharedPtr<Vec<u8>>", "SharedPtr<Box<Zs>>", "SharedPtr<Zq>", "SharedPtr<&Zs>", "SharedPtr<SharedPtr<Zs>>", "SharedPtr<[u8; 2]>",
    "WeakPtr<Zr>", "WeakPtr<String>", "WeakPtr<c_char>", "WeakPtr<CxxVector<u8>>", "WeakPtr<Vec<u8>>", "WeakPtr<Zq>", "WeakPtr<&Zs>", "WeakPtr<Box<Zs>>",
    "&CxxVector<Zr>", "&CxxVector<bool>", "&CxxVector<c_char>", "&CxxVector<String>", "&CxxVector<Zq>", "Pin<&mut CxxVector<Vec<u8>>>", "&CxxVector<CxxVector<u8>>", "&CxxVector<UniquePtr<Zc>>",
    "&mut Zc", "&mut CxxString", "&mut CxxVector<u8>", "&mut CxxVector<Zs>", "&'static mut Zc",
    "&&u8", "&&Zs", "&mut &u8", "&fn()", "&mut fn()", "&[Zc]", "&mut [Zc]", "&[CxxString]", "&mut [CxxString]", "&[&u8]", "&[&Zs]", "&[CxxVector<u8>]", "&[fn()]", "[Zc; 2]", "[Zr; 2]", "[CxxString; 2]", "[&u8; 1]", "[CxxVector<u8>; 2]", "[fn(); 2]", "[[Zc; 2]; 2]", "[[Zr; 1]; 1]", "*const &u8", "*mut fn()", "*const &Zs",
    "Zq", "&Zq", "&mut Zq", "&[Zq]", "*const Zq", "Pin<&mut Zq>", "Option<u8>", "u128", "char", "[u8; 0]", "[u8; N]", "[u8; 1 + 1]", "(u8, u8)", "(u8,)", "Result<u8, u8>", "dyn Zt", "impl Zt", "!", "_", "crate::Zs", "self::Zs", "Box<dyn Zt>", "fn(...)", "fn(*const u8)", "fn() -> Result<()>", "fn() -> Result<u8>", "fn(Zc)", "fn(Zr)", "fn() -> Zc", "fn() -> Zr", "fn(CxxString)", "fn() -> CxxString", "fn() -> CxxVector<u8>", "fn(fn())", "fn() -> fn()", "fn(&mut Zc)", "fn(Zq)", "fn() -> Box<Zc>", "fn(&[Zc])", "Vec<>", "Vec<u8, u8>", "Box<'static, u8>", "Pin<Box<Zs>>", "Pin<&mut Pin<&mut Zc>>", "Pin<u8>", "Zs<u8>", "Zs<'static, u8>", "std::vec::Vec<u8>", "cxx::UniquePtr<Zc>", "HashMap<u8, u8>", "*u8", "u8 + Send",
];

/// Rejected by value: as an argument, result, field or array element.
const BAD_VALUE: &[&str] = &["Zc", "Zr", "CxxString", "CxxVector<u8>", "CxxVector<Zs>", "CxxVector<CxxString>", "[Zc; 3]", "[Zr; 3]", "Zc2", "Zr2", "[[CxxString; 1]; 1]"];

/// Sound in any position, to take the place of the above.
const GOOD: &[&str] = &["u8", "Zs", "Ze", "String", "bool", "f64", "Vec<u8>", "Box<Zr>", "UniquePtr<Zc>", "SharedPtr<Zs>", "WeakPtr<Zc>", "[u8; 2]", "usize", "Vec<Zr>", "Box<Zs>", "UniquePtr<CxxVector<Zc>>", "c_char"];

/// A type around `T`: `@` marks its place; what is good in it stays good.
fn around(s: &mut Src, refs: bool, ptrs: bool) -> String {
    let mut t = "@".to_owned();
    for _ in 0..s.weighted(&[4, 2, 1]) {
        t = format!("[{t}; {}]", s.urange(1, 4));
    }
    match s.below(if refs { 6 } else { 2 }) {
        0 | 1 => t,
        2 => format!("&'static {t}"),
        3 => format!("&{t}"),
        4 => format!("&[{t}]"),
        _ if ptrs => format!("*const {t}"),
        _ => format!("&mut {t}"),
    }
}

/// Items with `@` for the type.
fn position(s: &mut Src, shape: &str) -> String {
    let extra = *s.pick(&["", "", "x0: u8, ", "x0: &mut Zs, ", "x0: Box<Zr>, "]);
    let block = *s.pick(&["unsafe extern \"C++\"", "extern \"Rust\""]);
    let un = *s.pick(&["", "unsafe "]);
    let tail = *s.pick(&["", "", ", x9: String", ", x9: &str"]);
    let ret = *s.pick(&["", "", " -> u8", " -> Result<()>", " -> Result<String>"]);
    let un = if shape.starts_with('*') { "unsafe " } else { un };
    let ptr_ok = !shape.starts_with('*');
    match s.below(12) {
        0 | 1 => format!("    {block} {{ {un}fn zf({extra}x: {shape}{tail}){ret}; }}"),
        2 => format!("    {block} {{ unsafe fn zf(x0: &mut Zs) -> {shape}; }}"),
        3 => format!("    {block} {{ unsafe fn zf(x0: &mut Zs) -> Result<{shape}>; }}"),
        4 => format!("    extern \"Rust\" {{ type Zr3; {un}fn zf(self: &Zr3, {extra}x: {shape}{tail}){ret}; }}"),
        5 => format!("    unsafe extern \"C++\" {{ type Zc3; {un}fn zf(self: Pin<&mut Zc3>, {extra}x: {shape}{tail}){ret}; }}"),
        6 => format!("    extern \"Rust\" {{ unsafe fn zf(self: &Zs, x0: u8) -> {shape}; }}"),
        7 if ptr_ok => format!("    unsafe extern \"C++\" {{ {un}fn zf({extra}x: fn({}y: {shape}){}{tail}){ret}; }}", s.pick(&["", "w: u8, "]), s.pick(&["", " -> u8"])),
        8 => format!("    unsafe extern \"C++\" {{ {un}fn zf({extra}x: fn({}) -> {shape}{tail}){ret}; }}", s.pick(&["", "w: u8", "w: &mut Zs"])),
        9 => format!("    pub struct Zt<'static2> {{ a: &'static2 str, b: {}, c: u8 }}", shape.replace("'static ", "'static2 ").replace("&@", "&'static2 @").replace("&[", "&'static2 [").replace("&mut ", "&'static2 mut ")),
        10 => format!("    {block} {{ fn z1(); {un}fn zf({extra}x: {shape}{tail}){ret}; fn z2(x: u8); }}"),
        _ => format!("    {block} {{ #[cxx_name = \"zg\"] {un}fn zf({extra}x: {shape}{tail}){ret}; }}"),
    }
}

fn types(s: &mut Src) -> Result<(), String> {
    let base = base_bridge(s).bridge("impl.h");
    let (bad, shape) = if s.chance(2, 3) {
        let bad = *s.pick(BAD_ANYWHERE);
        (bad, around(s, true, true))
    } else {
        (*s.pick(BAD_VALUE), around(s, false, false))
    };
    let pos = position(s, &shape);
    let mut good = *s.pick(GOOD);
    // What a slice or array cannot hold is not there to be replaced.
    if shape != "@" && good.starts_with("fn") { good = "u8"; }
    check(s, &base, &pos.replace('@', bad), Some(&pos.replace('@', good)))
}

/// (unsound, sound) items.
pub const ITEMS: &[(&str, &str)] = &[
    // Calling C++ is unsafe unless someone says otherwise.
    ("extern \"C++\" { fn zf(); }", "unsafe extern \"C++\" { fn zf(); }"),
    ("extern \"C++\" { unsafe fn z1(); fn zf(x: u8) -> u8; }", "extern \"C++\" { unsafe fn z1(); unsafe fn zf(x: u8) -> u8; }"),
    ("extern \"C++\" { fn zf(self: &Zc); }", "extern \"C++\" { unsafe fn zf(self: &Zc); }"),
    ("extern \"C++\" { type Zn; fn zf(&self) -> Result<()>; }", "unsafe extern \"C++\" { type Zn; fn zf(&self) -> Result<()>; }"),
    ("unsafe extern \"Rust\" { fn zf(); }", "extern \"Rust\" { fn zf(); }"),
    // Raw pointers.
    ("unsafe extern \"C++\" { fn zf(x: *const u8); }", "unsafe extern \"C++\" { unsafe fn zf(x: *const u8); }"),
    ("unsafe extern \"C++\" { fn zf(y: u8, x: *mut Zc) -> Result<()>; }", "unsafe extern \"C++\" { unsafe fn zf(y: u8, x: *mut Zc) -> Result<()>; }"),
    ("extern \"Rust\" { fn zf(x: *mut Zr); }", "extern \"Rust\" { unsafe fn zf(x: *mut Zr); }"),
    ("extern \"Rust\" { fn zf(self: &Zr, x: *const *const u8); }", "extern \"Rust\" { unsafe fn zf(self: &Zr, x: *const *const u8); }"),
    ("unsafe extern \"C++\" { fn zf(self: &Zc, x: *const u8); }", "unsafe extern \"C++\" { unsafe fn zf(self: &Zc, x: *const u8); }"),
    ("unsafe extern \"C++\" { fn zf(x: fn(y: *const u8)); }", "unsafe extern \"C++\" { fn zf(x: unsafe fn(y: *const u8)); }"),
    ("unsafe extern \"C++\" { unsafe fn zf(x: fn(z: u8, y: *mut Zs) -> u8); }", "unsafe extern \"C++\" { unsafe fn zf(x: unsafe fn(z: u8, y: *mut Zs) -> u8); }"),
    // An alias which need not be trivial is as opaque as any C++ type.
    ("struct Zn<'a> { a: &'a mut Za }", "struct Zn<'a> { a: Pin<&'a mut Za> }"),
    ("struct Zn<'a> { a: &'a mut Za, b: u8 }", "struct Zn<'a> { a: &'a mut Zs, b: u8 }"),
    ("unsafe extern \"C++\" { fn zf(x: fn(y: &mut Za)); }", "unsafe extern \"C++\" { fn zf(x: fn(y: Pin<&mut Za>)); }"),
    ("unsafe extern \"C++\" { fn zf(x: u8, y: fn(u8, &mut Za) -> u8); }", "unsafe extern \"C++\" { fn zf(x: u8, y: fn(u8, &Za) -> u8); }"),
    // Explicit lifetimes.
    ("extern \"C++\" { unsafe fn zf<'a>(x: &'a u8) -> &'a u8; }", "unsafe extern \"C++\" { unsafe fn zf<'a>(x: &'a u8) -> &'a u8; }"),
    ("extern \"Rust\" { fn zf<'a>(x: &'a u8) -> &'a u8; }", "extern \"Rust\" { unsafe fn zf<'a>(x: &'a u8) -> &'a u8; }"),
    ("extern \"Rust\" { fn zf<'a>(self: &'a Zr, x: &str) -> &'a u8; }", "extern \"Rust\" { unsafe fn zf<'a>(self: &'a Zr, x: &str) -> &'a u8; }"),
    ("unsafe extern \"C++\" { fn zf<'static>(x: &'static u8); }", "unsafe extern \"C++\" { fn zf<'a>(x: &'a u8); }"),
    ("struct Zn<'static> { a: &'static str }", "struct Zn<'a> { a: &'a str }"),
    // Mutable results need something mutable to come from.
    ("unsafe extern \"C++\" { fn zf() -> &mut u8; }", "unsafe extern \"C++\" { unsafe fn zf() -> &mut u8; }"),
    ("unsafe extern \"C++\" { fn zf(x: &u8) -> &mut u8; }", "unsafe extern \"C++\" { fn zf(x: &mut u8) -> &mut u8; }"),
    ("unsafe extern \"C++\" { fn zf(x: &[u8], y: &str) -> &mut [u8]; }", "unsafe extern \"C++\" { fn zf(x: &mut [u8], y: &str) -> &mut [u8]; }"),
    ("unsafe extern \"C++\" { fn zf(self: &Zc) -> Pin<&mut Zc>; }", "unsafe extern \"C++\" { fn zf(self: Pin<&mut Zc>) -> Pin<&mut Zc>; }"),
    ("unsafe extern \"C++\" { fn zf(self: &Zc, x: u8) -> &mut u8; }", "unsafe extern \"C++\" { fn zf(self: Pin<&mut Zc>, x: u8) -> &mut u8; }"),
    ("unsafe extern \"C++\" { fn zf(x: &Zc) -> Result<Pin<&mut Zc>>; }", "unsafe extern \"C++\" { fn zf(x: Pin<&mut Zc>) -> Result<Pin<&mut Zc>>; }"),
    ("unsafe extern \"C++\" { fn zf(x: Box<Zr>) -> &mut Zr; }", "unsafe extern \"C++\" { fn zf(x: &mut Zr) -> &mut Zr; }"),
    ("unsafe extern \"C++\" { fn zf(x: &CxxVector<u8>) -> Result<&mut [u8]>; }", "unsafe extern \"C++\" { fn zf(x: Pin<&mut CxxVector<u8>>) -> Result<&mut [u8]>; }"),
    // Receivers.
    ("unsafe extern \"C++\" { fn zf(self: &mut Zc); }", "unsafe extern \"C++\" { fn zf(self: Pin<&mut Zc>); }"),
    ("unsafe extern \"C++\" { type Zn; fn zf(&mut self); }", "unsafe extern \"C++\" { type Zn; fn zf(&self); }"),
    ("unsafe extern \"C++\" { fn zf(self: &Ze); }", "unsafe extern \"C++\" { fn zf(self: &Zs); }"),
    ("extern \"Rust\" { fn zf(self: &mut Ze); }", "extern \"Rust\" { fn zf(self: &mut Zs); }"),
    ("extern \"Rust\" { fn zf(self: &Zq); }", "extern \"Rust\" { fn zf(self: &Zr); }"),
    ("extern \"Rust\" { fn zf(&self); }", "extern \"Rust\" { type Zn; fn zf(&self); }"),
    ("extern \"Rust\" { type Zn; type Zn2; fn zf(&self); }", "extern \"Rust\" { type Zn; fn zf(&self); }"),
    ("extern \"Rust\" { fn zf(self: Zr); }", "extern \"Rust\" { fn zf(self: &Zr); }"),
    ("extern \"Rust\" { type Zn; fn zf(self); }", "extern \"Rust\" { type Zn; fn zf(&self); }"),
    ("extern \"Rust\" { fn zf(self: Box<Zr>); }", "extern \"Rust\" { fn zf(self: &mut Zr); }"),
    ("unsafe extern \"C++\" { fn zf(self: UniquePtr<Zc>); }", "unsafe extern \"C++\" { fn zf(x: UniquePtr<Zc>); }"),
    // Function pointers.
    ("extern \"Rust\" { fn zf(x: fn()); }", "unsafe extern \"C++\" { fn zf(x: fn()); }"),
    ("unsafe extern \"C++\" { fn zf() -> fn(); }", "unsafe extern \"C++\" { fn zf(); }"),
    ("struct Zn { a: u8, b: fn(u8) -> u8 }", "struct Zn { a: u8, b: u8 }"),
    ("unsafe extern \"C++\" { fn zf(x: &[fn()]); }", "unsafe extern \"C++\" { fn zf(x: &[u8]); }"),
    // Shared types.
    ("struct Zn {}", "struct Zn { a: u8 }"),
    ("struct Zn;", "struct Zn { a: u8 }"),
    ("struct Zn(u8);", "struct Zn { a: u8 }"),
    ("struct Zn<T> { a: T }", "struct Zn { a: u8 }"),
    ("struct Zn<'a: 'b, 'b> { a: &'a str, b: &'b str }", "struct Zn<'a, 'b> { a: &'a str, b: &'b str }"),
    ("struct Zn<const N: usize> { a: [u8; 3] }", "struct Zn { a: [u8; 3] }"),
    ("struct Zn where u8: Copy { a: u8 }", "struct Zn { a: u8 }"),
    ("struct Zn { a: Zn }", "struct Zn { a: Box<Zn> }"),
    ("struct Zn { a: Zn2 } struct Zn2 { a: Zn }", "struct Zn { a: Zn2 } struct Zn2 { a: Box<Zn> }"),
    ("struct Zn { a: [Zn2; 2] } struct Zn2 { b: Zn3 } struct Zn3 { c: [Zn; 1] }", "struct Zn { a: [Zn2; 2] } struct Zn2 { b: Zn3 } struct Zn3 { c: Vec<Zn> }"),
    ("#[repr(C)] struct Zn { a: u8 }", "struct Zn { a: u8 }"),
    ("#[derive(Zzz)] struct Zn { a: u8 }", "#[derive(Clone)] struct Zn { a: u8 }"),
    ("#[derive(ExternType)] struct Zn { a: u8 }", "#[derive(Clone)] struct Zn { a: u8 }"),
    ("#[derive(serde::Serialize)] struct Zn { a: u8 }", "#[derive(Debug)] struct Zn { a: u8 }"),
    ("#[cxx_name = \"a b\"] struct Zn { a: u8 }", "#[cxx_name = \"ab\"] struct Zn { a: u8 }"),
    ("#[cxx_name = \"\"] struct Zn { a: u8 }", "#[cxx_name = \"ab\"] struct Zn { a: u8 }"),
    ("#[cxx_name = \"a::b\"] struct Zn { a: u8 }", "#[cxx_name = \"ab\"] struct Zn { a: u8 }"),
    ("#[rust_name = \"a-b\"] struct Zn { a: u8 }", "#[rust_name = \"Zn4\"] struct Zn { a: u8 }"),
    ("#[namespace = \"a b\"] struct Zn { a: u8 }", "#[namespace = \"a::b\"] struct Zn { a: u8 }"),
    ("#[namespace = 5] struct Zn { a: u8 }", "#[namespace = a] struct Zn { a: u8 }"),
    ("struct Zn { #[namespace = a] a: u8 }", "struct Zn { #[cxx_name = \"b\"] a: u8 }"),
    ("enum Zn {}", "#[repr(u8)] enum Zn {}"),
    ("enum Zn { A(u8) }", "enum Zn { A }"),
    ("enum Zn { A, B { x: u8 } }", "enum Zn { A, B }"),
    ("enum Zn<T> { A }", "enum Zn { A }"),
    ("enum Zn where u8: Copy { A }", "enum Zn { A }"),
    ("#[repr(C)] enum Zn { A }", "#[repr(i8)] enum Zn { A }"),
    ("#[repr(u8, u16)] enum Zn { A }", "#[repr(u16)] enum Zn { A }"),
    ("#[repr(bool)] enum Zn { A }", "#[repr(i64)] enum Zn { A }"),
    ("#[repr(f32)] enum Zn { A }", "#[repr(usize)] enum Zn { A }"),
    ("#[derive(Default)] enum Zn { A }", "#[derive(Debug)] enum Zn { A }"),
    ("#[derive(ExternType)] enum Zn { A }", "#[derive(Hash)] enum Zn { A }"),
    ("enum Zn { A = -1, B = 18446744073709551615 }", "enum Zn { A = -1, B = 9223372036854775807 }"),
    ("#[repr(u8)] enum Zn { A = 256 }", "#[repr(u8)] enum Zn { A = 255 }"),
    ("#[repr(u8)] enum Zn { A = -1 }", "#[repr(i8)] enum Zn { A = -1 }"),
    ("#[repr(i8)] enum Zn { A = 128 }", "#[repr(u8)] enum Zn { A = 128 }"),
    ("#[repr(i16)] enum Zn { A = -32769 }", "#[repr(i16)] enum Zn { A = -32768 }"),
    ("#[repr(u8)] enum Zn { A = 255, B }", "#[repr(u8)] enum Zn { A = 254, B }"),
    ("enum Zn { A = 18446744073709551615, B }", "enum Zn { A = 18446744073709551614, B }"),
    ("enum Zn { A = 1 + 1 }", "enum Zn { A = 2 }"),
    ("enum Zn { A = N }", "enum Zn { A = 7 }"),
    ("enum Zn { A = 1u8, B = 2u16 }", "enum Zn { A = 1u8, B = 2u8 }"),
    ("#[repr(u16)] enum Zn { A = 1u8 }", "#[repr(u16)] enum Zn { A = 1u16 }"),
    ("enum Zn { A = 1.0 }", "enum Zn { A = 1 }"),
    ("enum Zn { A = 'a' }", "enum Zn { A = 97 }"),
    // Extern types.
    ("extern \"Rust\" { type Zn: Send; }", "extern \"Rust\" { type Zn; }"),
    ("unsafe extern \"C++\" { type Zn: Send; }", "unsafe extern \"C++\" { type Zn; }"),
    ("extern \"Rust\" { type Zn<T>; }", "extern \"Rust\" { type Zn; }"),
    ("unsafe extern \"C++\" { type Zn<const N: usize>; }", "unsafe extern \"C++\" { type Zn; }"),
    ("extern \"Rust\" { type Zn = crate::X; }", "unsafe extern \"C++\" { type Zn = crate::X; }"),
    ("extern \"Rust\" { #[derive(Clone)] type Zn; }", "extern \"Rust\" { #[derive(ExternType)] type Zn; }"),
    ("unsafe extern \"C++\" { #[derive(ExternType)] type Zn; }", "unsafe extern \"C++\" { type Zn; }"),
    ("unsafe extern \"C++\" { #[derive(Debug)] type Zn = crate::X; }", "unsafe extern \"C++\" { type Zn = crate::X; }"),
    ("extern \"C++\" { type Zs; }", "unsafe extern \"C++\" { type Zs; }"),
    ("extern \"C\" { fn zf(); }", "unsafe extern \"C++\" { fn zf(); }"),
    ("extern { fn zf(); }", "extern \"Rust\" { fn zf(); }"),
    ("extern \"system\" { type Zn; }", "extern \"C++\" { type Zn; }"),
    // Functions.
    ("extern \"Rust\" { fn zf<T>(x: u8); }", "extern \"Rust\" { fn zf(x: u8); }"),
    ("extern \"Rust\" { unsafe fn zf<'a, T>(x: &'a u8); }", "extern \"Rust\" { unsafe fn zf<'a>(x: &'a u8); }"),
    ("unsafe extern \"C++\" { fn zf<const N: usize>(); }", "unsafe extern \"C++\" { fn zf(); }"),
    ("unsafe extern \"C++\" { fn zf() where u8: Copy; }", "unsafe extern \"C++\" { fn zf(); }"),
    ("unsafe extern \"C++\" { unsafe fn zf(x: u8, ...); }", "unsafe extern \"C++\" { unsafe fn zf(x: u8); }"),
    ("unsafe extern \"C++\" { async fn zf(); }", "unsafe extern \"C++\" { fn zf(); }"),
    ("extern \"Rust\" { const fn zf(); }", "extern \"Rust\" { fn zf(); }"),
    ("extern \"Rust\" { extern \"C\" fn zf(); }", "extern \"Rust\" { fn zf(); }"),
    ("extern \"Rust\" { fn zf(x: Result<u8>); }", "extern \"Rust\" { fn zf(x: u8); }"),
    ("extern \"Rust\" { fn zf() -> Vec<Result<u8>>; }", "extern \"Rust\" { fn zf() -> Vec<u8>; }"),
    ("extern \"Rust\" { fn zf() -> Result<Result<u8>>; }", "extern \"Rust\" { fn zf() -> Result<u8>; }"),
    ("extern \"Rust\" { fn zf((a, b): u8); }", "extern \"Rust\" { fn zf(a: u8); }"),
    ("extern \"Rust\" { static ZX: u8; }", "extern \"Rust\" { fn zf(); }"),
    ("extern \"Rust\" { #[derive(Clone)] fn zf(); }", "extern \"Rust\" { fn zf(); }"),
    ("extern \"Rust\" { #[repr(u8)] fn zf(); }", "extern \"Rust\" { fn zf(); }"),
    ("unsafe extern \"C++\" { #[cxx_name = \"x y\"] fn zf(); }", "unsafe extern \"C++\" { #[cxx_name = \"xy\"] fn zf(); }"),
    // Other items.
    ("impl Box<u8> {}", "impl Box<Zr> {}"),
    ("impl Vec<u8> {}", "impl Vec<Zs> {}"),
    ("impl UniquePtr<CxxString> {}", "impl UniquePtr<Zc> {}"),
    ("impl UniquePtr<Zr> {}", "impl UniquePtr<Zs> {}"),
    ("impl SharedPtr<Zr> {}", "impl SharedPtr<Zc> {}"),
    ("impl WeakPtr<Zr> {}", "impl WeakPtr<Zc> {}"),
    ("impl CxxVector<Zr> {}", "impl CxxVector<Zc> {}"),
    ("impl CxxVector<u8> {}", "impl CxxVector<Zs> {}"),
    ("impl Box<Zc> {}", "impl Box<Zs> {}"),
    ("impl Vec<Zc> {}", "impl Vec<Zr> {}"),
    ("impl !UniquePtr<Zc> {}", "impl UniquePtr<Zc> {}"),
    ("impl Zs {}", "impl Box<Zs> {}"),
    ("impl &Zs {}", "impl Vec<Zs> {}"),
    ("impl Send for Zs {}", "impl Vec<Zs> {}"),
    ("impl UniquePtr<Zc> { fn f() {} }", "impl UniquePtr<Zc> {}"),
    ("impl<T> UniquePtr<Zc> {}", "impl UniquePtr<Zc> {}"),
    ("impl UniquePtr<Zc> where u8: Copy {}", "impl UniquePtr<Zc> {}"),
    ("const ZX: u8 = 1;", "struct Zn { a: u8 }"),
    ("fn zf() {}", "extern \"Rust\" { fn zf(); }"),
    ("mod zm {}", "struct Zn { a: u8 }"),
    ("trait Zn {}", "struct Zn { a: u8 }"),
    ("union Zn { a: u8 }", "struct Zn { a: u8 }"),
    ("type Zn = u8;", "unsafe extern \"C++\" { type Zn; }"),
    // Names declared twice.
    ("struct Zs { a: u8 }", "struct Zs9 { a: u8 }"),
    ("enum Ze { A }", "enum Ze9 { A }"),
    ("struct Ze { a: u8 }", "struct Ze9 { a: u8 }"),
    ("enum Zs { A }", "enum Zs9 { A }"),
    ("struct Zr { a: u8 }", "struct Zr9 { a: u8 }"),
    ("enum Zr { A }", "enum Zr9 { A }"),
    ("extern \"Rust\" { type Zr; }", "extern \"Rust\" { type Zr9; }"),
    ("unsafe extern \"C++\" { type Zc; }", "unsafe extern \"C++\" { type Zc9; }"),
    ("unsafe extern \"C++\" { type Zr; }", "unsafe extern \"C++\" { type Zr9; }"),
    ("extern \"Rust\" { type Zc; }", "extern \"Rust\" { type Zc9; }"),
    ("extern \"Rust\" { type Zs; }", "extern \"Rust\" { type Zs9; }"),
    ("extern \"Rust\" { type Ze; }", "extern \"Rust\" { type Ze9; }"),
    ("unsafe extern \"C++\" { type Za; }", "unsafe extern \"C++\" { type Za9; }"),
    ("unsafe extern \"C++\" { type Zc = crate::Zc; }", "unsafe extern \"C++\" { type Zc9 = crate::Zc; }"),
    ("unsafe extern \"C++\" { type Za = crate::Za; }", "unsafe extern \"C++\" { type Za9 = crate::Za; }"),
    ("struct Za { a: u8 }", "struct Za9 { a: u8 }"),
    ("extern \"Rust\" { fn zf(); fn zf(x: u8); }", "extern \"Rust\" { fn zf(); fn zg(x: u8); }"),
    ("extern \"Rust\" { fn zf(); } unsafe extern \"C++\" { fn zf(); }", "extern \"Rust\" { fn zf(); } unsafe extern \"C++\" { fn zg(); }"),
    ("unsafe extern \"C++\" { fn zf(self: &Zc); fn zf(self: &Zc, x: u8); }", "unsafe extern \"C++\" { fn zf(self: &Zc); fn zf(self: &Zc2, x: u8); }"),
    ("unsafe extern \"C++\" { #[rust_name = \"zf\"] fn zg(); fn zf(); }", "unsafe extern \"C++\" { #[rust_name = \"zh\"] fn zg(); fn zf(); }"),
    // Reserved names.
    ("struct Box { a: u8 }", "struct Boks { a: u8 }"),
    ("struct Vec { a: u8 }", "struct Vek { a: u8 }"),
    ("struct String { a: u8 }", "struct Sstring { a: u8 }"),
    ("enum CxxString { A }", "enum CxxString2 { A }"),
    ("extern \"Rust\" { type UniquePtr; }", "extern \"Rust\" { type UniquePtr2; }"),
    ("unsafe extern \"C++\" { type SharedPtr; }", "unsafe extern \"C++\" { type SharedPtr2; }"),
    ("unsafe extern \"C++\" { type WeakPtr; }", "unsafe extern \"C++\" { type WeakPtr2; }"),
    ("unsafe extern \"C++\" { type CxxVector; }", "unsafe extern \"C++\" { type CxxVector2; }"),
    ("struct u8 { a: bool }", "struct u89 { a: bool }"),
    ("enum isize { A }", "enum isize9 { A }"),
    ("struct c_char { a: u8 }", "struct c_char2 { a: u8 }"),
    ("struct str { a: u8 }", "struct str2 { a: u8 }"),
    ("unsafe extern \"C++\" { fn cxxbridge1(); }", "unsafe extern \"C++\" { fn cxxbr(); }"),
    ("struct cxxbridge_x { a: u8 }", "struct cxxbr_x { a: u8 }"),
    ("struct Zn { cxxbridge: u8 }", "struct Zn { cxxbr: u8 }"),
    ("extern \"Rust\" { fn zf(cxxbridge1: u8); }", "extern \"Rust\" { fn zf(cxxbr: u8); }"),
    ("struct a__b { a: u8 }", "struct a_b9 { a: u8 }"),
    ("extern \"Rust\" { fn a__b(); }", "extern \"Rust\" { fn a_b9(); }"),
    ("unsafe extern \"C++\" { #[cxx_name = \"a__b\"] fn zf(); }", "unsafe extern \"C++\" { #[cxx_name = \"a_b9\"] fn zf(); }"),
];

fn items(s: &mut Src) -> Result<(), String> {
    let base = base_bridge(s).bridge("impl.h");
    let k = s.indexed(ITEMS.len() as u64) as usize;
    let (bad, good) = ITEMS[k];
    check(s, &base, bad, Some(good))
}

fn check(s: &mut Src, base: &str, bad: &str, good: Option<&str>) -> Result<(), String> {
    s.nontrivial();
    // The same places in both.
    let place = s.below(1 << 20);
    let put = |what: &str| {
        let mut r = Src::random(place);
        let m = insert(&mut r, base, SCAFFOLD);
        insert(&mut r, &m, what)
    };
    let module = put(bad);
    s.key(module.as_bytes());
    s.note(|| module.clone());
    if let Some(good) = good {
        if let Err(e) = accepted(&put(good)) {
            return Err(format!("sound construct not accepted: `{}`: {e}", good.trim()));
        }
    }
    match accepted(&module) {
        Ok(()) => Err(format!("unsound construct accepted: `{}`", bad.trim())),
        Err(_) => Ok(()),
    }
}
