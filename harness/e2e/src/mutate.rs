//! Text mutation of bridges: tokens deleted, repeated, exchanged, replaced and
//! inserted from a dictionary of what bridges are made of.
use pbt::Src;

#[derive(Clone, Debug, PartialEq)]
pub struct Tok {
    pub text: String,
    pub space: bool,
}

pub fn lex(text: &str) -> Vec<Tok> {
    let c: Vec<char> = text.chars().collect();
    let mut out = Vec::new();
    let mut i = 0;
    while i < c.len() {
        let start = i;
        let mut space = false;
        let ident = |x: char| x.is_alphanumeric() || x == '_';
        if c[i].is_whitespace() {
            space = true;
            while i < c.len() && c[i].is_whitespace() { i += 1; }
        } else if c[i] == '/' && i + 1 < c.len() && c[i + 1] == '/' {
            space = i + 2 >= c.len() || (c[i + 2] != '/' && c[i + 2] != '!');
            while i < c.len() && c[i] != '\n' { i += 1; }
        } else if c[i] == '/' && i + 1 < c.len() && c[i + 1] == '*' {
            let doc = i + 2 < c.len() && (c[i + 2] == '*' || c[i + 2] == '!');
            space = !doc;
            i += 2;
            while i < c.len() && !(c[i] == '/' && c[i - 1] == '*' && i > start + 2) { i += 1; }
            i = (i + 1).min(c.len());
        } else if c[i] == 'r' && i + 2 < c.len() && c[i + 1] == '#' && ident(c[i + 2]) {
            i += 2;
            while i < c.len() && ident(c[i]) { i += 1; }
        } else if ident(c[i]) {
            while i < c.len() && ident(c[i]) { i += 1; }
        } else if c[i] == '\'' && i + 1 < c.len() && ident(c[i + 1]) {
            i += 1;
            while i < c.len() && ident(c[i]) { i += 1; }
        } else if c[i] == '"' {
            i += 1;
            while i < c.len() && c[i] != '"' { if c[i] == '\\' { i += 1; } i += 1; }
            i = (i + 1).min(c.len());
        } else if (c[i] == ':' && i + 1 < c.len() && c[i + 1] == ':') || (c[i] == '-' && i + 1 < c.len() && c[i + 1] == '>') {
            i += 2;
        } else {
            i += 1;
        }
        out.push(Tok { text: c[start..i].iter().collect(), space });
    }
    out
}

pub fn join(t: &[Tok]) -> String {
    t.iter().map(|t| t.text.as_str()).collect()
}

pub const DICT: &[&str] = &[
    "Box", "Vec", "UniquePtr", "SharedPtr", "WeakPtr", "CxxVector", "CxxString", "String", "str", "Result", "Pin", "Option", "Self", "self", "()", "[u8]", "&[u8]", "&str", "&mut", "&", "*const", "*mut", "fn()", "fn", "unsafe", "extern", "\"C++\"", "\"Rust\"", "\"C\"", "type", "struct", "enum", "impl", "mod", "use", "pub", "const", "static", "mut", "ref", "dyn", "async", "where", "for", "crate", "super",
    "bool", "u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "f32", "f64", "c_char", "char", "u128", "i128", "!", "_",
    "<", ">", "::", ":", ";", ",", "=", "->", "(", ")", "[", "]", "{", "}", "#", "?", "+", "-", "..", "'a", "'static", "'_", "<'a>", "<T>", "<T: 'a>", "<'a, 'b>", "<const N: usize>", "'a: 'b", "0", "1", "-1", "255", "256", "0x10", "1u8", "1.5", "\"x\"", "b\"x\"", "'c'", "18446744073709551616", "340282366920938463463374607431768211456", "-9223372036854775809", "true",
    "#[namespace = \"a::b\"]", "#[namespace = a]", "#[namespace]", "#[namespace = \"\"]", "#[cxx_name = \"x\"]", "#[cxx_name = x]", "#[rust_name = \"y\"]", "#[rust_name = 5]", "#[derive(Clone)]", "#[derive(Copy, Debug)]", "#[derive(ExternType)]", "#[derive]", "#[repr(u8)]", "#[repr(C)]", "#[repr(i32, u8)]", "#[cfg(feature = \"x\")]", "#[cfg(all())]", "#[cfg(not(all()))]", "#[cfg(any())]", "#[cfg]", "#[cfg(a(b))]", "#[variants_from_header]", "#[doc = \"d\"]", "#[doc(hidden)]", "#[must_use]", "#[inline]", "#[allow(x)]", "#[serde(default)]", "#[cxx::bridge]", "#[cxx::bridge(namespace = x)]", "#[builder]", "#![allow(x)]", "///d\n", "/** d */", "//!d\n",
    "include!(\"a.h\");", "include!(<vector>);", "include!(\"\");", "include!(<a/b.h);", "include!(a);", "include!(\"./a.h\");", "impl UniquePtr<T> {}", "impl<'a> Box<T<'a>> {}", "impl !Send for T {}", "impl Vec<T> {}", "type X;", "type X = super::X;", "type X = crate::a::X<'_>;", "type X: Trait;", "type X<'a>;", "type X<T>;", "fn f();", "fn f() -> Result<()>;", "fn f(self: &X);", "fn f(&self);", "fn f(self);", "fn f(&mut self);", "fn f(self: Pin<&mut X>);", "fn f(self: Pin<&X>);", "fn f(mut x: u8);", "fn f(x: u8, ...);", "fn f(_: u8);", "fn f((a, b): (u8, u8));", "async fn f();", "const fn f();", "unsafe fn f();", "fn f() {}", "static S: u8;", "const C: u8 = 1;", "m!();", "macro_rules! m { () => {} }", "trait T {}", "union U { a: u8 }", "struct T;", "struct T(u8);", "struct T<'a> { a: &'a str }", "struct T<X> { a: X }", "enum E { A(u8) }", "enum E { A { x: u8 } }", "enum E<'a> { A }", "pub(crate)", "pub(in a::b)", "use super::*;", "extern crate x;", "&'static", "<[u8; 3]>", "[u8; 0]", "[u8; N]", "[u8; 1 + 1]", "[u8; 1u8]", "[u8; 4294967296]", "[u8; -1]", "fn(u8) -> u8", "fn(x: &u8)", "unsafe fn()", "extern \"C\" fn()", "fn() -> Result<()>", "impl Trait", "dyn Trait", "Box<dyn Trait>", "Vec<Vec<u8>>", "Result<Result<u8>>", "Result<u8, E>", "Pin<&mut u8>", "Pin<Box<u8>>", "Pin<&mut Pin<&mut T>>", "::std::vec::Vec<u8>", "core::pin::Pin<&mut T>", "std::string::String", "(u8)", "(u8,)", "(u8, u8)", "&&u8", "&mut &mut u8", "*const *const u8", "<T as U>::V", "Box::<u8>", "Vec<>", "Vec<u8, A>", "UniquePtr<'a, T>",
    "é", "\u{1F600}", "\u{0}", "\u{FEFF}", "r#\"x\"#", "r#type", "r#self", "\\", "$", "@", "`", "/*", "*/", "//", "\"", "'",
];

fn lexable() -> usize {
    DICT.iter().position(|x| *x == "é").unwrap()
}

/// End of a span from `i` in which brackets balance.
fn span(s: &mut Src, t: &[Tok], i: usize, max: usize, any: bool) -> usize {
    let mut e = (i + s.urange(1, max)).min(t.len());
    if any { return e; }
    let mut depth = 0;
    let mut j = i;
    while j < t.len() {
        match t[j].text.as_str() {
            "(" | "[" | "{" => depth += 1,
            ")" | "]" | "}" => { if depth == 0 { return j; } depth -= 1; }
            _ => {}
        }
        j += 1;
        if j >= e && depth == 0 { return j; }
        e = e.max(i + 1);
    }
    i
}

/// One mutation of a token sequence.
pub fn step(s: &mut Src, t: &mut Vec<Tok>) {
    // Mostly keep what must balance, or nothing but the lexer is reached.
    let unbalanced = s.chance(1, 10);
    let free = |x: &str| !["(", ")", "[", "]", "{", "}"].contains(&x);
    let live: Vec<usize> = (0..t.len()).filter(|i| !t[*i].space && (unbalanced || free(&t[*i].text))).collect();
    if live.is_empty() {
        t.push(Tok { text: (*s.pick(DICT)).to_owned(), space: false });
        return;
    }
    let word = |s: &mut Src| if unbalanced { *s.pick(DICT) } else { *s.pick(&DICT[..lexable()]) };
    let i = *s.pick(&live);
    let new = |x: &str| Tok { text: x.to_owned(), space: false };
    let sp = Tok { text: " ".to_owned(), space: true };
    match s.below(9) {
        0 => { t[i] = new(word(s)); }
        1 => { t.remove(i); }
        2 => { let x = t[i].clone(); t.insert(i, sp); t.insert(i, x); }
        3 => { let j = *s.pick(&live); t.swap(i, j); }
        4 => { let x = new(word(s)); t.insert(i, sp.clone()); t.insert(i, x); t.insert(i, sp); }
        5 => { let j = *s.pick(&live); t[i] = t[j].clone(); }
        6 => { let e = span(s, t, i, 8, unbalanced); t.drain(i..e); }
        7 => {
            // Move or repeat a span.
            let e = span(s, t, i, 12, unbalanced);
            let span: Vec<Tok> = t[i..e].to_vec();
            if s.coin() { t.drain(i..e); }
            let at = s.us(t.len() + 1);
            t.splice(at..at, span);
        }
        _ => {
            // Exchange what a token stands for everywhere.
            let old = t[i].text.clone();
            let n = word(s).to_owned();
            for x in t.iter_mut() { if x.text == old { x.text = n.clone(); } }
        }
    }
}

/// Valid text around a soup of dictionary tokens.
pub fn soup(s: &mut Src) -> String {
    let n = s.urange(1, 25);
    let mut words = String::new();
    let all = s.chance(1, 8);
    for _ in 0..n {
        let w = if all { *s.pick(DICT) } else { *s.pick(&DICT[..lexable()]) };
        if !all && ["(", ")", "[", "]", "{", "}"].contains(&w) { continue; }
        words += w;
        words += " ";
    }
    let ctx = *s.pick(&[
        "#[cxx::bridge] mod ffi { @ }",
        "#[cxx::bridge] mod ffi { unsafe extern \"C++\" { @ } }",
        "#[cxx::bridge] mod ffi { extern \"Rust\" { @ } }",
        "#[cxx::bridge] mod ffi { struct S { a: @ } }",
        "#[cxx::bridge] mod ffi { struct S { @ a: u8 } }",
        "#[cxx::bridge] mod ffi { enum E { @ } }",
        "#[cxx::bridge] mod ffi { enum E { A = @ } }",
        "#[cxx::bridge] mod ffi { unsafe extern \"C++\" { type X; fn f(x: @); } }",
        "#[cxx::bridge] mod ffi { unsafe extern \"C++\" { type X; fn f() -> @; } }",
        "#[cxx::bridge] mod ffi { extern \"Rust\" { type X; fn f @ ; } }",
        "#[cxx::bridge] mod ffi { extern \"Rust\" { type X @ ; } }",
        "#[cxx::bridge] mod ffi { impl @ {} }",
        "#[cxx::bridge(@)] mod ffi { struct S { a: u8 } }",
        "#[cxx::bridge] @ mod ffi { struct S { a: u8 } }",
        "@ #[cxx::bridge] mod ffi { struct S { a: u8 } }",
        "#[cxx::bridge] mod ffi { #[@] struct S { a: u8 } }",
        "#[cxx::bridge] mod ffi { #[derive(@)] struct S { a: u8 } }",
        "#[cxx::bridge] mod ffi { #[cfg(@)] struct S { a: u8 } }",
        "#[cxx::bridge] mod ffi { #[namespace = @] struct S { a: u8 } }",
        "mod a { @ #[cxx::bridge] mod ffi { struct S { a: u8 } } }",
        "@",
    ]);
    ctx.replace('@', &words)
}

/// Deeply nested but otherwise ordinary text.
pub fn nested(s: &mut Src) -> String {
    let depth = s.urange(1, 60);
    let open_close: (&str, &str) = *s.pick(&[
        ("Box<", ">"), ("Vec<", ">"), ("UniquePtr<", ">"), ("&", ""), ("&mut ", ""), ("*const ", ""), ("[", "; 2]"), ("&[", "]"), ("Pin<&mut ", ">"), ("fn(", ")"), ("fn() -> ", ""), ("Result<", ">"), ("(", ")"), ("CxxVector<", ">"), ("SharedPtr<", ">"), ("&'static ", ""),
    ]);
    let inner = *s.pick(&["u8", "String", "S", "X", "()", "str"]);
    let ty = format!("{}{}{}", open_close.0.repeat(depth), inner, open_close.1.repeat(depth));
    match s.below(7) {
        0 => format!("#[cxx::bridge] mod ffi {{ struct S {{ a: {ty} }} }}"),
        1 => format!("#[cxx::bridge] mod ffi {{ struct S {{ a: u8 }} unsafe extern \"C++\" {{ type X; unsafe fn f(x: {ty}) -> {ty}; }} }}"),
        2 => format!("#[cxx::bridge] mod ffi {{ struct S {{ a: u8 }} extern \"Rust\" {{ type X; unsafe fn f(x: {ty}); }} }}"),
        3 => format!("#[cxx::bridge] mod ffi {{ impl {ty} {{}} }}"),
        4 => {
            let e = format!("{}feature = \"x\"{}", "not(".repeat(depth), ")".repeat(depth));
            format!("#[cxx::bridge] mod ffi {{ #[cfg({e})] struct S {{ a: u8 }} }}")
        }
        5 => format!("{} #[cxx::bridge] mod ffi {{ struct S {{ a: u8 }} }} {}", (0..depth).map(|i| format!("mod m{i} {{")).collect::<String>(), "}".repeat(depth)),
        _ => {
            let ns = vec!["a"; depth].join("::");
            format!("#[cxx::bridge(namespace = \"{ns}\")] mod ffi {{ struct S {{ a: {inner} }} struct T {{ s: S }} }}")
        }
    }
}
