//! C14: shared enums have the same values in both languages.
use crate::calls::note_bridge;
use crate::agree::expand;
use crate::prog::{self, Dir, Extra};
use bgen::gen::{bridge, Profile};
use bgen::render::{cxx_int, raw, Text};
use bgen::{Arg, Func, Kind, Lang, Name, RetLt, Sig, Ty};
use pbt::{Entry, Prop, Src};
use std::fmt::Write;

pub fn entry() -> Entry {
    Entry {
        id: "C14",
        rule: "A case is a generated set of enums; non-trivial when some enum has an explicit discriminant. Underlying types and variant values in both languages are compared with the model and with an ordinary Rust enum of the same text; random values of the underlying type cross in both directions and are printed. discriminants: a batch of enums with random discriminant expressions, accepted or not; non-trivial when the batch has both.",
        assumptions: &["x86-64 Linux ABI, clang 18 and rustc nightly-2025-04-08."],
        props: vec![
            Prop { name: "enums", quick: 96, thorough: 1500, f: enums },
            Prop { name: "discriminants", quick: 400, thorough: 12_000, f: discriminants },
        ],
    }
}

fn profile(s: &mut Src) -> Profile {
    let mut p = Profile::calls();
    p.structs = (0, 1);
    p.enums = (4, 12);
    p.rusts = (0, 0);
    p.cxxs = (0, 0);
    p.trivials = (0, 0);
    p.fns = (0, 0);
    p.external = s.coin();
    p.fancy = s.coin();
    p.namespaces = p.fancy;
    p.noise = s.chance(1, 4);
    p.derives = true;
    p
}

fn enums(s: &mut Src) -> Result<(), String> {
    let p = profile(s);
    let mut b = bridge(s, &p);
    let n = b.types.len();
    for i in 0..n {
        if !matches!(b.types[i].kind, Kind::Enum { .. }) {
            continue;
        }
        for (lang, k) in [(Lang::Cxx, 0), (Lang::Rust, 1)] {
            let e = Ty::T(i);
            let arg = |n: &str, ty: Ty| Arg { name: n.to_owned(), ty, lt: false };
            let args = match s.below(3) {
                0 => vec![arg("a", e.clone())],
                1 => vec![arg("a", e.clone()), arg("b", Ty::Ref(true, Box::new(e.clone())))],
                _ => vec![arg("a", Ty::Slice(false, Box::new(e.clone()))), arg("b", Ty::Vec(Box::new(e.clone()))), arg("c", Ty::Arr(Box::new(e.clone()), 3))],
            };
            let name = format!("rt{i}_{k}");
            b.fns.push(Func {
                name: Name { rust: name.clone(), cxx: name, ns: b.ns.clone() },
                lang, recv: None, recv_lt: false, attrs: vec![], noexcept: false, echo: None,
                sig: Sig { args, ret: Some(e), ret_lt: RetLt::Elided, throws: false, is_unsafe: false },
            });
        }
    }
    let t = Text::new(b, "0", 1);
    note_bridge(s, &t);
    if t.b.types.iter().any(|x| matches!(&x.kind, Kind::Enum { variants, .. } if variants.iter().any(|v| v.expr.is_some()))) {
        s.nontrivial();
    }
    let seed = s.below(1 << 32);
    let extra = extra(&t);
    prog::exercise_with(&[t], &extra, 6, seed)?;
    Ok(())
}

pub fn extra(t: &Text) -> Extra {
    let mut x = Extra::default();
    x.cc += "template <typename U> static std::uint64_t lab_kind() { return sizeof(U) * 2 + std::is_signed<U>::value; }\n";
    x.rust += "pub trait Repr: Copy { const KIND: u64; }\n";
    for p in bgen::INTS {
        let _ = writeln!(x.rust, "impl Repr for {0} {{ const KIND: u64 = ::core::mem::size_of::<{0}>() as u64 * 2 + ({0}::MIN != 0) as u64; }}", p.rust());
    }
    x.rust += "fn kind<T: Repr>(_: T) -> u64 { T::KIND }\n";
    for (i, td) in t.b.types.iter().enumerate() {
        let Kind::Enum { repr, variants, .. } = &td.kind else { continue };
        let id = 200_000 + i as u32;
        let ty = format!("super::ffi::{}", raw(&td.name.rust));
        let ty = format!("super::{}", &ty[..]).replace("super::super::ffi", "super::ffi");
        let c = t.qualified(&td.name);
        let r = &mut x.rust;
        let k = |n: u32| id << 8 | n;
        // An ordinary Rust enum with the same discriminants.
        if !variants.is_empty() {
            let vs: String = variants.iter().enumerate().map(|(j, v)| format!("V{j}{}, ", v.expr.as_ref().map_or(String::new(), |e| format!(" = {e}")))).collect();
            let _ = writeln!(r, "#[repr({})] #[derive(Clone, Copy)] enum Plain{i} {{ {vs} }}", repr.rust());
        }
        let _ = writeln!(r, "extern \"C\" {{ fn lab_enum_{i}(); }}\npub fn enum_{i}(seed: u64) {{");
        let signed = repr.range().0 < 0;
        let kind = repr_size(*repr) * 2 + u64::from(signed);
        let _ = writeln!(r, "let v = {ty} {{ repr: ::lab::mk(seed) }}; ::lab::a({}, {kind}); ::lab::a({0}, kind(v.repr)); ::lab::a({0}, ::core::mem::size_of::<{ty}>() as u64);", k(0));
        let mut cc = format!("extern \"C\" void lab_enum_{i}() {{ lab_b({0}, {kind}); lab_b({0}, lab_kind<std::underlying_type<{c}>::type>()); lab_b({0}, sizeof({c}));\n", k(0));
        for (j, v) in variants.iter().enumerate() {
            let _ = writeln!(r, "::lab::a({}, {}i128 as u64); ::lab::a({0}, {ty}::{}.repr as u64); ::lab::a({0}, Plain{i}::V{j} as {} as u64);", k(1), v.value, raw(&v.rust), repr.rust());
            let lit = cxx_int(v.value);
            let _ = writeln!(cc, "lab_b({}, static_cast<std::uint64_t>({lit})); lab_b({0}, static_cast<std::uint64_t>({c}::{})); lab_b({0}, static_cast<std::uint64_t>({lit}));", k(1), v.cxx);
        }
        let _ = writeln!(r, "unsafe {{ lab_enum_{i}(); }}");
        // As patterns.
        let arms: String = variants.iter().enumerate().map(|(j, v)| format!("{ty}::{} => {j}, ", raw(&v.rust))).collect();
        let model: String = variants.iter().enumerate().map(|(j, v)| format!("{} => {j}, ", v.value)).collect();
        let names: Vec<String> = variants.iter().map(|v| format!("{:?}", v.rust)).collect();
        let _ = writeln!(r, "let all: [{}; {}] = [{}];", repr.rust(), variants.len(), variants.iter().map(|v| v.value.to_string()).collect::<Vec<_>>().join(", "));
        let _ = writeln!(r, "for n in 0..8 {{ let s = ::lab::mix(seed, n); let x: {0} = if n < 3 && all.len() > 0 {{ all[s as usize % all.len()].wrapping_add((n == 2) as {0}) }} else {{ ::lab::mk(s) }}; let v = {ty} {{ repr: x }};", repr.rust());
        let _ = writeln!(r, "let j: u64 = match v {{ {arms} _ => 99 }}; let m: u64 = match x as i128 {{ {model} _ => 99 }}; ::lab::a({}, m); ::lab::b({0}, j);", k(2));
        if td.derives.contains(&"Debug") {
            let _ = writeln!(r, "let names: [&str; {}] = [{}]; let want = if m == 99 {{ ::std::format!(\"{{}}({{}})\", {:?}, x) }} else {{ names[m as usize].to_owned() }}; ::lab::a({}, ::lab::dig(&want)); ::lab::b({3}, ::lab::dig(&::std::format!(\"{{v:?}}\")));", names.len(), names.join(", "), td.name.rust, k(3));
        }
        *r += "}\n}\n";
        cc += "}\n";
        x.cc += &cc;
        x.drives.push((id, format!("enum_{i}"), format!("the values of {}", td.name.rust)));
    }
    x
}

fn repr_size(p: bgen::Prim) -> u64 {
    use bgen::Prim::*;
    match p {
        U8 | I8 => 1,
        U16 | I16 => 2,
        U32 | I32 => 4,
        _ => 8,
    }
}

/// The underlying types by preference when none is named.
const REPRS: [(&str, i128, i128); 10] = [
    ("u8", 0, u8::MAX as i128),
    ("i8", i8::MIN as i128, i8::MAX as i128),
    ("u16", 0, u16::MAX as i128),
    ("i16", i16::MIN as i128, i16::MAX as i128),
    ("u32", 0, u32::MAX as i128),
    ("i32", i32::MIN as i128, i32::MAX as i128),
    ("u64", 0, u64::MAX as i128),
    ("i64", i64::MIN as i128, i64::MAX as i128),
    ("usize", 0, u64::MAX as i128),
    ("isize", i64::MIN as i128, i64::MAX as i128),
];

struct Disc { text: String, repr: &'static str, values: Vec<i128> }

/// One enum; `repr` is empty when it must be rejected.
fn disc(s: &mut Src, name: &str) -> Disc {
    let attr = if s.chance(2, 5) { Some(s.pick(&REPRS).0) } else { None };
    let mut known = attr;
    let (mut ok, mut values, mut text) = (true, Vec::<i128>::new(), String::new());
    // The neighbourhood most values come from.
    let home: i128 = *s.pick(&[0, 127, 128, 255, 32767, 65535, 1 << 31, 1 << 32, 1 << 63, 1 << 64]);
    for j in 0..s.urange(1, 5) {
        let _ = write!(text, "V{j}");
        let v = if s.chance(1, 3) {
            values.last().map_or(0, |v| v + 1)
        } else {
            let around = if s.chance(2, 3) { home } else { *s.pick(&[0, 1, 255, 65535, 1 << 63]) };
            let magnitude = (around + s.below(5) as i128 - 2).max(0);
            let neg = s.weighted(&[3, 2, 1]);
            let suffix = match s.below(8) {
                0..=4 => None,
                5 => known.or(Some(REPRS[s.us(10)].0)),
                6 => Some(REPRS[s.us(10)].0),
                _ => Some(*s.pick(&["i128", "u", "_"])),
            };
            let mut lit = match s.below(6) {
                0 => format!("{magnitude:#x}"),
                1 => format!("{magnitude:#o}"),
                2 => format!("{magnitude:#b}"),
                3 => format!("0{magnitude}"),
                4 if magnitude > 9 => { let t = magnitude.to_string(); format!("{}_{}", &t[..1], &t[1..]) }
                _ => magnitude.to_string(),
            };
            if let Some(x) = suffix {
                if s.coin() { lit += "_"; }
                lit += x;
                if x.len() > 1 && x != "i128" {
                    ok &= *known.get_or_insert(x) == x;
                } else {
                    ok &= x == "_";
                }
            }
            ok &= magnitude <= u64::MAX as i128;
            let minus = if s.coin() { "- " } else { "-" }.repeat(neg);
            let _ = write!(text, " = {minus}{lit}");
            if neg == 1 { -magnitude } else { magnitude }
        };
        values.push(v);
        text += ", ";
    }
    let fits = |r: &(&str, i128, i128)| values.iter().all(|v| r.1 <= *v && *v <= r.2);
    let repr = match known {
        Some(k) => REPRS.iter().find(|r| r.0 == k && fits(r)),
        None => REPRS.iter().find(|r| fits(r)),
    };
    let repr = repr.filter(|_| ok).map_or("", |r| r.0);
    let attr = attr.map_or(String::new(), |a| format!("#[repr({a})] "));
    Disc { text: format!("{attr}enum {name} {{ {text}}}"), repr, values }
}

fn discriminants(s: &mut Src) -> Result<(), String> {
    let all: Vec<Disc> = (0..s.urange(1, 24)).map(|i| disc(s, &format!("E{i}"))).collect();
    let module = |t: &str| format!("#[cxx::bridge]\npub mod ffi {{\n{t}\n}}\n");
    let key: String = all.iter().map(|d| format!("{} // {:?} {:?}\n", d.text, d.repr, d.values)).collect();
    s.key(key.as_bytes());
    s.note(|| key);
    if all.iter().any(|d| d.repr.is_empty()) && all.iter().any(|d| !d.repr.is_empty()) {
        s.nontrivial();
    }
    for d in &all {
        match (prog::generate(&module(&d.text)), d.repr.is_empty()) {
            (Ok(_), true) => return Err(format!("the generator accepts discriminants which do not fit: {}", d.text)),
            (Err(e), false) => return Err(format!("the generator rejects {} ({}): {e}", d.text, d.repr)),
            _ => {}
        }
    }
    let (mut good, mut uses, mut cc) = (String::new(), String::new(), String::from("#include \"gen.h\"\n#include <type_traits>\n"));
    for (i, d) in all.iter().enumerate().filter(|x| !x.1.repr.is_empty()) {
        good += &d.text;
        good += "\n";
        let cxx = match d.repr {
            "usize" => "::std::size_t".to_owned(),
            "isize" => "::rust::isize".to_owned(),
            r => format!("::std::{}int{}_t", if r.starts_with('u') { "u" } else { "" }, &r[1..]),
        };
        let _ = writeln!(cc, "static_assert(std::is_same<std::underlying_type<E{i}>::type, {cxx}>::value, \"underlying type of E{i}\");");
        for (j, v) in d.values.iter().enumerate() {
            let _ = writeln!(uses, "const _: () = {{ let r: {} = ffi::E{i}::V{j}.repr; ::core::assert!(r as i128 == {v}) }};", d.repr);
            let _ = writeln!(cc, "static_assert(static_cast<{cxx}>(E{i}::V{j}) == {}, \"value of E{i}::V{j}\");", cxx_int(*v));
        }
    }
    if !good.is_empty() {
        let g = prog::generate(&module(&good))?;
        let dir = Dir::new();
        dir.put("main.rs", &format!("#![allow(warnings)]\n{}{uses}fn main() {{}}\n", module(&good)));
        let o = prog::rustc(&dir.0, &["--emit=metadata", "--error-format=short"]);
        if !o.status.success() {
            return Err(format!("in Rust: {}", prog::errors(&o, &["error"])));
        }
        dir.put("gen.h", &g.header);
        dir.put("t.cc", &cc);
        let o = prog::run(&["g++", "-std=c++17", "-fsyntax-only", "-Werror=narrowing", "t.cc"], &dir.0);
        if !o.status.success() {
            return Err(format!("in C++: {}", prog::errors(&o, &["error"])));
        }
    }
    let bad: Vec<String> = all.iter().filter(|d| d.repr.is_empty()).map(|d| module(&d.text)).collect();
    if !bad.is_empty() {
        for (seen, text) in expand(&Dir::new(), &bad)?.iter().zip(&bad) {
            if seen.errors.is_empty() {
                return Err(format!("the macro accepts discriminants which do not fit: {text}"));
            }
        }
    }
    Ok(())
}
