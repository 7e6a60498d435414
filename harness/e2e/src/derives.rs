//! C15: derived traits mean in both languages what an ordinary Rust derive means.
use crate::calls::note_bridge;
use crate::prog::{self, Extra};
use bgen::gen::{bridge, Profile};
use bgen::render::{raw, Side, Text};
use bgen::{Bridge, Kind, Prim, Ty};
use pbt::{Entry, Prop, Src};
use std::fmt::Write;

pub fn entry() -> Entry {
    Entry {
        id: "C15",
        rule: "A case is a generated set of shared structs and enums with derives; non-trivial when some struct derives a comparison or Hash. For pairs of values differing in few fields, unordered floats included, every derived trait is compared with the same derive on an ordinary Rust type, and every C++ operator and std::hash with the Rust trait.",
        assumptions: &["Rust's own derives on the same fields are the reference."],
        props: vec![Prop { name: "derives", quick: 128, thorough: 1500, f: derives }],
    }
}

fn derives(s: &mut Src) -> Result<(), String> {
    let mut p = Profile::calls();
    p.structs = (0, 0);
    p.enums = (0, 3);
    p.rusts = (0, 0);
    p.cxxs = (0, 0);
    p.trivials = (0, 0);
    p.fns = (0, 0);
    p.derives = true;
    p.noise = s.chance(1, 4);
    p.fancy = s.chance(1, 3);
    p.namespaces = p.fancy || s.coin();
    let mut b = bridge(s, &p);
    let n = s.urange(2, 6);
    for k in 0..n {
        add_struct(s, &mut b, k);
    }
    // Any order of declaration.
    b.order = (0..b.types.len()).collect();
    for i in 0..b.types.len() {
        let j = i + s.us(b.types.len() - i);
        b.order.swap(i, j);
    }
    let t = Text::new(b, "0", 1);
    note_bridge(s, &t);
    if t.b.types.iter().any(|x| matches!(x.kind, Kind::Struct { .. }) && (x.derives.contains(&"PartialEq") || x.derives.contains(&"Hash"))) {
        s.nontrivial();
    }
    let seed = s.below(1 << 32);
    let extra = extra(&t);
    prog::exercise_with(&[t], &extra, 12, seed)?;
    Ok(())
}

/// Which of the derives the type supports.
fn supports(b: &Bridge, t: &Ty, d: &str) -> bool {
    match t {
        Ty::Prim(p) => !(p.float() && ["Eq", "Ord", "Hash"].contains(&d)),
        Ty::Str => true,
        Ty::String => d != "Copy",
        Ty::Vec(e) => d != "Copy" && (d == "Default" || supports(b, e, d)),
        Ty::Box(i) => d != "Copy" && supports(b, &Ty::T(*i), d),
        Ty::Arr(e, _) => supports(b, e, d),
        Ty::Slice(_, e) => ["Clone", "Copy", "Default"].contains(&d) || supports(b, e, d),
        Ty::Ref(..) => ["Clone", "Copy"].contains(&d) || (d != "Default" && match t { Ty::Ref(_, e) => supports(b, e, d), _ => unreachable!() }),
        Ty::T(i) => match &b.types[*i].kind {
            Kind::Enum { .. } => ["Clone", "Copy", "PartialEq", "Eq"].contains(&d) || b.types[*i].derives.contains(&d),
            _ => b.types[*i].derives.contains(&d),
        },
        _ => false,
    }
}

fn field(s: &mut Src, b: &Bridge, lt: bool, depth: u32) -> Ty {
    let named = |s: &mut Src, b: &Bridge| -> Ty {
        let v: Vec<usize> = (0..b.types.len()).filter(|i| lt && depth == 0 || !b.has_lt(&Ty::T(*i))).collect();
        if v.is_empty() { Ty::Prim(Prim::F64) } else { Ty::T(*s.pick(&v)) }
    };
    match s.weighted(&[5, 2, 2, 4, 2, 1, if depth == 0 { 2 } else { 0 }, if lt { 3 } else { 0 }]) {
        0 => Ty::Prim(*s.pick(&bgen::PRIMS)),
        1 => Ty::Prim(*s.pick(&[Prim::F32, Prim::F64])),
        2 => Ty::String,
        3 => named(s, b),
        4 => Ty::Vec(Box::new(match s.below(3) { 0 => Ty::Prim(*s.pick(&bgen::PRIMS)), 1 => Ty::String, _ => match named(s, b) { Ty::T(i) if !b.has_lt(&Ty::T(i)) => Ty::T(i), _ => Ty::Prim(Prim::F32) } })),
        5 => match named(s, b) { Ty::T(i) if matches!(b.types[i].kind, Kind::Struct { lifetime: false, .. }) => Ty::Box(i), _ => Ty::Prim(Prim::Bool) },
        6 => { let e = field(s, b, false, 1); if b.has_lt(&e) { Ty::Prim(Prim::I8) } else { Ty::Arr(Box::new(e), *s.pick(&[1usize, 2, 4])) } }
        _ => match s.below(3) {
            0 => Ty::Str,
            1 => Ty::Slice(false, Box::new(Ty::Prim(*s.pick(&bgen::PRIMS)))),
            _ => { let e = field(s, b, false, 1); if b.has_lt(&e) { Ty::Str } else { Ty::Ref(false, Box::new(e)) } }
        },
    }
}

fn add_struct(s: &mut Src, b: &mut Bridge, k: usize) {
    let lt = s.chance(1, 4);
    let n = s.urange(1, 5);
    let kws = ["type", "move", "fn", "loop"];
    let mut fields: Vec<bgen::Field> = (0..n)
        .map(|j| {
            let name = if s.chance(1, 8) && j < kws.len() { kws[j].to_owned() } else { format!("m{j}") };
            bgen::Field { rust: name.clone(), cxx: name, ty: field(s, b, lt, 0) }
        })
        .collect();
    let lifetime = fields.iter().any(|f| b.has_lt(&f.ty));
    if s.chance(1, 2) {
        // One of the richer kinds of comparison.
        for f in &mut fields {
            if !supports(b, &f.ty, "Eq") || !supports(b, &f.ty, "Hash") || !supports(b, &f.ty, "Ord") {
                f.ty = if lifetime && s.coin() { Ty::Str } else { Ty::Prim(Prim::I16) };
            }
        }
    }
    let lifetime = fields.iter().any(|f| b.has_lt(&f.ty));
    let mut d: Vec<&'static str> = Vec::new();
    let ok = |b: &Bridge, d: &str| fields.iter().all(|f| supports(b, &f.ty, d));
    let mut all = ["PartialEq", "PartialOrd", "Hash", "Debug", "Default", "Clone", "Copy", "Eq", "Ord"];
    for what in all {
        let needs: &[&str] = match what { "Copy" => &["Clone"], "Eq" => &["PartialEq"], "PartialOrd" => &["PartialEq"], "Ord" => &["Eq", "PartialOrd"], _ => &[] };
        if s.chance(3, 4) && ok(b, what) && needs.iter().all(|n| d.contains(n)) {
            d.push(what);
        }
    }
    // In any order.
    all.rotate_left(0);
    for i in 0..d.len() {
        let j = i + s.us(d.len() - i);
        d.swap(i, j);
    }
    let ns = if s.coin() { b.ns.clone() } else { vec!["der".to_owned()] };
    let name = if s.chance(1, 6) { ["Ordering", "Hash2", "Formatter", "Some3", "Option2", "Less"][k % 6].to_owned() } else { format!("S{k}") };
    b.types.push(bgen::TypeDef { name: bgen::Name { rust: name.clone(), cxx: name, ns }, kind: Kind::Struct { fields, lifetime, external: false }, derives: d, attrs: vec![] });
}

/// The type of a field in the ordinary copy.
fn plain(t: &Text, ty: &Ty) -> String {
    match ty {
        Ty::T(i) => format!("P{i}{}", if t.b.has_lt(ty) { "<'a>" } else { "" }),
        Ty::Box(i) => format!("::std::boxed::Box<P{i}>"),
        Ty::Vec(e) => format!("::std::vec::Vec<{}>", plain(t, e)),
        Ty::Arr(e, n) => format!("[{}; {n}]", plain(t, e)),
        Ty::Slice(_, e) => format!("&'a [{}]", plain(t, e)),
        Ty::Ref(_, e) => format!("&'a {}", plain(t, e)),
        _ => t.rs(ty, Side::User, Some("'a")),
    }
}

/// Converts the expression (a reference to a field) to its ordinary copy.
fn convert(t: &Text, ty: &Ty, e: &str) -> String {
    match ty {
        Ty::T(i) => format!("p{i}({e})"),
        Ty::Box(i) => format!("::std::boxed::Box::new(p{i}(&**{e}))"),
        Ty::Vec(x) => format!("({e}).iter().map(|x| {}).collect::<::std::vec::Vec<_>>()", convert(t, x, "x")),
        Ty::Arr(x, _) => format!("::core::array::from_fn(|i| {})", convert(t, x, &format!("(&({e})[i])"))),
        Ty::Ref(_, x) => format!("&*::lab::keep({})", convert(t, x, &format!("(&**{e})"))),
        Ty::Slice(..) | Ty::Str | Ty::Prim(_) => format!("*{e}"),
        _ => format!("({e}).clone()"),
    }
}

fn extra(t: &Text) -> Extra {
    let mut x = Extra::default();
    x.rust += "use ::core::hash::{Hash, Hasher};\nfn h<T: Hash>(t: &T) -> u64 { let mut s = ::std::collections::hash_map::DefaultHasher::new(); t.hash(&mut s); s.finish() }\nfn bit(b: bool, i: u32) -> u64 { (b as u64) << i }\nfn text(s: ::std::string::String) -> u64 { ::lab::dig(&s) }\n";
    x.cc += "#include <unordered_set>\n";
    for (i, td) in t.b.types.iter().enumerate() {
        let has = |d: &str| td.derives.contains(&d);
        let c = t.qualified(&td.name);
        let r = &mut x.rust;
        match &td.kind {
            Kind::Enum { variants, repr, .. } => {
                let ty = t.rs(&Ty::T(i), Side::User, None);
                let ds: Vec<&str> = td.derives.iter().copied().filter(|d| !["Debug", "Clone", "Copy", "PartialEq", "Eq"].contains(d)).chain(["Clone", "Copy", "PartialEq", "Eq"]).collect();
                let _ = writeln!(r, "#[derive({})] #[repr(transparent)] struct P{i} {{ repr: {} }}\nfn p{i}(x: &{ty}) -> P{i} {{ P{i} {{ repr: x.repr }} }}", ds.join(", "), repr.rust());
                if has("Debug") {
                    let arms: String = variants.iter().map(|v| format!("{} => f.write_str({:?}), ", v.value, v.rust)).collect();
                    let _ = writeln!(r, "impl ::core::fmt::Debug for P{i} {{ fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result {{ match self.repr as i128 {{ {arms} _ => ::core::write!(f, \"{{}}({{}})\", {:?}, self.repr) }} }} }}", td.name.rust);
                }
            }
            Kind::Struct { fields, lifetime, .. } => {
                let g = if *lifetime { "<'a>" } else { "" };
                let ty = t.rs(&Ty::T(i), Side::User, Some("'a"));
                let defs: String = fields.iter().map(|f| format!("{}: {}, ", raw(&f.rust), plain(t, &f.ty))).collect();
                let _ = writeln!(r, "mod plain{i} {{ use super::*; #[derive({})] pub struct {}{g} {{ {} }} }}\nuse plain{i}::{} as P{i};", td.derives.join(", "), raw(&td.name.rust), defs.replace("super::", "super::super::").replace(&format!("{}: ", ""), ": ").split(", ").filter(|x| !x.is_empty()).map(|x| format!("pub {x}, ")).collect::<String>(), raw(&td.name.rust));
                let convs: String = fields.iter().map(|f| format!("{}: {}, ", raw(&f.rust), convert(t, &f.ty, &format!("(&x.{})", raw(&f.rust))))).collect();
                let _ = writeln!(r, "fn p{i}<'a>(x: &{}) -> P{i}{g} {{ P{i} {{ {convs} }} }}", if *lifetime { ty.clone() } else { t.rs(&Ty::T(i), Side::User, None) });
            }
            _ => continue,
        }
        let id = 200_000 + i as u32;
        let k = |n: u32| id << 8 | n;
        let ty = t.rs(&Ty::T(i), Side::User, Some("'static"));
        let _ = writeln!(r, "extern \"C\" {{ fn lab_ops_{i}(x: *const ::core::ffi::c_void, y: *const ::core::ffi::c_void) -> u64; fn lab_hash_{i}(x: *const ::core::ffi::c_void) -> u64; }}");
        let _ = writeln!(r, "pub fn derives_{i}(seed: u64) {{ type S = {ty}; let x: S = ::lab::mk(seed);");
        // The second value shares all fields but perhaps one with the first.
        match &td.kind {
            Kind::Struct { fields, .. } => {
                let n = fields.len();
                let fs: String = fields.iter().enumerate().map(|(j, f)| format!("{}: ::lab::mk(::lab::mix(if pick % {} == {j} {{ ::lab::mix(seed, 77) }} else {{ seed }}, {j})), ", raw(&f.rust), n + 1)).collect();
                let _ = writeln!(r, "let pick = ::lab::mix(seed, 5) % 97; let y: S = {} {{ {fs} }};", ty.replace("<'static>", ""));
            }
            Kind::Enum { .. } => {
                let _ = writeln!(r, "let y: S = {ty} {{ repr: match seed % 3 {{ 0 => x.repr, 1 => x.repr.wrapping_add(1), _ => ::lab::mk(::lab::mix(seed, 77)) }} }};");
            }
            _ => unreachable!(),
        }
        let _ = writeln!(r, "let (px, py) = (p{i}(&x), p{i}(&y));");
        let is_struct = matches!(td.kind, Kind::Struct { .. });
        let (mut ops_r, mut ops_p, mut ops_c) = ("0".to_owned(), "0".to_owned(), "0".to_owned());
        if has("PartialEq") || !is_struct {
            ops_r += " | bit(x == y, 0) | bit(x != y, 1) | bit(x == x, 2)";
            ops_p += " | bit(px == py, 0) | bit(px != py, 1) | bit(px == px, 2)";
            ops_c += " | u64(x == y) << 0 | u64(x != y) << 1 | u64(x == x) << 2";
        }
        if has("PartialOrd") {
            ops_r += " | bit(x < y, 3) | bit(x <= y, 4) | bit(x > y, 5) | bit(x >= y, 6) | bit(x <= x, 7)";
            ops_p += " | bit(px < py, 3) | bit(px <= py, 4) | bit(px > py, 5) | bit(px >= py, 6) | bit(px <= px, 7)";
            ops_c += " | u64(x < y) << 3 | u64(x <= y) << 4 | u64(x > y) << 5 | u64(x >= y) << 6 | u64(x <= x) << 7";
            let _ = writeln!(r, "let o = |c: ::core::option::Option<::core::cmp::Ordering>| c.map_or(9, |c| c as i8 as u64); ::lab::a({}, o(::core::cmp::PartialOrd::partial_cmp(&px, &py))); ::lab::b({0}, o(::core::cmp::PartialOrd::partial_cmp(&x, &y)));", k(2));
        }
        if has("Ord") {
            let _ = writeln!(r, "::lab::a({}, ::core::cmp::Ord::cmp(&px, &py) as i8 as u64); ::lab::b({0}, ::core::cmp::Ord::cmp(&x, &y) as i8 as u64);", k(3));
        }
        // The model, then Rust, then C++ (enums in C++ compare like their values as it is).
        let unordered_enum = !is_struct && !has("PartialOrd");
        let _ = unordered_enum;
        let _ = writeln!(r, "::lab::a({}, {ops_p}); ::lab::b({0}, {ops_r}); ::lab::a({0}, {ops_p}); ::lab::b({0}, unsafe {{ lab_ops_{i}(&raw const x as *const _, &raw const y as *const _) }});", k(1));
        if has("Hash") {
            let _ = writeln!(r, "::lab::a({}, h(&px)); ::lab::b({0}, h(&x));", k(4));
            if is_struct {
                let _ = writeln!(r, "let hc = |v: &S| unsafe {{ lab_hash_{i}(v as *const S as *const _) }}; ::lab::a({}, (h(&px) == h(&py)) as u64); ::lab::b({0}, (hc(&x) == hc(&y)) as u64); ::lab::a({0}, hc(&x)); ::lab::b({0}, hc(&x));", k(5));
            }
        }
        if has("Debug") {
            let _ = writeln!(r, "::lab::a({}, text(::std::format!(\"{{px:?}}\"))); ::lab::b({0}, text(::std::format!(\"{{x:?}}\"))); ::lab::a({0}, text(::std::format!(\"{{py:#?}}\"))); ::lab::b({0}, text(::std::format!(\"{{y:#?}}\")));", k(6));
        }
        if has("Clone") || !is_struct {
            // What the clone converts to, in terms of what can be observed.
            let _ = writeln!(r, "let cl = ::core::clone::Clone::clone(&x); ::lab::a({}, seen_{i}(&x)); ::lab::b({0}, seen_{i}(&cl));", k(7));
        }
        if has("Copy") || !is_struct {
            let _ = writeln!(r, "{{ let y = x; ::lab::a({}, seen_{i}(&x)); ::lab::b({0}, seen_{i}(&y)); }}", k(8));
        }
        if has("Default") && is_struct {
            let _ = writeln!(r, "{{ let d: S = ::core::default::Default::default(); let pd: P{i} = ::core::default::Default::default(); ::lab::a({}, seen_p{i}(&pd)); ::lab::b({0}, seen_p{i}(&p{i}(&d))); }}", k(9));
        }
        *r += "}\n";
        // Values apart from addresses.
        let seen = |name: &str, ty: &str, gen: &str| match &td.kind {
            Kind::Struct { fields, .. } => {
                let body: String = fields.iter().map(|f| format!("s = ::lab::mix(s, {}); ", value(&f.ty, &format!("(&x.{})", raw(&f.rust)), name.starts_with('p')))).collect();
                format!("fn seen_{name}{gen}(x: &{ty}) -> u64 {{ let mut s = 1u64; {body} s }}\n")
            }
            _ => format!("fn seen_{name}(x: &{ty}) -> u64 {{ ::lab::dig(&x.repr) }}\n"),
        };
        let lt = t.b.has_lt(&Ty::T(i));
        let g = if lt { "<'a>" } else { "" };
        x.rust += &seen(&format!("{i}"), &t.rs(&Ty::T(i), Side::User, Some("'a")), g);
        x.rust += &seen(&format!("p{i}"), &format!("P{i}{g}"), g);
        let _ = writeln!(x.cc, "extern \"C\" std::uint64_t lab_ops_{i}(void const *p, void const *q) {{ using u64 = std::uint64_t; auto &x = *static_cast<{c} const *>(p); auto &y = *static_cast<{c} const *>(q); (void)x; (void)y; return {ops_c}; }}");
        let hash = if has("Hash") && is_struct { format!("std::hash<{c}> h; static_assert(noexcept(h(x)), \"\"); return h(x);") } else { "return 0;".to_owned() };
        let _ = writeln!(x.cc, "extern \"C\" std::uint64_t lab_hash_{i}(void const *p) {{ auto &x = *static_cast<{c} const *>(p); (void)x; {hash} }}");
        x.drives.push((id, format!("derives_{i}"), format!("the derives of {}", td.name.rust)));
    }
    x
}

fn value(ty: &Ty, e: &str, p: bool) -> String {
    let q = if p { "p" } else { "" };
    match ty {
        Ty::T(i) => format!("seen_{q}{i}({e})"),
        Ty::Box(i) => format!("seen_{q}{i}(&**{e})"),
        Ty::Vec(x) | Ty::Arr(x, _) | Ty::Slice(_, x) => format!("({e}).iter().fold(({e}).len() as u64, |h, x| ::lab::mix(h, {}))", value(x, "x", p)),
        Ty::Ref(_, x) => value(x, &format!("(&**{e})"), p),
        Ty::Str => format!("::lab::dig::<str>(*{e})"),
        _ => format!("::lab::dig({e})"),
    }
}
