//! C27: what the Rust face of a bridge lets safe code do: auto traits,
//! lifetimes, unsafety and exact types, and mutation behind Pin.
use crate::prog::{self, Dir};
use pbt::{Entry, Prop, Src};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;

pub fn entry() -> Entry {
    Entry {
        id: "C27",
        rule: "traits: constant assertions about Send, Sync and Unpin of the types of random bridges, from a model of the auto traits. lifetimes: functions with random lifetimes in random positions, each called from a wrapper with lifetimes of its own (or, for Rust functions, implemented by a function with lifetimes of its own); rustc must reject exactly those which a region solver rejects. safety: each function bound to function pointer types and called with and without unsafe; user functions with a different signature must be rejected. escapes: snippets that get at something the bridge must keep from safe code, and their sound twins. Non-trivial when at least one outcome in the case is a rejection (traits: a negative assertion); distinct by text.",
        assumptions: &["rustc's borrow checker and trait solver are right."],
        props: vec![
            Prop { name: "traits", quick: 160, thorough: 6000, f: traits },
            Prop { name: "lifetimes", quick: 420, thorough: 20_000, f: lifetimes },
            Prop { name: "safety", quick: 260, thorough: 10_000, f: safety },
            Prop { name: "escapes", quick: 160, thorough: 4000, f: escapes },
        ],
    }
}

/// Which lines of the file have errors.
fn rejected(dir: &Dir, main: &str) -> Result<BTreeMap<usize, String>, String> {
    dir.put("main.rs", main);
    let o = prog::rustc(&dir.0, &["--emit=metadata", "--error-format=short"]);
    let err = String::from_utf8_lossy(&o.stderr).into_owned();
    if err.contains("internal compiler error") || o.status.code() == Some(124) { return Err("rustc ended abnormally".to_owned()); }
    let mut lines = BTreeMap::new();
    for l in err.lines() {
        if !l.contains(": error") && !l.starts_with("error") { continue; }
        if l.starts_with("error: aborting") { continue; }
        let n: usize = l.strip_prefix("main.rs:").and_then(|r| r.split(':').next()).and_then(|n| n.parse().ok()).unwrap_or(0);
        lines.entry(n).or_insert_with(|| l.to_owned());
    }
    if !o.status.success() && lines.is_empty() { return Err(format!("rustc: {}", prog::errors(&o, &["error"]))); }
    Ok(lines)
}

/// Compares rejected lines with those expected; `expect` maps lines to whether
/// they are sound and what they say.
fn compare(s: &mut Src, main: &str, groups: &[(Vec<usize>, bool, String)]) -> Result<(), String> {
    let dir = Dir::new();
    s.key(main.as_bytes());
    s.note(|| main.to_owned());
    if groups.iter().any(|g| !g.1) { s.nontrivial(); }
    let got = rejected(&dir, main)?;
    let known: BTreeSet<usize> = groups.iter().flat_map(|g| g.0.iter().copied()).collect();
    if let Some((_, e)) = got.iter().find(|(l, _)| !known.contains(l)) {
        return Err(format!("error elsewhere: {e}"));
    }
    for (lines, ok, what) in groups {
        let mine = lines.iter().find_map(|l| got.get(l));
        match (mine, ok) {
            (Some(e), true) => return Err(format!("sound, but rejected: {what}: {e}")),
            (None, false) => return Err(format!("unsound, but accepted: {what}")),
            _ => {}
        }
    }
    Ok(())
}

struct File { text: String, lines: usize }
impl File {
    fn new() -> File { File { text: String::new(), lines: 0 } }
    fn line(&mut self, l: &str) -> usize {
        self.text += l;
        self.text.push('\n');
        self.lines += l.matches('\n').count() + 1;
        self.lines
    }
}

// ---- auto traits

#[derive(Clone, Copy, PartialEq)]
struct Auto { send: bool, sync: bool, unpin: bool }
const ALL: Auto = Auto { send: true, sync: true, unpin: true };
fn and(a: Auto, b: Auto) -> Auto { Auto { send: a.send && b.send, sync: a.sync && b.sync, unpin: a.unpin && b.unpin } }
fn shared(a: Auto) -> Auto { let b = a.send && a.sync; Auto { send: b, sync: b, unpin: true } }

fn traits(s: &mut Src) -> Result<(), String> {
    let mut f = File::new();
    // name, auto traits, and what it is: C++, Rust, struct, enum.
    let mut types: Vec<(String, Auto, char)> = Vec::new();
    let mut outside = String::new();
    let mut bridge = String::new();
    for k in 0..s.urange(1, 4) {
        let life = s.chance(1, 4);
        let (g, h, u) = if life { ("<'a>", "<'static>", "<'_>") } else { ("", "", "") };
        let _ = writeln!(bridge, "    unsafe extern \"C++\" {{ type O{k}{g}; }}");
        let mut a = Auto { send: false, sync: false, unpin: false };
        if s.chance(1, 3) { a.send = true; let _ = writeln!(outside, "unsafe impl Send for ffi::O{k}{u} {{}}"); }
        if s.chance(1, 3) { a.sync = true; let _ = writeln!(outside, "unsafe impl Sync for ffi::O{k}{u} {{}}"); }
        types.push((format!("O{k}{h}"), a, 'c'));
    }
    for k in 0..s.urange(0, 3) {
        let a = Auto { send: s.coin(), sync: s.coin(), unpin: true };
        let _ = writeln!(bridge, "    extern \"Rust\" {{ type R{k}; }}");
        let mut fields = String::from("u8");
        match (a.send, a.sync) {
            (true, true) => {}
            (true, false) => fields += ", std::cell::Cell<u8>",
            (false, true) => fields += ", std::marker::PhantomData<std::sync::MutexGuard<'static, u8>>",
            _ => fields += ", std::marker::PhantomData<std::rc::Rc<u8>>",
        }
        let _ = writeln!(outside, "pub struct R{k}({fields});");
        types.push((format!("R{k}"), a, 'r'));
    }
    if s.coin() { bridge += "    enum E { A, B }\n"; types.push(("E".into(), ALL, 'e')); }
    if s.coin() {
        let a = Auto { send: s.coin(), sync: s.coin(), unpin: s.coin() };
        let mut fields = String::from("[u8; 3]");
        if !a.send { fields += ", std::marker::PhantomData<std::sync::MutexGuard<'static, u8>>"; }
        if !a.sync { fields += ", std::marker::PhantomData<std::cell::Cell<u8>>"; }
        if !a.unpin { fields += ", std::marker::PhantomPinned"; }
        let _ = writeln!(outside, "#[repr(C)] pub struct Ex({fields});\nunsafe impl cxx::ExternType for Ex {{ type Id = cxx::type_id!(\"Ex\"); type Kind = cxx::kind::Opaque; }}");
        bridge += "    extern \"C++\" { type Ex = super::Ex; }\n    impl UniquePtr<Ex> {}\n    impl SharedPtr<Ex> {}\n    impl WeakPtr<Ex> {}\n    impl CxxVector<Ex> {}\n";
        types.push(("Ex".into(), a, 'x'));
    }
    // Wrappers around what there is.
    let mut uses: BTreeSet<String> = BTreeSet::new();
    let wrap = |s: &mut Src, types: &[(String, Auto, char)], uses: &mut BTreeSet<String>, field: bool| -> (String, Auto) {
        let (n, a, k) = s.pick(types).clone();
        let life = n.contains('<');
        match s.below(12) {
            0 if field => ("String".into(), ALL),
            0 => ("CxxString".into(), Auto { unpin: false, ..ALL }),
            1 => ("UniquePtr<CxxString>".into(), ALL),
            2 | 3 if k != 'r' => { if !life && k != 'x' { uses.insert(format!("UniquePtr<{n}>")); } (format!("UniquePtr<{n}>"), Auto { unpin: true, ..a }) }
            4 | 5 if k != 'r' => { if !life && k != 'x' { uses.insert(format!("SharedPtr<{n}>")); } (format!("SharedPtr<{n}>"), shared(a)) }
            6 if k != 'r' => { if !life && k != 'x' { uses.insert(format!("WeakPtr<{n}>")); } (format!("WeakPtr<{n}>"), shared(a)) }
            7 | 8 if k != 'r' && !life => { if k != 'x' { uses.insert(format!("CxxVector<{n}>")); } if field { (format!("UniquePtr<CxxVector<{n}>>"), Auto { unpin: true, ..a }) } else { (format!("CxxVector<{n}>"), Auto { unpin: false, ..a }) } }
            9 if k == 'r' || k == 's' || k == 'e' => { if k != 'e' || true { uses.insert(format!("Box<{n}>")); } (format!("Box<{n}>"), Auto { unpin: true, ..a }) }
            10 if k == 'r' || k == 's' || k == 'e' => { uses.insert(format!("Vec<{n}>")); (format!("Vec<{n}>"), a) }
            _ if field => match k { 's' | 'e' => (n, a), 'r' => { uses.insert(format!("Box<{n}>")); (format!("Box<{n}>"), Auto { unpin: true, ..a }) } _ => ("u8".into(), ALL) },
            _ => (n, a),
        }
    };
    for k in 0..s.urange(0, 3) {
        let mut a = ALL;
        let mut fields = String::new();
        for j in 0..s.urange(1, 3) {
            let (t, b) = wrap(s, &types, &mut uses, true);
            // Lifetimes of opaque types are out of fields.
            if t.contains("'static") { let _ = write!(fields, "f{j}: u8, "); continue; }
            a = and(a, b);
            let _ = write!(fields, "f{j}: {t}, ");
        }
        let _ = writeln!(bridge, "    struct S{k} {{ {fields}}}");
        types.push((format!("S{k}"), a, 's'));
    }
    let mut checks: Vec<(String, Auto, bool)> = types.iter().map(|t| (t.0.clone(), t.1, true)).collect();
    for _ in 0..s.urange(4, 16) {
        let (t, a) = wrap(s, &types, &mut uses, false);
        // Unpin of weak pointers is not documented.
        let unpin = !t.contains("WeakPtr") && !t.contains('S');
        let (t, a) = match s.below(6) {
            0 => (format!("&'static {t}"), Auto { send: a.sync, sync: a.sync, unpin: true }),
            1 => (format!("Option<{t}>"), a),
            2 => (format!("std::pin::Pin<&'static mut {t}>"), Auto { unpin: true, ..a }),
            _ => (t, a),
        };
        checks.push((t, a, unpin));
    }
    for (t, _, k) in &types {
        match k {
            'c' if !t.contains('<') => { uses.insert(format!("UniquePtr<{t}>")); uses.insert(format!("SharedPtr<{t}>")); uses.insert(format!("WeakPtr<{t}>")); uses.insert(format!("CxxVector<{t}>")); }
            _ => {}
        }
        // Types with lifetimes have no explicit impl for 'static alone.
        if *k == 'c' && t.contains('<') { let n = t.split('<').next().unwrap(); let _ = writeln!(bridge, "    impl<'a> UniquePtr<{n}<'a>> {{}}\n    impl<'a> SharedPtr<{n}<'a>> {{}}\n    impl<'a> WeakPtr<{n}<'a>> {{}}"); }
    }
    for u in &uses { let _ = writeln!(bridge, "    impl {u} {{}}"); }
    // A struct with a weak pointer is as unsettled about Unpin as that is.
    let weak = bridge.contains("WeakPtr") && types.iter().any(|t| t.2 == 's');
    f.line("#![allow(warnings)]");
    f.line("use cxx::{UniquePtr, SharedPtr, WeakPtr, CxxVector, CxxString};");
    f.line("macro_rules! is { ($t:ty, $tr:path) => {{ trait No { const B: bool = false; } impl<T: ?Sized> No for T {} struct W<T: ?Sized>(std::marker::PhantomData<T>); impl<T: ?Sized + $tr> W<T> { const B: bool = true; } W::<$t>::B }} }");
    f.line(outside.trim_end());
    f.line(&format!("#[cxx::bridge]\npub mod ffi {{\n{bridge}}}"));
    f.line("use ffi::*;");
    let mut groups = Vec::new();
    for (t, a, unpin) in &checks {
        for (tr, v) in [("Send", a.send), ("Sync", a.sync), ("Unpin", a.unpin)] {
            if tr == "Unpin" && (!unpin || weak && t.contains('S')) { continue; }
            // A false assertion is a constant that panics.
            let l = f.line(&format!("const _: () = assert!(is!({t}, {tr}) == {v});"));
            groups.push((vec![l], true, format!("{t} {} {tr}", if v { "is" } else { "is not" })));
            if !v { s.nontrivial(); }
        }
    }
    for t in ["cxx::Exception", "UniquePtr<CxxString>", "SharedPtr<u8>", "WeakPtr<i64>", "UniquePtr<CxxVector<f64>>"] {
        let l = f.line(&format!("const _: () = assert!(is!({t}, Send) && is!({t}, Sync));"));
        groups.push((vec![l], true, t.to_owned()));
    }
    f.line("fn main() {}");
    compare(s, &f.text, &groups)
}

// ---- lifetimes

/// A type with `#` for each lifetime; whether each is invariant, and pairs
/// of positions where the first outlives the second.
#[derive(Clone, Copy)]
struct Form { t: &'static str, inv: &'static [bool], wf: &'static [(usize, usize)] }
const fn form(t: &'static str, inv: &'static [bool], wf: &'static [(usize, usize)]) -> Form { Form { t, inv, wf } }
const FORMS: &[Form] = &[
    form("&# T", &[false], &[]),
    form("Pin<&# mut T>", &[false], &[]),
    form("&# mut S", &[false], &[]),
    form("&# S", &[false], &[]),
    form("&# str", &[false], &[]),
    form("&# [u8]", &[false], &[]),
    form("&# mut [u8]", &[false], &[]),
    form("&# CxxString", &[false], &[]),
    form("&# String", &[false], &[]),
    form("Pin<&# mut CxxVector<u8>>", &[false], &[]),
    form("St<#>", &[false], &[]),
    form("&# St<#>", &[false, false], &[(1, 0)]),
    form("&# mut St<#>", &[false, true], &[(1, 0)]),
    form("Box<R<#>>", &[false], &[]),
    form("&# R<#>", &[false, false], &[(1, 0)]),
    form("&# mut R<#>", &[false, true], &[(1, 0)]),
    form("UniquePtr<C<#>>", &[false], &[]),
    form("SharedPtr<C<#>>", &[false], &[]),
    form("&# C<#>", &[false, false], &[(1, 0)]),
    form("Pin<&# mut C<#>>", &[false, true], &[(1, 0)]),
    form("Two<#, #>", &[false, false], &[]),
    form("&# Two<#, #>", &[false, false, false], &[(1, 0), (2, 0)]),
    form("&# UniquePtr<T>", &[false], &[]),
    form("&# [S]", &[false], &[]),
    form("Vec<St<#>>", &[false], &[]),
];
const RECV_CXX: &[Form] = &[form("&# T", &[false], &[]), form("Pin<&# mut T>", &[false], &[]), form("&# C<#>", &[false, false], &[(1, 0)]), form("Pin<&# mut C<#>>", &[false, true], &[(1, 0)]), form("&# S", &[false], &[]), form("&# mut St<#>", &[false, true], &[(1, 0)]), form("&# St<#>", &[false, false], &[(1, 0)])];
const RECV_RUST: &[Form] = &[form("&# R<#>", &[false, false], &[(1, 0)]), form("&# mut R<#>", &[false, true], &[(1, 0)]), form("&# S", &[false], &[]), form("&# mut S", &[false], &[]), form("&# St<#>", &[false, false], &[(1, 0)])];

#[derive(Clone, PartialEq)]
enum Lt { Named(usize), Elided, Static }

fn spell(f: &Form, lts: &[Lt], name: &dyn Fn(usize) -> String, hide: bool) -> String {
    let mut out = String::new();
    let mut k = 0;
    let chars: Vec<char> = f.t.chars().collect();
    for (i, c) in chars.iter().enumerate() {
        if *c != '#' { out.push(*c); continue; }
        let after_ref = i > 0 && chars[i - 1] == '&';
        match &lts[k] {
            Lt::Named(n) => out += &name(*n),
            Lt::Static => out += "'static",
            Lt::Elided if after_ref => {}
            Lt::Elided => out += "'_",
        }
        k += 1;
    }
    let out = out.replace("& ", "&");
    if hide { out.replace("<'_>", "").replace("<'_, '_>", "") } else { out }
}

struct Sig { recv: Option<(Form, Vec<Lt>)>, args: Vec<(Form, Vec<Lt>)>, ret: Option<(Form, Vec<Lt>)>, result: bool }
const NODE_STATIC: usize = 0;

impl Sig {
    fn inputs(&self) -> impl Iterator<Item = &(Form, Vec<Lt>)> { self.recv.iter().chain(&self.args) }
    /// A node for each lifetime position of the inputs, then of the output.
    fn nodes(&self, named: &mut BTreeMap<usize, usize>, next: &mut usize) -> Option<(Vec<Vec<usize>>, Vec<usize>)> {
        let mut ins = Vec::new();
        let mut get = |l: &Lt, next: &mut usize| match l {
            Lt::Named(n) => *named.entry(*n).or_insert_with(|| { *next += 1; *next }),
            Lt::Static => NODE_STATIC,
            Lt::Elided => { *next += 1; *next }
        };
        for (_, l) in self.inputs() { ins.push(l.iter().map(|l| get(l, next)).collect::<Vec<_>>()); }
        let flat: Vec<usize> = ins.iter().flatten().copied().collect();
        let elided = if self.recv.is_some() || flat.len() == 1 { Some(flat[0]) } else { None };
        let mut outs = Vec::new();
        if let Some((_, l)) = &self.ret { for l in l { outs.push(match l { Lt::Elided => elided?, l => get(l, next) }); } }
        Some((ins, outs))
    }
}

fn lt(s: &mut Src, named: usize, elide: u32) -> Lt {
    match s.weighted(&[if named > 0 { 6 } else { 0 }, elide, 1]) {
        0 => Lt::Named(s.us(named)),
        1 => Lt::Elided,
        _ => if s.chance(1, 3) { Lt::Static } else if named > 0 { Lt::Named(s.us(named)) } else { Lt::Elided },
    }
}

fn sig(s: &mut Src, rust: bool) -> (Sig, usize) {
    let named = s.weighted(&[3, 2, 4, 2]);
    let lts = |s: &mut Src, f: &Form, elide: u32| -> Vec<Lt> { (0..f.inv.len()).map(|_| lt(s, named, elide)).collect() };
    let recv = if s.chance(1, 4) { let f = *s.pick(if rust { RECV_RUST } else { RECV_CXX }); let l = lts(s, &f, 4); Some((f, l)) } else { None };
    let n = s.weighted(&[1, 4, 4, 2]);
    let args: Vec<(Form, Vec<Lt>)> = (0..n).map(|_| { let f = *s.pick(FORMS); let l = lts(s, &f, 3); (f, l) }).collect();
    let ret = if s.chance(7, 8) { let f = *s.pick(FORMS); let e = if named == 0 { 20 } else { 2 }; let l = lts(s, &f, e); Some((f, l)) } else { None };
    let result = s.chance(1, 4);
    (Sig { recv, args, ret, result }, named)
}

fn render(sg: &Sig, name: &str, named: &[String], hide: bool, bridge: bool, recv_as: &str) -> String {
    let nm = |n: usize| named[n].clone();
    let mut args: Vec<String> = Vec::new();
    if let Some((f, l)) = &sg.recv { args.push(format!("{recv_as}: {}", spell(f, l, &nm, hide))); }
    for (i, (f, l)) in sg.args.iter().enumerate() { args.push(format!("x{i}: {}", spell(f, l, &nm, hide))); }
    let g = if named.is_empty() { String::new() } else { format!("<{}>", named.join(", ")) };
    let mut t = format!("fn {name}{g}({})", args.join(", "));
    let r = sg.ret.as_ref().map(|(f, l)| spell(f, l, &nm, hide)).unwrap_or_else(|| "()".to_owned());
    if sg.result { t += &if bridge { format!(" -> Result<{r}>") } else { format!(" -> Result<{r}, cxx::Exception>") }; } else if r != "()" { t += &format!(" -> {r}"); }
    t
}

/// Whether every outlives requirement among universal regions is known.
fn solve(universal: &BTreeSet<usize>, known: &BTreeSet<(usize, usize)>, edges: &[(usize, usize)]) -> bool {
    // Closure of what is known.
    let mut k = known.clone();
    loop {
        let add: Vec<(usize, usize)> = k.iter().flat_map(|(a, b)| k.iter().filter(move |(c, _)| c == b).map(move |(_, d)| (*a, *d))).filter(|e| !k.contains(e)).collect();
        if add.is_empty() { break; }
        k.extend(add);
    }
    for u in universal {
        // Which nodes must `u` outlive, through region variables?
        let mut seen = BTreeSet::from([*u]);
        let mut queue = vec![*u];
        while let Some(x) = queue.pop() {
            for (a, b) in edges {
                if *a == x && seen.insert(*b) {
                    if universal.contains(b) {
                        if u != b && *u != NODE_STATIC && !k.contains(&(*u, *b)) { return false; }
                    } else { queue.push(*b); }
                }
            }
        }
    }
    true
}

const PRELUDE: &str = "#![allow(warnings)]\nuse cxx::{UniquePtr, SharedPtr, CxxVector, CxxString};\nuse std::pin::Pin;\nuse ffi::{T, S, St, C, Two};\npub struct R<'r>(&'r u8);";
const TYPES: &str = "    struct S { a: u8 }\n    struct St<'s> { a: &'s str }\n    struct Two<'s, 't> { a: &'s str, b: &'t str }\n    unsafe extern \"C++\" { type T; type C<'c>; }\n    extern \"Rust\" { type R<'r>; }\n    impl<'c> UniquePtr<C<'c>> {}\n    impl<'c> SharedPtr<C<'c>> {}\n    impl<'r> Box<R<'r>> {}\n    impl<'s> Vec<St<'s>> {}\n    impl UniquePtr<T> {}\n    impl CxxVector<S> {}";

fn accepted(item: &str) -> Result<(), String> {
    prog::generate(&format!("#[cxx::bridge]\npub mod ffi {{\n{TYPES}\n{item}\n}}\n")).map(|_| ())
}

fn lifetimes(s: &mut Src) -> Result<(), String> {
    let mut f = File::new();
    f.line(PRELUDE);
    f.line("#[cxx::bridge]\npub mod ffi {");
    f.line(TYPES);
    let mut groups = Vec::new();
    let mut later: Vec<(usize, bool, Sig, usize, Vec<String>)> = Vec::new();
    for k in 0..s.urange(1, 10) {
        let rust = s.chance(2, 5);
        let (sg, named) = sig(s, rust);
        let names: Vec<String> = (0..named).map(|n| ["'a", "'b", "'long"][n].to_owned()).collect();
        // A hidden lifetime in a result is only found where rustc's own rules
        // find it in what the macro writes.
        let hide = s.coin() && !sg.ret.as_ref().map_or(false, |(_, l)| l.contains(&Lt::Elided));
        let text = render(&sg, &format!("f{k}"), &names, hide, true, "self");
        let item = if rust { format!("    extern \"Rust\" {{ {}{text}; }}", if named > 0 || s.chance(1, 4) { "unsafe " } else { "" }) } else { format!("    unsafe extern \"C++\" {{ {}{text}; }}", if s.chance(1, 3) { "unsafe " } else { "" }) };
        if sg.nodes(&mut BTreeMap::new(), &mut 0).is_none() || accepted(&item).is_err() { continue; }
        let l = f.line(&item);
        later.push((l, rust, sg, named, names));
    }
    f.line("}");
    for (k, (bridge_line, rust, sg, _named, names)) in later.into_iter().enumerate() {
        let k = { let _ = k; f.text.lines().nth(bridge_line - 1).unwrap().split("fn f").nth(1).unwrap().chars().take_while(char::is_ascii_digit).collect::<String>() };
        if rust {
            // A user's function with lifetimes of its own implements it.
            let mut next = 0;
            let mut map = BTreeMap::new();
            let (uin, uout) = sg.nodes(&mut map, &mut next).unwrap();
            let universal: BTreeSet<usize> = (0..=next).collect();
            let mut known: BTreeSet<(usize, usize)> = (0..=next).map(|n| (NODE_STATIC, n)).collect();
            for ((fm, _), n) in sg.inputs().zip(&uin) { for (a, b) in fm.wf { known.insert((n[*a], n[*b])); } }
            if let Some((fm, _)) = &sg.ret { for (a, b) in fm.wf { known.insert((uout[*a], uout[*b])); } }
            let count = s.urange(1, 5);
            let same = s.chance(2, 5);
            let pick = |s: &mut Src, l: &[Lt]| -> Vec<Lt> { l.iter().map(|_| if s.chance(1, 10) { Lt::Static } else { Lt::Named(s.us(count)) }).collect() };
            let mut user = Sig { recv: sg.recv.as_ref().map(|(f, l)| (*f, pick(s, l))), args: sg.args.iter().map(|(f, l)| (*f, pick(s, l))).collect(), ret: sg.ret.as_ref().map(|(f, l)| (*f, pick(s, l))), result: sg.result };
            let mut unames: Vec<String> = (0..count).map(|n| format!("'u{n}")).collect();
            if same {
                // The same lifetimes as the bridge's, spelled out, but for one.
                unames = (0..=next).map(|n| format!("'u{n}")).collect();
                let to = |n: &Vec<usize>| n.iter().map(|n| if *n == 0 { Lt::Static } else { Lt::Named(*n) }).collect::<Vec<_>>();
                let mut it = uin.iter();
                if let Some(r) = &mut user.recv { r.1 = to(it.next().unwrap()); }
                for a in &mut user.args { a.1 = to(it.next().unwrap()); }
                if let Some(r) = &mut user.ret { r.1 = to(&uout); }
                if s.coin() {
                    if let Some(r) = &mut user.ret { if !r.1.is_empty() { let i = s.us(r.1.len()); r.1[i] = if s.chance(1, 4) { Lt::Static } else { Lt::Named(s.us(next + 1)) }; } }
                }
            }
            let mut vmap = BTreeMap::new();
            let (vin, vout) = user.nodes(&mut vmap, &mut next).unwrap();
            let mut edges: Vec<(usize, usize)> = Vec::new();
            for (((fm, _), u), v) in sg.inputs().zip(&uin).zip(&vin) {
                for i in 0..u.len() { edges.push((u[i], v[i])); if fm.inv[i] { edges.push((v[i], u[i])); } }
                for (a, b) in fm.wf { edges.push((v[*a], v[*b])); }
            }
            if let Some((fm, _)) = &sg.ret {
                for i in 0..uout.len() { edges.push((vout[i], uout[i])); if fm.inv[i] { edges.push((uout[i], vout[i])); } }
                for (a, b) in fm.wf { edges.push((vout[*a], vout[*b])); }
            }
            let ok = solve(&universal, &known, &edges);
            let vis = if s.chance(1, 3) { "pub " } else { "" };
            let line = match &user.recv {
                None => f.line(&format!("{vis}{} {{ todo!() }}", render(&user, &format!("f{k}"), &unames, false, false, ""))),
                Some((fm, _)) => {
                    let of = fm.t.split(|c: char| !c.is_alphanumeric()).find(|w| ["R", "S", "St"].contains(w)).unwrap();
                    let (h, g) = if of == "S" { ("impl ".to_owned(), "S".to_owned()) } else { ("impl ".to_owned(), format!("{of}<'_>")) };
                    if of == "S" {
                        f.line(&format!("{h}{g} {{ {vis}{} {{ todo!() }} }}", render(&user, &format!("f{k}"), &unames, false, false, "self")))
                    } else {
                        // Generic over the receiver's own lifetime.
                        f.line(&format!("impl<{}> {of}<{}> {{ {vis}{} {{ todo!() }} }}", unames.join(", "), match &user.recv.as_ref().unwrap().1[1] { Lt::Static => "'static".to_owned(), Lt::Named(n) => unames[*n].clone(), Lt::Elided => unreachable!() }, render(&user, &format!("f{k}"), &unames, false, false, "self").replacen(&format!("<{}>(", unames.join(", ")), "(", 1)))
                    }
                }
            };
            groups.push((vec![bridge_line, line], ok, f.text.lines().nth(line - 1).unwrap().to_owned()));
            continue;
        }
        groups.push((vec![bridge_line], true, f.text.lines().nth(bridge_line - 1).unwrap().to_owned()));
        for w in 0..s.urange(1, 4) {
            // A wrapper with lifetimes of its own.
            let inputs: Vec<(Form, Vec<Lt>)> = sg.inputs().cloned().collect();
            let positions: usize = inputs.iter().map(|i| i.1.len()).sum();
            let distinct = s.chance(2, 3);
            let count = if distinct { positions } else { s.urange(1, positions.max(1)) };
            let mut next = 0;
            let wrap: Vec<(Form, Vec<Lt>)> = inputs.iter().map(|(fm, l)| (*fm, l.iter().map(|_| { let n = next; next += 1; if s.chance(1, 14) { Lt::Static } else if distinct { Lt::Named(n) } else { Lt::Named(s.us(count)) } }).collect())).collect();
            // What does the declaration promise?
            let mut m = 0;
            let (din, dout) = sg.nodes(&mut BTreeMap::new(), &mut m).unwrap();
            let flat_w: Vec<Lt> = wrap.iter().flat_map(|w| w.1.clone()).collect();
            let flat_d: Vec<usize> = din.iter().flatten().copied().collect();
            let ret: Option<(Form, Vec<Lt>)> = sg.ret.as_ref().map(|(fm, l)| (*fm, (0..l.len()).map(|i| {
                let right: Vec<&Lt> = flat_d.iter().zip(&flat_w).filter(|(d, _)| **d == dout[i]).map(|x| x.1).collect();
                if !right.is_empty() && s.chance(3, 5) { (*s.pick(&right)).clone() } else if s.chance(1, 8) || count == 0 { Lt::Static } else { Lt::Named(s.us(count)) }
            }).collect()));
            let wsig = Sig { recv: None, args: wrap, ret, result: sg.result };
            let wnames: Vec<String> = (0..count).map(|n| format!("'p{n}")).collect();
            let mut bounds: Vec<(usize, usize)> = Vec::new();
            if count > 1 && s.chance(1, 4) { let a = s.us(count); let b = s.us(count); bounds.push((a, b)); }
            // Nodes: 0 static, 1..=count wrapper, then the declaration's.
            let wn = |l: &Lt| match l { Lt::Static => 0, Lt::Named(n) => n + 1, Lt::Elided => unreachable!() };
            let universal: BTreeSet<usize> = (0..=count).collect();
            let mut known: BTreeSet<(usize, usize)> = (0..=count).map(|n| (0, n)).collect();
            for (a, b) in &bounds { known.insert((a + 1, b + 1)); }
            let dn = |d: usize| if d == NODE_STATIC { 0 } else { count + d };
            let mut edges: Vec<(usize, usize)> = Vec::new();
            for ((fm, l), d) in wsig.args.iter().zip(&din) {
                for (a, b) in fm.wf { known.insert((wn(&l[*a]), wn(&l[*b]))); edges.push((dn(d[*a]), dn(d[*b]))); }
                for i in 0..l.len() { edges.push((wn(&l[i]), dn(d[i]))); if fm.inv[i] { edges.push((dn(d[i]), wn(&l[i]))); } }
            }
            if let Some((fm, l)) = &wsig.ret {
                for (a, b) in fm.wf { known.insert((wn(&l[*a]), wn(&l[*b]))); edges.push((dn(dout[*a]), dn(dout[*b]))); }
                for i in 0..l.len() { edges.push((dn(dout[i]), wn(&l[i]))); if fm.inv[i] { edges.push((wn(&l[i]), dn(dout[i]))); } }
            }
            let ok = solve(&universal, &known, &edges);
            let bound = if bounds.is_empty() { String::new() } else { format!(" where {}", bounds.iter().map(|(a, b)| format!("'p{a}: 'p{b}")).collect::<Vec<_>>().join(", ")) };
            let path = match &sg.recv { None => format!("ffi::f{k}"), Some((fm, _)) => { let of = fm.t.split(|c: char| !c.is_alphanumeric()).find(|w| ["T", "S", "St", "C"].contains(w)).unwrap(); format!("{of}::f{k}") } };
            let vars: Vec<String> = (0..wsig.args.len()).map(|i| format!("x{i}")).collect();
            let l = f.line(&format!("{}{bound} {{ unsafe {{ {path}({}) }} }}", render(&wsig, &format!("w{k}_{w}"), &wnames, false, false, ""), vars.join(", ")));
            let what = f.text.lines().nth(l - 1).unwrap().to_owned();
            let decl = f.text.lines().nth(bridge_line - 1).unwrap().trim().to_owned();
            groups.push((vec![l], ok, format!("{what} for {decl}")));
            let _ = &names;
        }
    }
    f.line("fn main() {}");
    compare(s, &f.text, &groups)
}

// ---- unsafety and exact types

/// Types none of which coerces to another.
const EXACT: &[&str] = &["u8", "u16", "u32", "i8", "i64", "usize", "f32", "bool", "String", "&str", "&T", "Pin<&mut T>", "&[u8]", "&mut [u16]", "Box<R>", "UniquePtr<T>", "SharedPtr<T>", "UniquePtr<CxxString>", "Vec<u8>", "Vec<String>", "S", "E", "&CxxString", "[u8; 2]", "[u8; 3]", "*const T", "*mut T"];

fn safety(s: &mut Src) -> Result<(), String> {
    let mut f = File::new();
    f.line("#![allow(warnings)]\nuse cxx::{UniquePtr, SharedPtr, CxxVector, CxxString};\nuse std::pin::Pin;\nuse ffi::{T, S, E};\npub struct R(u8);");
    f.line("#[cxx::bridge]\npub mod ffi {");
    f.line("    struct S { a: u8 }\n    enum E { A }\n    unsafe extern \"C++\" { type T; }\n    extern \"Rust\" { type R; }\n    impl SharedPtr<T> {}\n    impl UniquePtr<T> {}");
    let mut groups = Vec::new();
    struct Fun { rust: bool, is_unsafe: bool, recv: Option<(&'static str, &'static str)>, args: Vec<&'static str>, ret: Option<&'static str>, result: bool, line: usize }
    let mut funs: Vec<Fun> = Vec::new();
    // A block that is not unsafe may not have safe functions.
    let wrong_block = s.chance(1, 6);
    let count = if wrong_block { 1 } else { s.urange(1, 8) };
    for k in 0..count {
        let rust = !wrong_block && s.coin();
        let recv = if s.chance(1, 4) { Some(*s.pick(if rust { &[("R", "&R"), ("R", "&mut R"), ("S", "&S"), ("S", "&mut S")][..] } else { &[("T", "&T"), ("T", "Pin<&mut T>"), ("S", "&S"), ("S", "&mut S")][..] })) } else { None };
        let args: Vec<&str> = (0..s.weighted(&[2, 3, 2, 1])).map(|_| *s.pick(EXACT)).collect();
        let ret = if s.chance(2, 3) { Some(*s.pick(EXACT)) } else { None }.filter(|r| !r.contains('&'));
        let raw = args.iter().any(|a| a.starts_with('*'));
        let mut is_unsafe = raw || s.coin();
        if wrong_block && !raw { is_unsafe = false; }
        let trusted = !is_unsafe || s.coin();
        let result = s.chance(1, 4);
        let sig = format!("fn f{k}({}){}", recv.iter().map(|r| format!("self: {}", r.1)).chain(args.iter().enumerate().map(|(i, a)| format!("x{i}: {a}"))).collect::<Vec<_>>().join(", "), match (ret, result) { (Some(r), true) => format!(" -> Result<{r}>"), (None, true) => " -> Result<()>".to_owned(), (Some(r), false) => format!(" -> {r}"), _ => String::new() });
        let u = if is_unsafe { "unsafe " } else { "" };
        let line = f.line(&if rust { format!("    extern \"Rust\" {{ {u}{sig}; }}") } else { format!("    {}extern \"C++\" {{ {u}{sig}; }}", if wrong_block || !trusted { "" } else if is_unsafe && s.coin() { "" } else { "unsafe " }) });
        funs.push(Fun { rust, is_unsafe, recv, args, ret, result, line });
    }
    f.line("}");
    if wrong_block {
        f.line("fn main() {}");
        let ok = funs[0].is_unsafe;
        s.key(f.text.as_bytes());
        if !ok { s.nontrivial(); }
        s.note(|| f.text.clone());
        let module = &f.text[f.text.find("#[cxx::bridge]").unwrap()..f.text.rfind("fn main").unwrap()];
        if prog::generate(module).is_ok() != ok { return Err(format!("the generator {} {}", if ok { "rejects" } else { "accepts" }, f.text.lines().nth(funs[0].line - 1).unwrap())); }
        let got = rejected(&Dir::new(), &f.text)?;
        if ok != got.is_empty() { return Err(if ok { format!("rejected: {:?}", got.values().next()) } else { "a safe function in a block that is not unsafe is accepted".to_owned() }); }
        return Ok(());
    }
    for (k, fun) in funs.iter().enumerate() {
        let decl = f.text.lines().nth(fun.line - 1).unwrap().trim().to_owned();
        let out = |ret: Option<&str>, e: &str| match (ret, fun.result) { (Some(r), true) => format!(" -> Result<{r}, {e}>"), (None, true) => format!(" -> Result<(), {e}>"), (Some(r), false) => format!(" -> {r}"), _ => String::new() };
        if fun.rust {
            let user_unsafe = s.chance(1, 3);
            let (mut args, mut ret) = (fun.args.clone(), fun.ret);
            let mut ok = fun.is_unsafe || !user_unsafe;
            let mut result = fun.result;
            if s.chance(1, 2) {
                match s.below(5) {
                    0 if !args.is_empty() => { let i = s.us(args.len()); let t = *s.pick(EXACT); if t != args[i] && !(t == "*const T" && matches!(args[i], "*mut T" | "&T")) { args[i] = t; ok = false; } }
                    1 => { args.push("u8"); ok = false; }
                    2 if !args.is_empty() => { args.pop(); ok = false; }
                    3 => { let t = *s.pick(EXACT); if !t.contains('&') && Some(t) != ret && !(t == "*mut T" && ret == Some("*const T")) { ret = Some(t); ok = false; } }
                    _ => { result = !result; ok = false; }
                }
            }
            let e = *s.pick(&["String", "std::fmt::Error", "Box<dyn std::error::Error>", "std::io::Error", "&'static str"]);
            // An error type must be displayable.
            let e = if result && s.chance(1, 8) { ok = false; "Vec<u8>" } else { e };
            let ret_text = if result { format!(" -> Result<{}, {e}>", ret.unwrap_or("()")) } else { ret.map(|r| format!(" -> {r}")).unwrap_or_default() };
            let list = fun.recv.iter().map(|r| format!("self: {}", r.1.replace(r.0, "Self"))).chain(args.iter().enumerate().map(|(i, a)| format!("x{i}: {a}"))).collect::<Vec<_>>().join(", ");
            let text = format!("{}fn f{k}({list}){ret_text} {{ todo!() }}", if user_unsafe { "unsafe " } else { "" });
            let l = f.line(&match fun.recv { None => text, Some((t, _)) => format!("impl {t} {{ {text} }}") });
            let what = f.text.lines().nth(l - 1).unwrap().to_owned();
            groups.push((vec![fun.line, l], ok, format!("{what} for {decl}")));
            continue;
        }
        groups.push((vec![fun.line], true, decl.clone()));
        let path = match fun.recv { None => format!("ffi::f{k}"), Some((t, _)) => format!("{t}::f{k}") };
        let types: Vec<&str> = fun.recv.iter().map(|r| r.1).chain(fun.args.iter().copied()).collect();
        // Calls.
        for (j, with) in [true, false].into_iter().enumerate() {
            let params = types.iter().enumerate().map(|(i, t)| format!("x{i}: {t}")).collect::<Vec<_>>().join(", ");
            let call = format!("{path}({})", (0..types.len()).map(|i| format!("x{i}")).collect::<Vec<_>>().join(", "));
            let l = f.line(&format!("fn c{k}_{j}({params}){} {{ {} }}", out(fun.ret, "cxx::Exception"), if with { format!("unsafe {{ {call} }}") } else { call }));
            groups.push((vec![l], with || !fun.is_unsafe, format!("a call {} unsafe of {decl}", if with { "in" } else { "without" })));
        }
        // The exact type.
        for j in 0..s.urange(1, 3) {
            let as_unsafe = s.coin();
            let mut t = types.clone();
            let mut ret = fun.ret;
            let mut ok = as_unsafe || !fun.is_unsafe;
            if s.chance(1, 3) {
                if !t.is_empty() && s.coin() { let i = s.us(t.len()); let n = *s.pick(EXACT); if n != t[i] { t[i] = n; ok = false; } } else { let n = *s.pick(EXACT); if !n.contains('&') && Some(n) != ret { ret = Some(n); ok = false; } }
            }
            let l = f.line(&format!("const K{k}_{j}: {}fn({}){} = {path};", if as_unsafe { "unsafe " } else { "" }, t.join(", "), out(ret, "cxx::Exception")));
            let what = f.text.lines().nth(l - 1).unwrap().to_owned();
            groups.push((vec![l], ok, format!("{what} for {decl}")));
        }
    }
    f.line("fn main() {}");
    compare(s, &f.text, &groups)
}

// ---- escapes

/// (snippet, for which kinds of X it is sound). Kinds: o opaque C++ type, O the
/// same with a lifetime, s shared struct, e enum, t trivial alias (Unpin),
/// c CxxString, v CxxVector<u8>.
const SNIPPETS: &[(&str, &str, &str)] = &[
    ("fn @(p: Pin<&mut X>) -> &mut X { p.get_mut() }", "oOsetcv", "set"),
    ("fn @(p: Pin<&mut X>) -> &mut X { Pin::into_inner(p) }", "oOsetcv", "set"),
    ("fn @(p: &mut X) -> Pin<&mut X> { Pin::new(p) }", "oOsetcv", "set"),
    ("fn @(mut p: Pin<&mut X>) -> Pin<&mut X> { p }", "oOsetcv", "oOsetcv"),
    ("fn @<'q>(p: &'q mut Pin<&mut X>) -> Pin<&'q mut X> { p.as_mut() }", "oOsetcv", "oOsetcv"),
    ("fn @(p: Pin<&mut X>) -> &X { Pin::into_ref(p).get_ref() }", "oOsetcv", "oOsetcv"),
    ("fn @(mut a: Pin<&mut X>, mut b: Pin<&mut X>) { std::mem::swap(&mut *a, &mut *b) }", "oOsetcv", "set"),
    ("fn @(mut a: Pin<&mut X>, b: X) { a.set(b) }", "oOcv", "oOcv"),
    ("fn @(mut p: UniquePtr<X>) { let r: &mut X = &mut *p; }", "oOsetcv", "set"),
    ("fn @(mut p: UniquePtr<X>) { let r: Pin<&mut X> = p.pin_mut(); }", "oOsetcv", "oOsetcv"),
    ("fn @(mut p: UniquePtr<X>) { let r: Option<Pin<&mut X>> = p.as_mut(); }", "oOsetcv", "oOsetcv"),
    ("fn @(p: &UniquePtr<X>) { let r: &X = &**p; }", "oOsetcv", "oOsetcv"),
    ("fn @(p: &UniquePtr<X>) { let r = p.pin_mut(); }", "oOsetcv", ""),
    ("fn @(p: &UniquePtr<X>) -> Option<&'static X> { p.as_ref() }", "oOsetcv", ""),
    ("fn @(mut p: UniquePtr<X>) { let a = p.pin_mut(); let b = p.pin_mut(); drop(a); drop(b); }", "oOsetcv", ""),
    ("fn @(mut p: UniquePtr<X>) { let a = p.as_ref(); let b = p.pin_mut(); drop(a); }", "oOsetcv", ""),
    ("fn @(mut p: UniquePtr<X>) { let a = p.as_ref(); drop(p); drop(a); }", "oOsetcv", ""),
    ("fn @(mut p: UniquePtr<X>) { let a = p.pin_mut(); drop(a); let b = p.pin_mut(); drop(b); }", "oOsetcv", "oOsetcv"),
    ("fn @(p: UniquePtr<X>) -> UniquePtr<X> { p.clone() }", "oOsetcv", ""),
    ("fn @(p: UniquePtr<X>) -> X { *p }", "oOsecv", "e"),
    ("fn @(p: *mut X) -> UniquePtr<X> { UniquePtr::from_raw(p) }", "oOsetcv", ""),
    ("fn @(p: *mut X) -> UniquePtr<X> { unsafe { UniquePtr::from_raw(p) } }", "oOsetcv", "oOsetcv"),
    ("fn @(p: UniquePtr<X>) -> *mut X { p.into_raw() }", "oOsetcv", "oOsetcv"),
    ("fn @(x: X) -> UniquePtr<X> { UniquePtr::new(x) }", "oOsetcv", "set"),
    ("fn @(x: X) -> SharedPtr<X> { SharedPtr::new(x) }", "oOset", "set"),
    ("fn @(p: SharedPtr<X>) -> SharedPtr<X> { p.clone() }", "oOset", "oOset"),
    ("fn @(p: &mut SharedPtr<X>) { let r: &X = &**p; }", "oOset", "oOset"),
    ("fn @(p: &mut SharedPtr<X>) { let r: &mut X = &mut **p; }", "oOset", ""),
    ("fn @(p: &mut SharedPtr<X>) { let r = p.pin_mut(); }", "oOset", ""),
    ("fn @(p: SharedPtr<X>) { let a = p.as_ref(); drop(p); drop(a); }", "oOset", ""),
    ("fn @(p: *mut X) -> SharedPtr<X> { SharedPtr::from_raw(p) }", "oOset", ""),
    ("fn @(p: &WeakPtr<X>) -> &X { &**p }", "oOset", ""),
    ("fn @(p: &WeakPtr<X>) -> SharedPtr<X> { p.upgrade() }", "oOset", "oOset"),
    ("fn @(v: &CxxVector<X>) -> Option<&X> { v.get(0) }", "oset", "oset"),
    ("fn @(v: &CxxVector<X>) -> &X { v.get_unchecked(0) }", "oset", ""),
    ("fn @(v: Pin<&mut CxxVector<X>>) -> Option<Pin<&mut X>> { v.index_mut(0) }", "oset", "oset"),
    ("fn @(v: Pin<&mut CxxVector<X>>) -> Option<&mut X> { v.index_mut(0).map(|p| p.get_mut()) }", "oset", "set"),
    ("fn @(v: Pin<&mut CxxVector<X>>) { for x in v { let r: Pin<&mut X> = x; } }", "oset", "oset"),
    ("fn @(v: Pin<&mut CxxVector<X>>) { for x in v { let r: &mut X = x.get_mut(); } }", "oset", "set"),
    ("fn @(mut v: Pin<&mut CxxVector<X>>) { let a = v.as_mut().index_mut(0); let b = v.as_mut().index_mut(1); drop(a); drop(b); }", "oset", ""),
    ("fn @(mut v: Pin<&mut CxxVector<X>>) { let a = v.get(0); let b = v.as_mut().index_mut(1); drop(a); }", "oset", ""),
    ("fn @(mut v: Pin<&mut CxxVector<X>>) { let a = v.iter(); let b = v.as_mut().index_mut(1); drop(a); }", "oset", ""),
    ("fn @(mut v: UniquePtr<CxxVector<X>>) { let a = v.pin_mut().index_mut(0); drop(v); drop(a); }", "oset", ""),
    ("fn @(v: &CxxVector<X>) -> &'static [X] { v.as_slice() }", "oset", ""),
    ("fn @(v: &CxxVector<X>) -> &[X] { v.as_slice() }", "oset", "set"),
    ("fn @(v: Pin<&mut CxxVector<X>>) -> &mut [X] { v.as_mut_slice() }", "oset", "set"),
    ("fn @(v: Pin<&mut CxxVector<X>>, x: X) { v.push(x) }", "oset", "set"),
    ("fn @(v: Pin<&mut CxxVector<X>>) -> Option<X> { v.pop() }", "oset", "set"),
    ("fn @(v: CxxVector<X>) {}", "oset", "oset"),
    ("fn @() -> X { X { _private: unsafe { std::mem::zeroed() } } }", "ocv", ""),
    ("impl Unpin for X {}", "oO", ""),
    ("impl Drop for X { fn drop(&mut self) {} }", "s", ""),
    ("impl X { fn a@(&self) {} }", "oOset", "oOset"),
    ("unsafe impl Send for X {}", "oO", "oO"),
    ("impl Send for X {}", "oO", ""),
    ("impl Clone for X { fn clone(&self) -> Self { todo!() } }", "oOs", "oOs"),
    ("fn @() { let x: X = Default::default(); }", "oO", ""),
    ("fn @(p: &X) -> X { Clone::clone(p) }", "oOscv", ""),
    ("fn @(p: &X) -> X { *p }", "oOscv", ""),
    ("fn @(p: &X) -> X { *p }", "e", "e"),
    ("fn @(p: *const X) -> &'static X { &*p }", "oOset", ""),
    ("fn @(s: &str) { cxx::let_cxx_string!(x = s); let r: Pin<&mut CxxString> = x.as_mut(); }", "c", "c"),
    ("fn @(s: &str) -> Pin<&'static mut CxxString> { cxx::let_cxx_string!(x = s); x }", "c", ""),
    ("fn @(s: Pin<&mut CxxString>) { s.push_str(\"x\") }", "c", "c"),
    ("fn @(s: &CxxString) { s.push_str(\"x\") }", "c", ""),
    ("fn @(s: &CxxString) -> &'static [u8] { s.as_bytes() }", "c", ""),
    ("fn @(s: &CxxString) -> &str { s.to_str().unwrap() }", "c", "c"),
    ("fn @(s: Pin<&mut CxxString>) { s.reserve(3) }", "c", "c"),
    ("struct Z@; unsafe impl cxx::ExternType for Z@ { type Id = cxx::type_id!(\"Z\"); type Kind = cxx::kind::Trivial; }", "o", "o"),
    ("struct Z@; impl cxx::ExternType for Z@ { type Id = cxx::type_id!(\"Z\"); type Kind = cxx::kind::Trivial; }", "o", ""),
    ("fn @(x: &X) where X: cxx::memory::UniquePtrTarget {}", "oset", "oset"),
    ("struct Y@; fn y@(x: UniquePtr<Y@>) { x.is_null(); }", "o", ""),
    ("fn y@(x: UniquePtr<R>) { x.is_null(); }", "o", ""),
    ("fn y@(x: SharedPtr<R>) { x.is_null(); }", "o", ""),
    ("fn y@(x: &CxxVector<R>) { x.len(); }", "o", ""),
    ("fn @(x: X) { match x { ffi::E::A => {} ffi::E::B => {} } }", "e", ""),
    ("fn @(x: X) { match x { ffi::E::A => {} ffi::E::B => {} _ => {} } }", "e", "e"),
    ("fn @() { std::thread::spawn(|| { let p: UniquePtr<X> = UniquePtr::null(); }); }", "os", "os"),
    ("fn @(p: UniquePtr<X>) { std::thread::spawn(move || { p.is_null(); }); }", "ost", "st"),
    ("fn @(p: SharedPtr<X>) { std::thread::spawn(move || { p.is_null(); }); }", "ost", "st"),
    ("fn @(p: &'static X) { std::thread::spawn(move || { let q = p; }); }", "osetcv", "setcv"),
];

fn escapes(s: &mut Src) -> Result<(), String> {
    let mut groups = Vec::new();
    let mut chosen: Vec<(String, bool)> = Vec::new();
    let mut global: BTreeSet<&str> = BTreeSet::new();
    let mut early = None;
    for k in 0..s.urange(2, 30) {
        let (snip, kinds, sound) = *s.pick(SNIPPETS);
        let kind = *s.pick(&kinds.chars().collect::<Vec<_>>());
        // Impls which hold for the crate as a whole change what else is sound.
        if snip.starts_with("impl") || snip.starts_with("unsafe impl") || snip.contains("_private") {
            if early.is_some() || k > 0 { continue; }
            early = Some(());
            global.insert(snip);
        }
        let x = match kind { 'o' => "T", 'O' => if snip.contains("impl") { "C<'_>" } else { "C<'static>" }, 's' => "S", 'e' => "E", 't' => "Ali", 'c' => "CxxString", _ => "CxxVector<u8>" };
        let text = snip.replace("CxxVector<X>", &format!("CxxVector<{x}>")).replace('@', &format!("z{k}"));
        let mut out = String::new();
        let chars: Vec<char> = text.chars().collect();
        for (i, c) in chars.iter().enumerate() {
            let word = |c: Option<&char>| c.is_some_and(|c| c.is_alphanumeric() || *c == '_');
            if *c == 'X' && !word(chars.get(i + 1)) && !(i > 0 && word(chars.get(i - 1))) { out += x; } else { out.push(*c); }
        }
        if kind == 'O' && out.starts_with("fn ") {
            let (sig, body) = out.split_once('{').unwrap();
            let sig = if sig.contains("<'q>") { sig.to_owned() } else { sig.replacen('(', "<'q>(", 1) };
            out = format!("{}{{{body}", sig.replace("&mut C<", "&'q mut C<").replace("&C<", "&'q C<").replace("&UniquePtr", "&'q UniquePtr").replace("&WeakPtr", "&'q WeakPtr"));
        }
        chosen.push((out, sound.contains(kind)));
        if early.is_some() { break; }
    }
    let mut f = File::new();
    f.line("#![allow(warnings)]\nuse cxx::{UniquePtr, SharedPtr, WeakPtr, CxxVector, CxxString};\nuse std::pin::Pin;\nuse ffi::{T, S, C, E};\n#[repr(C)] pub struct Ali(u8);\nunsafe impl cxx::ExternType for Ali { type Id = cxx::type_id!(\"Ali\"); type Kind = cxx::kind::Trivial; }\npub struct R(u8);");
    f.line("#[cxx::bridge]\npub mod ffi {");
    let body = "    struct S { a: u8 }\n    enum E { A, B }\n    unsafe extern \"C++\" { type T; type C<'c>; }\n    unsafe extern \"C++\" { type Ali = super::Ali; }\n    extern \"Rust\" { type R; }\n    impl<'c> UniquePtr<C<'c>> {}\n    impl<'c> SharedPtr<C<'c>> {}\n    impl<'c> WeakPtr<C<'c>> {}";
    let first = f.lines + 1;
    f.line(body);
    for w in ["UniquePtr", "SharedPtr", "WeakPtr", "CxxVector"] { for t in ["T", "S", "E", "Ali"] { f.line(&format!("    impl {w}<{t}> {{}}")); } }
    let last = f.lines;
    f.line("}");
    for (t, ok) in &chosen {
        let l = f.line(t);
        let mut at = vec![l];
        // What the bridge itself asserts is reported there.
        if early.is_some() { at.extend(first..=last); }
        groups.push((at, *ok, t.clone()));
    }
    f.line("fn main() {}");
    compare(s, &f.text, &groups)
}
