//! C17: the macro (run by rustc) and the generator (as a library) on the same
//! bridges: acceptance, and the symbols of what both accept.
use crate::mutate::{join, lex, step};
use crate::prog::{self, Dir};
use crate::robust::{base_bridge, headers};
use crate::unsound::{insert, BAD_ANYWHERE, ITEMS, SCAFFOLD};
use bgen::gen::{bridge, Profile};
use bgen::render::Text;
use pbt::{Entry, Prop, Src};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;

pub fn entry() -> Entry {
    Entry {
        id: "C17",
        rule: "A case is a batch of bridge modules (random accepted ones, ones with planted unsound constructs, ones mutated at token level), expanded by the real macro under rustc and given to the generator. Non-trivial when some bridge is accepted with at least one symbol or rejected by both for its meaning; distinct by text.",
        assumptions: &["Texts that rustc's own parser refuses are not bridge modules. Invalid lifetime names and other errors which the macro leaves to rustc count as rejected when rustc rejects them.", "Bridges with cfg are C23's.", "Attributes of the bridge module itself are only looked at by the macro."],
        props: vec![
            Prop { name: "valid", quick: 220, thorough: 6000, f: valid },
            Prop { name: "planted", quick: 350, thorough: 9000, f: planted },
            Prop { name: "mutated", quick: 450, thorough: 12_000, f: mutated },
        ],
    }
}

fn rich(s: &mut Src) -> String {
    let mut p = Profile::calls();
    p.structs = (0, 4);
    p.enums = (0, 2);
    p.rusts = (0, 3);
    p.cxxs = (0, 3);
    p.fns = (0, 14);
    p.fields = (1, 4);
    p.noise = s.coin();
    p.fancy = s.coin();
    p.namespaces = s.coin();
    p.derives = s.coin();
    p.external = s.chance(1, 3);
    p.lifetimes = s.coin();
    p.recursion = s.coin();
    { let h = headers(s); Text::new(bridge(s, &p), "0", 1).bridge(&h) }
}

fn valid(s: &mut Src) -> Result<(), String> {
    let n = s.urange(1, 16);
    let v: Vec<(String, Option<bool>)> = (0..n).map(|_| (rich(s), Some(true))).collect();
    batch(s, &v)
}

fn planted(s: &mut Src) -> Result<(), String> {
    let n = s.urange(1, 24);
    let mut v = Vec::new();
    for _ in 0..n {
        let base = { let h = headers(s); base_bridge(s).bridge(&h) };
        let m = insert(s, &base, SCAFFOLD);
        let what = if s.coin() {
            let (bad, good) = ITEMS[s.us(ITEMS.len())];
            (if s.chance(2, 3) { bad } else { good }).to_owned()
        } else {
            let t = *s.pick(BAD_ANYWHERE);
            match s.below(5) {
                0 => format!("struct Zn {{ a: {t} }}"),
                1 => format!("extern \"Rust\" {{ unsafe fn zf(x: {t}); }}"),
                2 => format!("unsafe extern \"C++\" {{ unsafe fn zf(x: u8, y: {t}) -> Result<()>; }}"),
                3 => format!("unsafe extern \"C++\" {{ unsafe fn zf() -> {t}; }}"),
                _ => format!("unsafe extern \"C++\" {{ fn zf(x: fn({t})); }}"),
            }
        };
        v.push((insert(s, &m, &what), None));
    }
    batch(s, &v)
}

fn mutated(s: &mut Src) -> Result<(), String> {
    let n = s.urange(1, 24);
    let mut v = Vec::new();
    for _ in 0..n {
        let mut t = lex(&{ let h = headers(s); base_bridge(s).bridge(&h) });
        for _ in 0..s.urange(1, 3) { step(s, &mut t); }
        v.push((join(&t), None));
    }
    batch(s, &v)
}

/// Symbols named in C++ text: true when defined there.
fn symbols(cc: &str) -> BTreeMap<String, bool> {
    let mut out: BTreeMap<String, bool> = BTreeMap::new();
    let mut rest = cc;
    while let Some(at) = rest.find("cxxbridge1$") {
        let word = |c: char| c.is_alphanumeric() || c == '_' || c == '$';
        let at = rest[..at].rfind(|c: char| !word(c)).map_or(0, |i| i + rest[i..].chars().next().unwrap().len_utf8());
        let t = &rest[at..];
        let end = t.find(|c: char| !word(c)).unwrap_or(t.len());
        let defined = defines(&t[end..]);
        *out.entry(t[..end].to_owned()).or_default() |= defined;
        rest = &t[end..];
    }
    out
}

/// Whether what follows a name is the rest of a function definition.
fn defines(t: &str) -> bool {
    if !t.starts_with('(') { return false; }
    let mut depth = 0;
    for (i, c) in t.char_indices() {
        match c {
            '(' => depth += 1,
            ')' => {
                depth -= 1;
                if depth == 0 {
                    let after = t[i + 1..].trim_start();
                    let after = after.strip_prefix("noexcept").unwrap_or(after).trim_start();
                    return after.starts_with('{');
                }
            }
            _ => {}
        }
    }
    false
}

pub struct Seen {
    pub errors: Vec<(String, String)>,
    link: BTreeSet<String>,
    export: BTreeSet<String>,
}

fn strings_after<'a>(line: &'a str, key: &str) -> Vec<&'a str> {
    line.match_indices(key).filter_map(|(i, _)| line[i + key.len()..].trim_start().strip_prefix('=')?.trim_start().strip_prefix('"')?.split('"').next()).collect()
}

fn errors_of(stderr: &str, n: usize) -> Vec<Vec<(String, String)>> {
    let mut out = vec![Vec::new(); n];
    for l in stderr.lines() {
        let Some(k) = l.strip_prefix('m').and_then(|l| l.split_once(".rs:")).and_then(|x| x.0.parse::<usize>().ok()) else { continue };
        let Some(at) = l.find(": error") else { continue };
        let t = &l[at + 7..];
        let (code, msg) = match t.strip_prefix('[') { Some(t) => t.split_once("]: ").unwrap_or(("", t)), None => ("", t.trim_start_matches(": ")) };
        if k < n { out[k].push((code.to_owned(), msg.to_owned())); }
    }
    out
}

pub fn expand(dir: &Dir, texts: &[String]) -> Result<Vec<Seen>, String> {
    let mut main = String::from("#![allow(warnings)]\n");
    for (i, t) in texts.iter().enumerate() {
        dir.put(&format!("m{i}.rs"), t);
        let _ = writeln!(main, "mod m{i};");
    }
    main += "fn main() {}\n";
    dir.put("main.rs", &main);
    let o = prog::rustc(&dir.0, &["-Zunpretty=expanded", "--error-format=short"]);
    let stderr = String::from_utf8_lossy(&o.stderr);
    if stderr.contains("internal compiler error") || o.status.code().is_none() || o.status.code() == Some(124) {
        return Err(format!("rustc: {}", prog::errors(&o, &["error"])));
    }
    let mut seen: Vec<Seen> = errors_of(&stderr, texts.len()).into_iter().map(|errors| Seen { errors, link: BTreeSet::new(), export: BTreeSet::new() }).collect();
    let out = String::from_utf8_lossy(&o.stdout);
    for part in out.split("\nmod m").skip(1) {
        let Some(k) = part.split(|c: char| !c.is_ascii_digit()).next().and_then(|k| k.parse::<usize>().ok()).filter(|k| *k < texts.len()) else { continue };
        seen[k].link.extend(strings_after(part, "link_name").into_iter().map(str::to_owned));
        seen[k].export.extend(strings_after(part, "export_name").into_iter().map(str::to_owned));
    }
    Ok(seen)
}

fn batch(s: &mut Src, v: &[(String, Option<bool>)]) -> Result<(), String> {
    // Unbalanced texts stop rustc altogether.
    let v: Vec<&(String, Option<bool>)> = v.iter().filter(|x| !x.0.contains("cfg") && x.0.parse::<prog::cxx_gen_tokens::TokenStream>().is_ok()).collect();
    let texts: Vec<String> = v.iter().map(|x| x.0.clone()).collect();
    s.key(texts.concat().as_bytes());
    if texts.is_empty() { return Ok(()); }
    let seen = expand(&Dir::new(), &texts)?;
    for (i, (text, expect)) in v.iter().enumerate() {
        let mut r = one(s, text, *expect, &seen[i]);
        // On its own: another text may have stopped rustc early.
        if r.is_err() && texts.len() > 1 {
            let alone = expand(&Dir::new(), std::slice::from_ref(text))?;
            r = one(s, text, *expect, &alone[0]);
        }
        if let Err(e) = r {
            s.note(|| text.clone());
            return Err(e);
        }
    }
    Ok(())
}

/// What rustc itself says of the text as a file.
fn parses(text: &str) -> bool {
    let dir = Dir::new();
    dir.put("main.rs", text);
    prog::rustc(&dir.0, &["-Zunpretty=normal", "--error-format=short"]).status.success()
}

/// The errors of the text as an ordinary module.
fn without_macro(text: &str) -> BTreeSet<String> {
    let Some(at) = text.find("#[cxx") else { return BTreeSet::new() };
    let Some(end) = text[at..].find(']') else { return BTreeSet::new() };
    // An `include!` which fails would stop rustc early.
    let plain = format!("macro_rules! nothing {{ ($($t:tt)*) => {{}} }}\n{}{}", &text[..at], &text[at + end + 1..]).replace("include!", "nothing!").replace("include !", "nothing!");
    match expand(&Dir::new(), &[plain]) {
        Ok(seen) => seen[0].errors.iter().map(|e| e.1.clone()).collect(),
        Err(_) => BTreeSet::new(),
    }
}

fn one(s: &mut Src, text: &str, expect: Option<bool>, m: &Seen) -> Result<(), String> {
    let by_macro: Vec<&(String, String)> = m.errors.iter().filter(|e| e.0.is_empty()).collect();
    match &prog::generate(text) {
        Ok(g) => {
            if let Some(e) = by_macro.first() {
                // What rustc says of the text also without the macro is its own.
                if expect.is_none() && (!parses(text) || { let own = without_macro(text); by_macro.iter().all(|e| own.contains(&e.1) || e.1.starts_with("couldn't read") || e.1.starts_with("expected identifier, found keyword")) }) { return Ok(()); }
                // So is what stands around the module.
                if expect.is_none() && text.split_once("#[cxx").map_or(false, |x| x.0.contains("include")) { return Ok(()); }
                // The generator leaves attributes of the module to the macro.
                let on_module = text.split_once("mod ").map_or(false, |x| x.0.matches('#').count() > 1);
                if expect.is_none() && on_module && by_macro.iter().all(|e| e.1 == "unsupported attribute" || e.1.starts_with("cannot find attribute")) { return Ok(()); }
                return Err(format!("the generator accepts what the macro rejects: {}", e.1));
            }
            let cc = symbols(&(g.header.clone() + &g.implementation));
            let defined: BTreeSet<String> = cc.iter().filter(|x| *x.1).map(|x| x.0.clone()).collect();
            let used: BTreeSet<String> = cc.iter().filter(|x| !*x.1).map(|x| x.0.clone()).collect();
            if m.link != defined {
                return Err(format!("symbols used by Rust and defined by C++ differ: {:?}", m.link.symmetric_difference(&defined).collect::<Vec<_>>()));
            }
            if m.export != used {
                return Err(format!("symbols defined by Rust and used by C++ differ: {:?}", m.export.symmetric_difference(&used).collect::<Vec<_>>()));
            }
            if !cc.is_empty() { s.nontrivial(); }
        }
        Err(e) => {
            if e.contains("no #[cxx::bridge] module found") { return Ok(()); }
            if expect == Some(true) { return Err(format!("a generated bridge is rejected: {e}")); }
            let rejected = !by_macro.is_empty() || m.errors.iter().any(|e| ["E0262", "E0263", "E0403", "E0261"].contains(&e.0.as_str()) || e.1.starts_with("malformed"));
            if !rejected && (expect.is_some() || parses(text)) { return Err(format!("the macro accepts what the generator rejects: {e}")); }
            s.nontrivial();
        }
    }
    Ok(())
}
