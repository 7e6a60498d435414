//! C19: generated code depends on what the bridge says and on nothing else.
use crate::mutate::{join, lex, Tok};
use crate::prog::{self, Dir};
use crate::robust::{headers, base_bridge, library, mutated};
use bgen::render::Text;
use pbt::{Entry, Prop, Src};
use std::process::Command;

pub fn entry() -> Entry {
    Entry {
        id: "C19",
        rule: "A case is a random bridge generated repeatedly (in one process and in others), with its whitespace, plain comments and surroundings rewritten, or with its items distributed differently over extern blocks; non-trivial when the bridge is accepted and, for rewritings, the source text really differs. Distinct by source text.",
        assumptions: &["Bridges of up to a few dozen items.", "For regrouped extern blocks the lines of output are compared as a multiset, without namespace braces and blank lines."],
        props: vec![
            Prop { name: "repeat", quick: 4000, thorough: 200_000, f: repeat },
            Prop { name: "processes", quick: 1500, thorough: 40_000, f: processes },
            Prop { name: "rewrite", quick: 12_000, thorough: 400_000, f: rewrite },
            Prop { name: "regroup", quick: 5000, thorough: 300_000, f: regroup },
        ],
    }
}

type Answer = Result<(Vec<u8>, Vec<u8>), String>;

fn answer(text: &str) -> Option<Answer> {
    library(text).map(|r| r.map_err(|e| e.to_string()))
}

fn differ(what: &str, a: &Answer, b: &Answer) -> Result<(), String> {
    if a == b {
        return Ok(());
    }
    let show = |x: &Answer, k: usize| match x {
        Ok((h, c)) => String::from_utf8_lossy(if k == 0 { h } else { c }).into_owned(),
        Err(e) => format!("error: {e}"),
    };
    for k in 0..2 {
        let (x, y) = (show(a, k), show(b, k));
        if x != y {
            let l = x.lines().zip(y.lines()).find(|(p, q)| p != q);
            return Err(format!("{what}: {} differs: {:?}", ["header", "implementation"][k], l));
        }
    }
    Err(format!("{what}: the answers differ"))
}

/// A bridge with enough names to make any unordered traversal visible.
fn wide(s: &mut Src) -> Text {
    let mut t = base_bridge(s);
    if s.coin() {
        let mut p = bgen::gen::Profile::calls();
        p.structs = (2, 8);
        p.enums = (1, 4);
        p.rusts = (2, 5);
        p.cxxs = (2, 5);
        p.fns = (8, 30);
        p.namespaces = s.coin();
        p.derives = true;
        t = Text::new(bgen::gen::bridge(s, &p), "0", 1);
    }
    t
}

fn repeat(s: &mut Src) -> Result<(), String> {
    let text = if s.chance(1, 4) { mutated(s) } else { { let h = headers(s); wide(s).bridge(&h) } };
    s.key(text.as_bytes());
    s.note(|| text.clone());
    let Some(first) = answer(&text) else { return Ok(()) };
    if first.is_ok() {
        s.nontrivial();
    }
    // Something else in between leaves no trace.
    let other = { let h = headers(s); base_bridge(s).bridge(&h) };
    for _ in 0..3 {
        differ("generated again", &first, &answer(&text).unwrap())?;
        let _ = answer(&other);
    }
    differ("generated after another bridge", &first, &answer(&text).unwrap())
}

fn processes(s: &mut Src) -> Result<(), String> {
    let text = { let h = headers(s); wide(s).bridge(&h) };
    s.key(text.as_bytes());
    s.note(|| text.clone());
    let Some(lib) = answer(&text) else { return Ok(()) };
    if lib.is_ok() {
        s.nontrivial();
    }
    let dir = Dir::new();
    for (i, (k, sub)) in [("--header", "a/in.rs"), ("", "b b/in.rs"), ("--header", "a/c/other.rs")].iter().enumerate() {
        // Another directory, file name and environment each time.
        dir.put(sub, &text);
        let mut cmd = Command::new(prog::target().join("debug/cxxbridge"));
        cmd.env("NO_COLOR", "1").env("SOMETHING", i.to_string()).arg(sub).current_dir(&dir.0);
        if !k.is_empty() { cmd.arg(k); }
        let o = cmd.output().unwrap();
        if !o.status.success() {
            if lib.is_ok() {
                return Err(format!("another process rejects: {}", String::from_utf8_lossy(&o.stderr)));
            }
            continue;
        }
        let Ok((h, c)) = &lib else { return Err("another process accepts".to_owned()) };
        if &o.stdout != if k.is_empty() { c } else { h } {
            return Err(format!("another process generates something else ({k} {sub})"));
        }
    }
    Ok(())
}

fn space(s: &mut Src) -> String {
    let mut t = String::new();
    for _ in 0..s.urange(1, 3) {
        t += *s.pick(&[" ", "  ", "\t", "\n", "\n\n", "\r\n", "\n    ", " /* x */ ", "/**/", "/* a\n b */", " // y\n", "//\n", "// \"q\n", "/* /* n */ */", "//// not a doc\n", "/*** not a doc */", "/* 'a { */", "\n// fn z(); #[cfg(x)]\n", "/* */"]);
    }
    t
}

fn rewrite(s: &mut Src) -> Result<(), String> {
    let text = if s.chance(1, 5) { mutated(s) } else { { let h = headers(s); base_bridge(s).bridge(&h) } };
    let Some(a) = answer(&text) else { return Ok(()) };
    let mut out = Vec::new();
    let toks = lex(&text);
    let mut prev_doc = false;
    for (i, t) in toks.iter().enumerate() {
        if t.space {
            // A comment's newline is needed; so is whatever separates two words.
            let keep = s.chance(1, 2) || t.text.starts_with("//") || prev_doc;
            let new = if keep { t.text.clone() } else if s.coin() { " ".to_owned() } else { space(s) + " " };
            let new = if t.text.starts_with("/*") || t.text.starts_with("//") { if s.coin() { t.text.clone() } else if t.text.starts_with("//") { "// z".to_owned() } else { " ".to_owned() } } else { new };
            out.push(Tok { text: new, space: true });
            prev_doc = t.text.starts_with("//");
            continue;
        }
        let solid = |x: &str| ["{", "}", "(", ")", ";", ","].contains(&x);
        if i > 0 && !prev_doc && (solid(&t.text) || solid(&toks[i - 1].text)) && s.chance(1, 6) {
            out.push(Tok { text: space(s), space: true });
        }
        out.push(t.clone());
        prev_doc = t.text.starts_with("//");
    }
    let mut text2 = join(&out);
    if a.is_ok() {
        let pre = ["", "", "fn before() {}\n", "use std::fmt;\n", "mod other { struct Zz { a: u8 } extern \"C\" { fn f(); } }\n", "#![allow(dead_code)]\n", "//! about\n", "macro_rules! m { () => { #[cxx::bridge] mod x {} } }\n", "const X: &str = \"#[cxx::bridge] mod ffi {}\";\n"];
        let post = ["", "", "\nfn after() { let x = 1; }\n", "\nimpl Foo for Bar { fn f(&self) {} }\n", "\n// the end", "\n#[cfg(test)] mod tests { use super::*; }\n", "\nstruct Zy<'a, T: 'a>(&'a T);\n", "\nstatic S: [u8; 2] = *b\"x\\n\";"];
        let (p, q) = (*s.pick(&pre), *s.pick(&post));
        // The file's own documentation and attributes stay in front.
        let inner = text2.trim_start().starts_with("#!") || text2.trim_start().starts_with("//!") || text2.trim_start().starts_with("/*!") || text2.starts_with('\u{feff}');
        if !inner {
            if s.chance(1, 4) {
                text2 = format!("pub mod outer {{\n use super::*;\n{text2}\n}}");
            }
            text2 = format!("{p}{text2}");
        }
        text2 += q;
    }
    s.key(text2.as_bytes());
    s.note(|| format!("--- original\n{text}\n--- rewritten\n{text2}"));
    let Some(b) = answer(&text2) else {
        return Err("HARNESS: the rewritten text does not lex".to_owned());
    };
    match (&a, &b) {
        // Positions are part of some messages.
        (Err(x), Err(y)) if x.lines().next() == y.lines().next() => return Ok(()),
        _ => {}
    }
    if a.is_ok() && text != text2 {
        s.nontrivial();
    }
    differ("after rewriting", &a, &b)
}

fn lines(x: &[u8]) -> Vec<String> {
    let t = String::from_utf8_lossy(x);
    let t = plain_symbols(&t);
    let mut v: Vec<String> = t.lines().map(str::trim_end).filter(|l| !l.is_empty() && !l.starts_with("namespace ") && !l.starts_with("} // namespace") && !l.starts_with("inline namespace") && *l != "extern \"C\" {" && *l != "} // extern \"C\"").map(|l| l.split(" to be used as ").next().unwrap().to_owned()).collect();
    v.sort();
    v
}

fn regroup(s: &mut Src) -> Result<(), String> {
    let a = wide(s);
    let mut b = a.b.clone();
    b.layout = s.below(1 << 32);
    b.reuse_blocks = s.coin();
    let b = Text::new(b, "0", 1);
    let (t, u) = (a.bridge("impl.h"), b.bridge("impl.h"));
    s.key(u.as_bytes());
    s.note(|| format!("--- one\n{t}\n--- other\n{u}"));
    let (x, y) = (answer(&t).unwrap(), answer(&u).unwrap());
    let (x, y) = match (x, y) {
        (Ok(x), Ok(y)) => (x, y),
        (Err(e), _) | (_, Err(e)) => return Err(format!("rejected in one grouping: {e}")),
    };
    if t != u {
        s.nontrivial();
    }
    for (k, (p, q)) in [(x.0, y.0), (x.1, y.1)].iter().enumerate() {
        let (p, q) = (lines(p), lines(q));
        if p != q {
            let only: Vec<&String> = p.iter().filter(|l| !q.contains(l)).take(2).collect();
            let more: Vec<&String> = q.iter().filter(|l| !p.contains(l)).take(2).collect();
            return Err(format!("the {} differs by more than order: {only:?} became {more:?} ({} and {} lines)", ["header", "implementation"][k], p.len(), q.len()));
        }
    }
    Ok(())
}

/// A namespace given to a block, rather than to each item of it, becomes part of
/// the symbols of its methods: symbols without what precedes `cxxbridge1$`.
fn plain_symbols(t: &str) -> String {
    let mut out = String::new();
    let mut word = String::new();
    for c in t.chars().chain(['\n']) {
        if c.is_alphanumeric() || c == '_' || c == '$' {
            word.push(c);
            continue;
        }
        out += match word.find("cxxbridge1$") { Some(i) => &word[i..], None => &word };
        word.clear();
        out.push(c);
    }
    out
}
