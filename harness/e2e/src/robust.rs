//! C20: the generator answers every text.
use crate::mutate::{join, lex, nested, soup, step};
use crate::prog::{self, Dir};
use bgen::gen::{bridge, Profile};
use bgen::render::Text;
use pbt::{gen_bytes, gen_char, Entry, Prop, Src};
use std::fs;
use std::io::Write;
use std::process::{Command, Stdio};

pub fn entry() -> Entry {
    Entry {
        id: "C20",
        rule: "A case is a source text made by mutating, splicing or nesting bridge source at token and byte level, given to the library and to the cxxbridge command; non-trivial when the text contains a bridge attribute and reaches the bridge parser (it lexes). positions: errors planted in known places among lines of arbitrary text must be reported there, each once, in order; non-trivial when something before an error on its line is not ASCII.",
        assumptions: &["Texts up to a few kB with nesting up to depth 60.", "Library and command must agree on acceptance and on the bytes generated."],
        props: vec![
            Prop { name: "texts", quick: 30_000, thorough: 900_000, f: texts },
            Prop { name: "bytes", quick: 6000, thorough: 150_000, f: bytes },
            Prop { name: "positions", quick: 5000, thorough: 150_000, f: positions },
        ],
    }
}

/// What the command line assumes about cfgs it was told nothing about.
pub struct NoFlags;
impl cxx_gen::CfgEvaluator for NoFlags {
    fn eval(&self, name: &str, value: Option<&str>) -> cxx_gen::CfgResult {
        if name == "feature" && value.is_some() {
            cxx_gen::CfgResult::False
        } else {
            cxx_gen::CfgResult::Undetermined { msg: format!("unknown {name}") }
        }
    }
}

pub fn opt() -> cxx_gen::Opt {
    let mut o = cxx_gen::Opt::default();
    o.cfg_evaluator = Box::new(NoFlags);
    o
}

pub fn base_bridge(s: &mut Src) -> Text {
    let mut p = Profile::calls();
    p.structs = (0, 3);
    p.enums = (0, 2);
    p.rusts = (0, 2);
    p.cxxs = (0, 2);
    p.fns = (0, 8);
    p.fields = (1, 3);
    p.noise = s.coin();
    p.fancy = s.chance(1, 3);
    p.namespaces = s.chance(1, 3);
    p.derives = s.coin();
    p.external = s.chance(1, 4);
    p.lifetimes = s.chance(1, 3);
    let b = bridge(s, &p);
    Text::new(b, "0", 1)
}

/// What a bridge includes: one to several headers, also twice.
pub fn headers(s: &mut Src) -> String {
    let mut v = vec!["impl.h"];
    for _ in 0..s.weighted(&[3, 2, 1, 1, 1, 1]) {
        v.push(*s.pick(&["a.h", "lib/b.h", "rust/cxx.h", "impl.h", "z/../y.hpp", "<vector>", "<map>", "<a.h>", "no-ext", "d.h", "e.h"]));
    }
    v.join(" ")
}

pub fn mutated(s: &mut Src) -> String {
    let mut text = match s.weighted(&[6, 3, 1]) {
        0 => { let h = headers(s); base_bridge(s).bridge(&h) },
        1 => soup(s),
        _ => nested(s),
    };
    let k = s.weighted(&[1, 3, 2, 2, 1, 1]);
    let mut t = lex(&text);
    for _ in 0..k {
        step(s, &mut t);
    }
    text = join(&t);
    if s.chance(1, 8) {
        // Something else around it.
        let pre = *s.pick(&["#!/usr/bin/env x\n", "#![allow(x)]\n", "\u{feff}", "//! d\n", "fn main() {}\n", "é\r\n", "\r\n\r\n", "#!", "#![x]#!", "mod a; use b::c;\n"]);
        text.insert_str(0, pre);
    }
    text
}

fn texts(s: &mut Src) -> Result<(), String> {
    let text = mutated(s);
    let header = s.coin();
    check(s, text.as_bytes(), header, s_mode(text.len()))
}

fn s_mode(n: usize) -> u8 {
    (n % 3) as u8
}

fn bytes(s: &mut Src) -> Result<(), String> {
    let mut b = mutated(s).into_bytes();
    for _ in 0..s.urange(1, 4) {
        let at = s.us(b.len() + 1);
        match s.below(5) {
            0 => b.truncate(at),
            1 => { let x = gen_bytes(s, 6); b.splice(at..at, x); }
            2 => { if at < b.len() { b[at] = s.below(256) as u8; } }
            3 => { let mut x = [0; 4]; let c = gen_char(s).encode_utf8(&mut x).as_bytes().to_vec(); b.splice(at..at, c); }
            _ => { if at < b.len() { b.remove(at); } }
        }
    }
    let header = s.coin();
    let n = b.len();
    check(s, &b, header, s_mode(n))
}

pub fn library(text: &str) -> Option<Result<(Vec<u8>, Vec<u8>), cxx_gen::Error>> {
    let tokens: prog::cxx_gen_tokens::TokenStream = text.parse().ok()?;
    Some(cxx_gen::generate_header_and_cc(tokens, &opt()).map(|g| (g.header, g.implementation)))
}

/// How the output is asked for: 0 stdout, 1 a file, 2 input from stdin.
fn check(s: &mut Src, bytes: &[u8], header: bool, mode: u8) -> Result<(), String> {
    s.key(bytes);
    s.note(|| String::from_utf8_lossy(bytes).into_owned());
    let text = std::str::from_utf8(bytes).ok();
    let lib = text.and_then(library);
    if text.map_or(false, |t| t.contains("bridge")) && lib.is_some() {
        s.nontrivial();
    }
    if let Some(Err(e)) = &lib {
        if e.to_string().is_empty() {
            return Err("an error without a message".to_owned());
        }
        let _ = format!("{e:?}");
    }
    let dir = Dir::new();
    let input = dir.0.join("input.rs");
    fs::write(&input, bytes).unwrap();
    let out = dir.0.join("out");
    let mut cmd = Command::new(prog::target().join("debug/cxxbridge"));
    cmd.env("NO_COLOR", "1").current_dir(&dir.0).stdout(Stdio::piped()).stderr(Stdio::piped()).stdin(Stdio::null());
    if mode == 2 { cmd.arg("-").stdin(Stdio::piped()); } else { cmd.arg("input.rs"); }
    if header { cmd.arg("--header"); }
    if mode == 1 { cmd.args(["-o", "out"]); }
    let mut child = cmd.spawn().unwrap();
    if mode == 2 {
        let mut stdin = child.stdin.take().unwrap();
        let b = bytes.to_vec();
        std::thread::spawn(move || { let _ = stdin.write_all(&b); });
    }
    let o = child.wait_with_output().unwrap();
    let err = String::from_utf8_lossy(&o.stderr).into_owned();
    let written = fs::read(&out).ok();
    let got = if mode == 1 { written.clone() } else { Some(o.stdout.clone()) };
    match o.status.code() {
        Some(0) => {
            if got.as_deref().map_or(true, <[u8]>::is_empty) {
                return Err("the command succeeded without output".to_owned());
            }
        }
        Some(1) => {
            if written.is_some() || !o.stdout.is_empty() {
                return Err(format!("the command failed but wrote output: {err}"));
            }
            if !(err.contains("error[cxxbridge]: ") || err.contains("cxxbridge: ")) {
                return Err(format!("the command failed without a message: {err:?}"));
            }
        }
        c => return Err(format!("the command ended with {c:?}/{:?}: {}", o.status, err.lines().take(4).collect::<Vec<_>>().join(" | "))),
    }
    if err.contains("panicked at") {
        return Err(format!("the command panicked: {err}"));
    }
    // A shebang is only known to the command.
    if text.map_or(false, |t| t.starts_with("#!")) {
        return Ok(());
    }
    match &lib {
        None if o.status.success() => Err("the command accepts a text which does not lex".to_owned()),
        None => Ok(()),
        Some(Ok((h, c))) => {
            if !o.status.success() {
                return Err(format!("the library accepts, the command fails: {err}"));
            }
            if got.as_deref() != Some(if header { h } else { c }) {
                return Err("library and command generate different code".to_owned());
            }
            Ok(())
        }
        Some(Err(e)) => {
            if o.status.success() {
                return Err(format!("the library rejects ({e}), the command accepts"));
            }
            let first = e.to_string();
            let line = first.lines().next().unwrap_or("");
            if !err.contains(line) && !line.starts_with("unknown") && !line.starts_with("no #[cxx") {
                return Err(format!("the command does not report {line:?}: {err}"));
            }
            if e.span().is_some() && !err.contains("input.rs:") && !err.contains("stdin:") {
                return Err(format!("the command reports no position: {err}"));
            }
            Ok(())
        }
    }
}

/// Something between two tokens.
fn trivia(s: &mut Src) -> String {
    let mut t = String::from(" ");
    for _ in 0..s.weighted(&[3, 3, 1]) {
        let body = |s: &mut Src| -> String {
            let n = s.below(8);
            (0..n).map(|_| gen_char(s)).filter(|c| !"*/\r\n".contains(*c)).collect()
        };
        t += &match s.below(8) {
            0 => "\n".to_owned(),
            1 => "\r\n\t".to_owned(),
            2 => format!("//  {}\n", body(s)),
            3 => format!("/* {}\n{} */", body(s), body(s)),
            _ => format!("/* {} */ ", body(s)),
        };
    }
    t
}

fn positions(s: &mut Src) -> Result<(), String> {
    let mut text = String::new();
    if s.coin() { text += &{ let h = headers(s); base_bridge(s).bridge(&h) }; }
    let mut marks = Vec::new();
    let n = s.urange(1, 4);
    text += &trivia(s);
    text += "#[cxx::bridge]";
    text += &trivia(s);
    text += "mod zz {";
    for k in 0..n {
        let name = format!("Zno{k}");
        let before = *s.pick(&["extern \"Rust\" { fn @(", "unsafe extern \"C++\" { #[doc = \"é\"] fn @(x: u8, y: &", "struct S@ { x: ", "extern \"Rust\" { fn @(x: &str) -> Box<", "extern \"Rust\" { #[doc = r\"ю\n\"] fn @(x: Vec<"]);
        let after = if before.ends_with('<') { ">" } else { "" };
        let method = before.ends_with("fn @(");
        text += &trivia(s);
        text += &before.replace('@', &format!("z{k}"));
        text += &trivia(s);
        if method { text += "x:"; text += &trivia(s); }
        let at = text.len();
        let line_start = text[..at].rfind('\n').map_or(0, |i| i + 1);
        if !text[line_start..].is_ascii() { s.nontrivial(); }
        let plain = format!("unsupported type: {name}");
        marks.push((plain, text[..at].matches('\n').count() + 1, text[line_start..].chars().count() + 1));
        text += &name;
        text += after;
        text += &trivia(s);
        text += match before { b if b.starts_with("struct") => "}", b if b.contains("->") => ";}", _ => ");}" };
    }
    text += "}\n";
    s.key(text.as_bytes());
    s.note(|| text.clone());
    let Some(lib) = library(&text) else { return Err("does not lex".to_owned()) };
    let Err(e) = lib else { return Err("accepted".to_owned()) };
    let mut seen: Vec<(String, usize, usize)> = e.into_iter().filter_map(|e| e.span().map(|p| (e.to_string(), p.start().line, p.start().column + 1))).collect();
    seen.sort_by_key(|x| (x.1, x.2));
    if seen != marks {
        return Err(format!("the library reports {seen:?}, planted: {marks:?}"));
    }
    let dir = Dir::new();
    dir.put("input.rs", &text);
    let o = Command::new(prog::target().join("debug/cxxbridge")).env("NO_COLOR", "1").current_dir(&dir.0).arg("input.rs").stdin(Stdio::null()).output().unwrap();
    let err = String::from_utf8_lossy(&o.stderr).into_owned();
    if o.status.code() != Some(1) || err.contains("panicked at") {
        return Err(format!("the command ended with {:?}: {}", o.status, err.lines().take(4).collect::<Vec<_>>().join(" | ")));
    }
    let mut rest = &err[..];
    for (message, line, column) in &marks {
        let Some(i) = rest.find(message.as_str()) else { return Err(format!("the command does not report {message:?} in order: {err}")) };
        rest = &rest[i..];
        let want = format!("input.rs:{line}:{column}");
        let Some(i) = rest.find("input.rs:") else { return Err(format!("the command gives no position for {message:?}: {err}")) };
        let got = rest[i..].lines().next().unwrap_or("").trim_end();
        if got != want {
            return Err(format!("{message:?} reported at {got}, it is at {want}: {err}"));
        }
        rest = &rest[i..];
    }
    if err.matches("error[cxxbridge]").count() != marks.len() {
        return Err(format!("the command reports other errors too: {err}"));
    }
    Ok(())
}
