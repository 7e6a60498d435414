//! C24: the cxxbridge command against a model of its arguments.
use crate::prog::{self, Dir};
use crate::robust::{base_bridge, headers};
use cxx_gen::CfgResult;
use pbt::{Entry, Prop, Src};
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::io::Write;
use std::os::unix::ffi::OsStringExt;
use std::path::PathBuf;
use std::process::{Command, Stdio};

pub fn entry() -> Entry {
    Entry {
        id: "C24",
        rule: "A case is one invocation of cxxbridge in a scratch directory: a random bridge (or broken input), a random list of arguments in random order and spelling, and files already at the output paths; stdout, exit status and the whole directory are compared with a model which asks the library for the code. Non-trivial when there is more than one option; distinct by arguments and input.",
        assumptions: &["When some output cannot be written the others may or may not be."],
        props: vec![Prop { name: "invocations", quick: 6000, thorough: 200_000, f: invocations }],
    }
}

struct Flags(BTreeMap<String, (BTreeSet<bool>, BTreeSet<String>)>);
impl cxx_gen::CfgEvaluator for Flags {
    fn eval(&self, name: &str, value: Option<&str>) -> CfgResult {
        let known = self.0.get(name);
        let to = |b: bool| if b { CfgResult::True } else { CfgResult::False };
        match value {
            Some(v) => match known {
                Some(k) => to(k.1.contains(v)),
                None if name == "feature" => CfgResult::False,
                None => CfgResult::Undetermined { msg: name.to_owned() },
            },
            None => match known.and_then(|k| k.0.iter().next()) {
                Some(b) => to(*b),
                None => CfgResult::Undetermined { msg: name.to_owned() },
            },
        }
    }
}

fn bridge_text(s: &mut Src) -> String {
    let mut t = { let h = headers(s); base_bridge(s).bridge(&h) };
    for _ in 0..s.weighted(&[2, 2, 1]) {
        let pred = *s.pick(&["aa", "bb", "feature = \"x\"", "feature = \"y\"", "kk = \"v\"", "kk = \"w=\\\"q\\\"\"", "unix"]);
        let e = match s.below(4) { 0 | 1 => pred.to_owned(), 2 => format!("not({pred})"), _ => format!("any({pred}, {})", s.pick(&["aa", "feature = \"z\""])) };
        let k = s.below(1000);
        let item = format!("    #[cfg({e})]\n    struct Zc{k} {{ a: u8 }}\n}}");
        if let Some(at) = t.rfind('}') { t.replace_range(at..=at, &item); }
    }
    t
}

enum Out { Stdout, File(PathBuf) }

fn invocations(s: &mut Src) -> Result<(), String> {
    let dir = Dir::new();
    let mut args: Vec<Vec<Vec<u8>>> = Vec::new();
    let mut invalid = false;
    // Input.
    let kind = s.weighted(&[12, 3, 1, 1, 1, 1, 2]);
    let mut text: Vec<u8> = bridge_text(s).into_bytes();
    match kind {
        3 => text = s.pick(&[&b"struct S {}"[..], b"#[cxx::bridge] mod ffi { struct S {} }", b"#[cxx::bridge] mod ffi { extern \"Rust\" { fn f(x: Q); } }", b"#[cxx::bridge] mod ffi {", b"", b"#[cxx::bridge] mod ffi;"]).to_vec(),
        4 => { let at = s.us(text.len()); text[at] = 0xff; }
        5 => { text.truncate(text.len() / 2); }
        _ => {}
    }
    let input = *s.pick(&["input.rs", "in put.rs", "src/lib.rs", "./input.rs", "input", "-x.rs", "input.h"]);
    let (mut has_input, mut stdin) = (true, false);
    match kind {
        1 => { stdin = true; args.push(vec![b"-".to_vec()]); }
        2 => { invalid = true; args.push(vec![b"missing.rs".to_vec()]); }
        6 => has_input = false,
        _ => {
            let real = dir.0.join(input);
            fs::create_dir_all(real.parent().unwrap()).unwrap();
            fs::write(&real, &text).unwrap();
            args.push(vec![if input.starts_with('-') { format!("./{input}").into_bytes() } else { input.as_bytes().to_vec() }]);
        }
    }
    // Options with values are spelled in several ways.
    let spell = |s: &mut Src, long: &str, short: Option<&str>, v: &[u8]| -> Vec<Vec<u8>> {
        let cat = |a: &str, v: &[u8]| { let mut x = a.as_bytes().to_vec(); x.extend_from_slice(v); x };
        match (s.below(4), short) {
            (0, _) | (2.., None) => vec![long.as_bytes().to_vec(), v.to_vec()],
            (1, _) => vec![cat(&format!("{long}="), v)],
            (2, Some(sh)) => vec![sh.as_bytes().to_vec(), v.to_vec()],
            (_, Some(sh)) => vec![cat(sh, v)],
        }
    };
    let mut header = s.chance(1, 3);
    if header { args.push(vec![b"--header".to_vec()]); }
    if !has_input && !header { if s.coin() { header = true; args.push(vec![b"--header".to_vec()]); } else { invalid = true; } }
    let mut lib = cxx_gen::Opt::default();
    lib.include.clear();
    // Outputs.
    let mut outs: Vec<Out> = Vec::new();
    let mut unwritable = false;
    let mut list: Vec<(Vec<Vec<u8>>, u8)> = Vec::new();
    let names: &[&[u8]] = &[b"out.cc", b"out.h", b"out.hh", b"out.hpp", b"out.H", b"out.h.cc", b"outh", b".h", b"h", b"sub/out.h", b"sub/out.cc", b"-", b"out", b"out.hpp2", b"out.cpp.h", b"dir.h/out.cc", b"o\xff.h", b"\xe9\xff.cc", b"with space.h", b"out.hxx", b"./-.h", b"dash-"];
    for _ in 0..s.weighted(&[3, 4, 3, 1, 1]) {
        let n: Vec<u8> = if s.chance(1, 14) { unwritable = true; s.pick(&[&b"nodir/out.h"[..], b"sub", b"input.rs/x", b"sub/"]).to_vec() } else { s.pick(names).to_vec() };
        outs.push(if n == b"-" { Out::Stdout } else { Out::File(PathBuf::from(std::ffi::OsString::from_vec(n.clone()))) });
        list.push((spell(s, "--output", Some("-o"), &n), b'o'));
    }
    // Includes.
    for _ in 0..s.weighted(&[4, 2, 1, 1]) {
        let v = *s.pick(&["x.h", "rust/cxx.h", "<vector>", "a b.h", "<", ">", "<>", "<x", "x>", "a\"b.h", "back\\slash.h", "é.h", "<sys/é.h>", "", " ", "<a>b>"]);
        // -i with nothing attached takes the next argument.
        let sp = if v.is_empty() { vec![b"--include".to_vec(), Vec::new()] } else { spell(s, "--include", Some("-i"), v.as_bytes()) };
        let bracketed = v.len() >= 2 && v.starts_with('<') && v.ends_with('>');
        lib.include.push(cxx_gen::Include { path: if bracketed { v[1..v.len() - 1].to_owned() } else { v.to_owned() }, kind: if bracketed { cxx_gen::IncludeKind::Bracketed } else { cxx_gen::IncludeKind::Quoted } });
        list.push((sp, b'i'));
    }
    if s.chance(1, 3) {
        let v = *s.pick(&["EXPORT", "__attribute__((visibility(\"default\")))", "a b", "[[x]]", "é"]);
        lib.cxx_impl_annotations = Some(v.to_owned());
        list.push((spell(s, "--cxx-impl-annotations", None, v.as_bytes()), b'a'));
    }
    // Facts.
    let mut facts = Flags(BTreeMap::new());
    for _ in 0..s.weighted(&[3, 3, 2, 1, 1]) {
        let name = *s.pick(&["aa", "bb", "feature", "kk", "unix"]);
        let v = match s.below(7) {
            0 => { facts.0.entry(name.to_owned()).or_default().0.insert(true); name.to_owned() }
            1 => { facts.0.entry(name.to_owned()).or_default().0.insert(true); format!("{name}=true") }
            2 => { facts.0.entry(name.to_owned()).or_default().0.insert(false); format!("{name} = false") }
            3..=5 => {
                let x = *s.pick(&["x", "y", "v", "w=\"q\"", "", "true", "é"]);
                facts.0.entry(name.to_owned()).or_default().1.insert(x.to_owned());
                match s.below(3) { 0 => format!("{name}={x:?}"), 1 => format!(" {name} = {x:?} "), _ => format!("{name}=r#\"{x}\"#") }
            }
            _ if s.chance(1, 4) => { invalid = true; (*s.pick(&["", "=", "a=", "a=1", "a=b", "a=\"x", "1=true", "a b", "a=true b", "a::b", "\"a\"", "a=b\"x\"", "a='x'"])).to_owned() }
            _ => { facts.0.entry(name.to_owned()).or_default().0.insert(true); format!("{name}=true") }
        };
        list.push((spell(s, "--cfg", None, v.as_bytes()), b'c'));
    }
    if facts.0.values().any(|f| f.0.len() > 1) { invalid = true; }
    lib.cfg_evaluator = Box::new(facts);
    // What clap refuses.
    if s.chance(1, 12) {
        invalid = true;
        let bad: Vec<Vec<u8>> = match s.below(7) {
            0 => vec![b"--nonsense".to_vec()],
            1 => { if header { vec![b"--header".to_vec()] } else { vec![b"--head=1".to_vec()] } }
            2 if has_input => vec![b"another.rs".to_vec()],
            3 => vec![b"--cxx-impl-annotations".to_vec(), b"a".to_vec(), b"--cxx-impl-annotations".to_vec(), b"b".to_vec()],
            4 => vec![b"--header=true".to_vec()],
            5 => vec![b"-z".to_vec()],
            _ => vec![b"--cfg".to_vec(), b"\xff".to_vec()],
        };
        args.push(bad);
    }
    // The order of outputs and includes among themselves matters, no other.
    let mut rest: Vec<(Vec<Vec<u8>>, u8)> = list;
    let mut queue: Vec<Vec<Vec<u8>>> = Vec::new();
    while !rest.is_empty() {
        let k = s.us(rest.len());
        let class = rest[k].1;
        let first = rest.iter().position(|x| x.1 == class).unwrap();
        queue.push(rest.remove(first).0);
    }
    for a in args { let at = s.us(queue.len() + 1); queue.insert(at, a); }
    let argv: Vec<Vec<u8>> = queue.into_iter().flatten().collect();
    let shown = argv.iter().map(|a| format!("{:?}", String::from_utf8_lossy(a))).collect::<Vec<_>>().join(" ");
    if argv.len() > 2 { s.nontrivial(); }
    s.key(shown.as_bytes());
    s.key(&text);
    s.note(|| format!("cxxbridge {shown}\n{}", String::from_utf8_lossy(&text)));
    // The model.
    let code: Option<Result<(Vec<u8>, Vec<u8>), String>> = if invalid { None } else if !has_input { Some(Ok((cxx_gen::HEADER.as_bytes().to_vec(), cxx_gen::HEADER.as_bytes().to_vec()))) } else {
        Some(String::from_utf8(text.clone()).map_err(|e| e.to_string()).and_then(|t| {
            let tokens: prog::cxx_gen_tokens::TokenStream = t.parse().map_err(|_| "lex".to_owned())?;
            cxx_gen::generate_header_and_cc(tokens, &lib).map(|g| (g.header, g.implementation)).map_err(|e| e.to_string())
        }))
    };
    // What is there already.
    fs::create_dir_all(dir.0.join("sub")).unwrap();
    fs::create_dir_all(dir.0.join("dir.h")).unwrap();
    fs::write(dir.0.join("bystander.h"), "mine").unwrap();
    if !dir.0.join("input.rs").exists() { fs::write(dir.0.join("input.rs"), "// here\n").unwrap(); }
    for o in &outs {
        if let Out::File(p) = o {
            match s.below(9) {
                0 => { let _ = fs::write(dir.0.join(p), "stale ".repeat(s.us(4000))); }
                3 => {
                    // Nearly what will be written: the same size, or the other output.
                    if let Some(Ok((h, c))) = &code {
                        let n = p.as_os_str().as_encoded_bytes();
                        let is_header = header || n.ends_with(b".h") || n.ends_with(b".hh") || n.ends_with(b".hpp");
                        let (mut x, y) = if is_header { (h.clone(), c) } else { (c.clone(), h) };
                        match s.below(5) {
                            0 => { let at = s.us(x.len()); x[at] ^= 1; }
                            1 => { let at = s.us(x.len()); x.truncate(at); }
                            2 => x.extend_from_slice(b"\n"),
                            3 => x = y.clone(),
                            _ => {}
                        }
                        let _ = fs::write(dir.0.join(p), x);
                    }
                }
                1 => { let _ = fs::write(dir.0.join(p), ""); }
                2 => { let _ = fs::write(dir.0.join("linked"), "old"); let _ = std::os::unix::fs::symlink(dir.0.join("linked"), dir.0.join(p)); }
                _ => {}
            }
        }
    }
    let before = tree(&dir);
    let mut cmd = Command::new(prog::target().join("debug/cxxbridge"));
    cmd.env("NO_COLOR", "1").current_dir(&dir.0).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
    cmd.args(argv.iter().map(|a| std::ffi::OsString::from_vec(a.clone())));
    let mut child = cmd.spawn().unwrap();
    let mut pipe = child.stdin.take().unwrap();
    let b = text.clone();
    std::thread::spawn(move || { if stdin { let _ = pipe.write_all(&b); } });
    let o = child.wait_with_output().unwrap();
    let err = String::from_utf8_lossy(&o.stderr).into_owned();
    let after = tree(&dir);
    if err.contains("panicked at") || o.status.code().is_none() { return Err(format!("panicked: {err}")); }
    let (h, c) = match code {
        Some(Ok(x)) => x,
        other => {
            let why = match other { Some(Err(e)) => e, _ => "invocation".to_owned() };
            if o.status.success() { return Err(format!("succeeds, but should be refused ({why})")); }
            if err.trim().is_empty() { return Err("refused without a message".to_owned()); }
            if !o.stdout.is_empty() { return Err("refused, but wrote to stdout".to_owned()); }
            if before != after { return Err(format!("refused, but files changed: {err}")); }
            return Ok(());
        }
    };
    if outs.is_empty() { outs.push(Out::Stdout); }
    let mut want_stdout: Vec<u8> = Vec::new();
    let mut want = before.clone();
    for out in &outs {
        match out {
            Out::Stdout => want_stdout.extend(if header { &h } else { &c }),
            Out::File(p) => {
                let n = p.as_os_str().as_encoded_bytes();
                let is_header = header || n.ends_with(b".h") || n.ends_with(b".hh") || n.ends_with(b".hpp");
                let content = if is_header { h.clone() } else { c.clone() };
                let mut at = dir.0.join(p);
                if let Ok(l) = at.canonicalize() { at = l; }
                want.insert(at, Some(content));
            }
        }
    }
    if unwritable {
        if o.status.success() { return Err("succeeds although an output cannot be written".to_owned()); }
        if err.trim().is_empty() { return Err("fails without a message".to_owned()); }
        for (p, v) in &after {
            if before.get(p) != Some(v) && want.get(p) != Some(v) { return Err(format!("{} has neither its old nor its new content", p.display())); }
        }
        return Ok(());
    }
    if !o.status.success() { return Err(format!("fails: {err}")); }
    if o.stdout != want_stdout { return Err(format!("stdout has {} bytes, expected {}", o.stdout.len(), want_stdout.len())); }
    if after != want {
        let p = after.keys().chain(want.keys()).find(|k| after.get(*k) != want.get(*k)).unwrap();
        return Err(format!("{}: {}", p.strip_prefix(&dir.0).unwrap_or(p).display(), if !after.contains_key(p) { "not written" } else if !want.contains_key(p) { "not asked for" } else { "other content" }));
    }
    Ok(())
}

/// Regular files with their content, directories, links by target.
fn tree(dir: &Dir) -> BTreeMap<PathBuf, Option<Vec<u8>>> {
    fn walk(p: &std::path::Path, out: &mut BTreeMap<PathBuf, Option<Vec<u8>>>) {
        for e in fs::read_dir(p).unwrap().flatten() {
            let t = e.file_type().unwrap();
            if t.is_dir() { out.insert(e.path(), None); walk(&e.path(), out); } else if t.is_symlink() { out.insert(e.path(), Some(format!("-> {:?}", fs::read_link(e.path()).unwrap()).into_bytes())); } else { out.insert(e.path(), Some(fs::read(e.path()).unwrap())); }
        }
    }
    let mut out = BTreeMap::new();
    walk(&dir.0, &mut out);
    out
}
