//! C28: documentation written on the items of a bridge is the documentation of
//! the same entities in C++ and in Rust.
use crate::prog::cxx_gen_tokens::{Delimiter, TokenStream, TokenTree};
use crate::prog::{self, Dir, Generated};
use pbt::{gen_text, Entry, Prop, Src};
use std::collections::BTreeMap;
use std::fmt::Write;

pub fn entry() -> Entry {
    Entry {
        id: "C28",
        rule: "A case is a bridge whose items (structs, fields, enums, variants, types, functions, methods of either language) carry random documentation in random forms (///, /** */, #[doc = ...], several of them, between other attributes). Non-trivial when at least two items are documented and one is not; distinct by text.",
        assumptions: &["Lines are as str::lines divides them, and a carriage return also ends a line. A line that would end in a backslash or its trigraph may be followed by slashes."],
        props: vec![
            Prop { name: "header", quick: 12_000, thorough: 300_000, f: header },
            Prop { name: "built", quick: 1200, thorough: 30_000, f: built },
            Prop { name: "compiled", quick: 120, thorough: 4_000, f: compiled },
            Prop { name: "expanded", quick: 240, thorough: 6_000, f: expanded },
        ],
    }
}

/// One item: its name on both sides and its documentation.
struct Item { cxx: Option<String>, rust: Option<String>, lines: Option<Vec<String>> }

struct Made { text: String, plain: String, items: Vec<Item> }

struct Maker<'a> { s: &'a mut Src, n: u32, items: Vec<Item>, doc: String, plain: String }

fn line(s: &mut Src) -> String {
    let mut t = match s.below(10) {
        0 => String::new(),
        1 => " ".to_owned(),
        2 => gen_text(s, 12),
        _ => {
            let n = s.urange(1, 5);
            (0..n).map(|_| (*s.pick(&[" a word", " /* ", " */", "\\", "//", "/", " \\ ", "??/", "\"", "'", " #define X", "{", "}", "`x`", "\t", " é", "R\"(", " @brief", " \\brief", "*", "!", "  ", "%s{}"])).to_owned()).collect::<String>()
        }
    };
    t.retain(|c| !matches!(c, '\n' | '\r' | '\0'));
    t
}

impl Maker<'_> {
    fn name(&mut self, kind: &str) -> String {
        self.n += 1;
        format!("{kind}{}", self.n)
    }
    /// Documentation, other attributes around it, and what it says.
    fn docs(&mut self, indent: &str, attr: &str) -> Option<Vec<String>> {
        let s = &mut *self.s;
        let mut lines: Option<Vec<String>> = None;
        let parts = s.weighted(&[3, 5, 2, 1]);
        let at = s.us(parts + 1);
        let mut put = |doc: &mut String, plain: &mut String, here: bool| {
            if here && !attr.is_empty() { for t in [doc, plain] { let _ = writeln!(t, "{indent}{attr}"); } }
        };
        put(&mut self.doc, &mut self.plain, at == 0);
        for k in 0..parts {
            let value: String = match s.below(6) {
                0 | 1 | 2 => {
                    // `////` is no documentation.
                    let mut t = line(s);
                    if t.starts_with('/') { t.insert(0, ' '); }
                    let _ = writeln!(self.doc, "{indent}///{t}");
                    t
                }
                3 => {
                    let n = s.urange(1, 3);
                    let mut t = (0..n).map(|_| line(s).replace('*', "+").replace('/', "|")).collect::<Vec<_>>().join("\n");
                    // `/**/` and `/***` are none either.
                    t.insert(0, ' ');
                    let _ = writeln!(self.doc, "{indent}/**{t}*/");
                    t
                }
                4 => {
                    let n = s.urange(1, 3);
                    let eol = *s.pick(&["\n", "\n", "\r\n", "\r"]);
                    let t = (0..n).map(|_| line(s)).collect::<Vec<_>>().join(eol);
                    let _ = writeln!(self.doc, "{indent}#[doc = {t:?}]");
                    t
                }
                _ => {
                    let t = line(s).replace("\"#", "'#");
                    let t = if t.ends_with('"') { t + "." } else { t };
                    let _ = writeln!(self.doc, "{indent}#[doc = r#\"{t}\"#]");
                    t
                }
            };
            let all = lines.get_or_insert_with(Vec::new);
            for l in format!("{value}\n").lines() { all.extend(l.split('\r').map(str::to_owned)); }
            put(&mut self.doc, &mut self.plain, at == k + 1);
        }
        lines
    }
    fn both(&mut self, t: &str) {
        self.doc += t;
        self.plain += t;
    }
    fn item(&mut self, cxx: bool, rust: bool, name: &str, cxx_name: Option<&str>, lines: Option<Vec<String>>) {
        self.items.push(Item { cxx: cxx.then(|| cxx_name.unwrap_or(name).to_owned()), rust: rust.then(|| name.to_owned()), lines });
    }
}

fn make(s: &mut Src) -> Made {
    let head = if s.coin() { "#[cxx::bridge]" } else { "#[cxx::bridge(namespace = \"a::b\")]" };
    let mut m = Maker { s, n: 0, items: Vec::new(), doc: String::new(), plain: String::new() };
    let d = m.docs("", head);
    m.item(false, true, "ffi", None, d);
    m.both("mod ffi {\n");
    let mut structs: Vec<String> = Vec::new();
    for _ in 0..m.s.urange(1, 5) {
        match m.s.below(4) {
            0 | 1 => {
                let name = m.name("Struct");
                let attr = *m.s.pick(&["", "", "#[derive(Clone)]", "#[derive(PartialEq, Debug)]"]);
                let d = m.docs("    ", attr);
                m.item(true, true, &name, None, d);
                m.both(&format!("    struct {name} {{\n"));
                for _ in 0..m.s.urange(1, 4) {
                    let f = m.name("field");
                    let renamed = m.s.chance(1, 6).then(|| format!("{f}_in_cxx"));
                    let attr = renamed.as_ref().map_or(String::new(), |r| format!("#[cxx_name = \"{r}\"]"));
                    let d = m.docs("        ", &attr);
                    m.item(true, true, &f, renamed.as_deref(), d);
                    let ty = *m.s.pick(&["u8", "String", "bool", "f64", "Vec<u8>", "UniquePtr<CxxString>"]);
                    let ty = if attr_needs_plain(&m.doc) { "u32" } else { ty };
                    m.both(&format!("        {f}: {ty},\n"));
                }
                m.both("    }\n");
                structs.push(name);
            }
            2 => {
                let name = m.name("Enum");
                let attr = *m.s.pick(&["", "#[repr(u8)]", "#[derive(Hash)]"]);
                let d = m.docs("    ", attr);
                m.item(true, true, &name, None, d);
                m.both(&format!("    enum {name} {{\n"));
                for _ in 0..m.s.urange(1, 4) {
                    let v = m.name("Variant");
                    let d = m.docs("        ", "");
                    m.item(true, true, &v, None, d);
                    m.both(&format!("        {v},\n"));
                }
                m.both("    }\n");
            }
            _ => {
                let rust = m.s.coin();
                let alias = !rust && m.s.chance(1, 4);
                m.both(if rust { "    extern \"Rust\" {\n" } else { "    unsafe extern \"C++\" {\n" });
                let name = m.name("Type");
                let d = m.docs("        ", "");
                m.item(rust, !rust, &name, None, d);
                m.both(&if alias { format!("        type {name} = super::{name};\n") } else { format!("        type {name};\n") });
                for _ in 0..m.s.us(4) {
                    let f = m.name("function");
                    let renamed = m.s.chance(1, 5).then(|| format!("{f}_in_cxx"));
                    let attr = renamed.as_ref().map_or(String::new(), |r| format!("#[cxx_name = \"{r}\"]"));
                    let (attr, sig) = match m.s.below(4) {
                        0 => (attr, "()".to_owned()),
                        1 => (attr, format!("(self: &{name}, a: u8) -> String")),
                        2 => (attr, format!("(self: {}, b: &str)", if rust { format!("&mut {name}") } else { format!("Pin<&mut {name}>") })),
                        _ if rust && !structs.is_empty() => (attr, format!("(self: &{}) -> usize", m.s.pick(&structs))),
                        _ => (attr, "(x: i32) -> Result<bool>".to_owned()),
                    };
                    let d = m.docs("        ", &attr);
                    m.item(rust, !rust, &f, renamed.as_deref(), d);
                    m.both(&format!("        fn {f}{sig};\n"));
                }
                m.both("    }\n");
            }
        }
    }
    m.both("}\n");
    Made { text: m.doc, plain: m.plain, items: m.items }
}

/// Derives restrict the types of the fields.
fn attr_needs_plain(doc: &str) -> bool {
    doc.rfind("    struct ").is_some_and(|at| { let before = &doc[..at]; let from = before.rfind("}\n").or(before.rfind("{\n")).unwrap_or(0); before[from..].contains("#[derive(") })
}

fn words(l: &str) -> impl Iterator<Item = &str> {
    l.split(|c: char| !c.is_ascii_alphanumeric() && c != '_')
}

fn header(s: &mut Src) -> Result<(), String> {
    let m = make(s);
    s.key(m.text.as_bytes());
    s.note(|| m.text.clone());
    let documented = m.items.iter().filter(|i| i.lines.is_some()).count();
    if documented >= 2 && documented < m.items.len() { s.nontrivial(); }
    check(&m, &prog::generate(&m.text)?, &prog::generate(&m.plain)?, false)
}

/// The same as a build script writes it, which may ask for Doxygen.
fn built(s: &mut Src) -> Result<(), String> {
    let m = make(s);
    let doxygen = s.chance(3, 4);
    s.key(m.text.as_bytes());
    s.note(|| m.text.clone());
    s.nontrivial();
    let dir = Dir::new();
    let p = crate::build::Package::new(&dir.0, "pk");
    dir.put("pk/src/a.rs", &m.text);
    dir.put("pk/src/b.rs", &m.plain);
    let o = p.run(&[], &[if doxygen { "doxygen=1" } else { "prefix=pk" }, "bridges", "src/a.rs", "src/b.rs"]);
    if !o.status.success() { return Err(String::from_utf8_lossy(&o.stderr).into_owned()); }
    let read = |name: &str| -> Result<Generated, String> {
        let get = |kind: &str, ext: &str| std::fs::read_to_string(p.out().join("cxxbridge").join(kind).join(format!("pk/src/{name}.rs.{ext}"))).map_err(|e| format!("{kind} of {name}: {e}"));
        Ok(Generated { header: get("include", "h")?, implementation: get("sources", "cc")?.replace("src/b.rs", "src/a.rs") })
    };
    check(&m, &read("a")?, &read("b")?, doxygen)
}

fn check(m: &Made, g: &Generated, p: &Generated, doxygen: bool) -> Result<(), String> {
    // The code itself is the same.
    let comment = |l: &&str| l.trim_start().starts_with("//");
    let code = |t: &str| t.split('\n').filter(|l| !comment(l) && !l.trim().is_empty()).map(str::to_owned).collect::<Vec<_>>();
    for (a, b, what) in [(&g.header, &p.header, "header"), (&g.implementation, &p.implementation, "implementation")] {
        let (a, b) = (code(a), code(b));
        if a != b {
            let k = a.iter().zip(&b).take_while(|(a, b)| a == b).count();
            return Err(format!("documentation changes the code of the {what}: {:?} instead of {:?}", a.get(k), b.get(k)));
        }
    }
    // What stands in front of each declaration.
    let mut found: BTreeMap<String, Vec<Vec<String>>> = BTreeMap::new();
    let lines: Vec<&str> = g.header.split('\n').collect();
    let mut at = 0;
    while at < lines.len() {
        if !comment(&lines[at]) { at += 1; continue; }
        let from = at;
        while at < lines.len() && comment(&lines[at]) { at += 1; }
        let next = lines.get(at).copied().unwrap_or("");
        // The generator's own remarks.
        let Some(item) = words(next).find(|w| m.items.iter().any(|i| i.cxx.as_deref() == Some(w))) else { continue };
        let marker = if doxygen { "///" } else { "//" };
        let mut block = Vec::new();
        for l in &lines[from..at] {
            if l.trim_end().ends_with('\\') || l.trim_end().ends_with("??/") || l.contains('\r') { return Err(format!("a comment that continues on the next line: {l:?}")); }
            block.push(l.trim_start().strip_prefix(marker).ok_or_else(|| format!("not a {marker} comment: {l:?}"))?.to_owned());
        }
        found.entry(item.to_owned()).or_default().push(block);
    }
    for i in &m.items {
        let Some(name) = &i.cxx else { continue };
        let got = found.remove(name).unwrap_or_default();
        let Some(want) = &i.lines else {
            if !got.is_empty() { return Err(format!("{name} has no documentation, and in C++ {got:?}")); }
            continue;
        };
        let same = |g: &Vec<String>| {
            let mut g: Vec<&str> = g.iter().map(String::as_str).collect();
            // Doxygen ignores single lines.
            if doxygen && g.len() < 2 { return false; }
            if doxygen && want.len() == 1 && g.len() == 2 && g[1].is_empty() { g.pop(); }
            g.len() == want.len() && g.iter().zip(want).all(|(g, w)| {
                let open = w.trim_end().ends_with('\\') || w.trim_end().ends_with("??/");
                *g == w || open && g.strip_prefix(w.as_str()).is_some_and(|rest| rest.chars().all(|c| c == ' ' || c == '/'))
            })
        };
        if got.len() != 1 || !same(&got[0]) { return Err(format!("{name} is documented in C++ by {got:?}, expected {want:?}")); }
    }
    Ok(())
}

fn compiled(s: &mut Src) -> Result<(), String> {
    let m = make(s);
    s.key(m.text.as_bytes());
    s.note(|| m.text.clone());
    s.nontrivial();
    let h = prog::generate(&m.text)?.header;
    let dir = Dir::new();
    dir.put("bridge.h", &h);
    let mut main: String = m.items.iter().filter_map(|i| i.rust.as_ref().filter(|n| n.starts_with("Type"))).map(|n| format!("struct {n} {{}};\n")).collect();
    if m.text.contains("(namespace") { main = format!("namespace a {{ namespace b {{\n{main}}} }}\n"); }
    dir.put("main.cc", &(main + "#include \"bridge.h\"\n"));
    let (compiler, std) = (*s.pick(&["g++", "clang++"]), *s.pick(&["-std=c++11", "-std=c++17", "-std=c++20"]));
    let o = prog::run(&[compiler, std, "-fsyntax-only", "-w", "-ftrapping-math", "main.cc"], &dir.0);
    if !o.status.success() { return Err(format!("{compiler} {std}: {}", prog::errors(&o, &["error"]))); }
    Ok(())
}

/// Documentation in front of names, in tokens.
fn walk(t: TokenStream, names: &BTreeMap<String, usize>, found: &mut BTreeMap<String, Vec<Vec<String>>>) {
    let mut pending: Vec<String> = Vec::new();
    let mut it = t.into_iter().peekable();
    while let Some(t) = it.next() {
        match t {
            TokenTree::Punct(p) if p.as_char() == '#' => {
                let Some(TokenTree::Group(g)) = it.peek() else { continue };
                if g.delimiter() != Delimiter::Bracket { continue; }
                let a: Vec<TokenTree> = g.stream().into_iter().collect();
                if let [TokenTree::Ident(d), TokenTree::Punct(_), TokenTree::Literal(l)] = &a[..] {
                    if d == "doc" { if let Ok(l) = syn::parse_str::<syn::LitStr>(&l.to_string()) { pending.push(l.value()); } }
                }
                it.next();
            }
            TokenTree::Ident(i) => {
                let i = i.to_string();
                if names.contains_key(&i) && !pending.is_empty() { found.entry(i).or_default().push(std::mem::take(&mut pending)); }
                else if !["pub", "mod", "unsafe", "struct", "enum", "fn", "const", "type", "extern"].contains(&i.as_str()) { pending.clear(); }
            }
            TokenTree::Group(g) => {
                // `pub(crate)` has one, too.
                if g.delimiter() == Delimiter::Brace { pending.clear(); }
                walk(g.stream(), names, found);
            }
            TokenTree::Literal(_) => {}
            TokenTree::Punct(_) => pending.clear(),
        }
    }
}

fn expanded(s: &mut Src) -> Result<(), String> {
    let n = s.urange(1, 8);
    let made: Vec<Made> = (0..n).map(|_| make(s)).collect();
    let all: String = made.iter().map(|m| m.text.as_str()).collect();
    s.key(all.as_bytes());
    s.note(|| all.clone());
    s.nontrivial();
    let dir = Dir::new();
    let mut main = String::from("#![allow(warnings)]\n");
    for (i, m) in made.iter().enumerate() { dir.put(&format!("m{i}.rs"), &m.text); let _ = writeln!(main, "mod m{i};"); }
    dir.put("main.rs", &(main + "fn main() {}\n"));
    let o = prog::rustc(&dir.0, &["-Zunpretty=expanded", "--error-format=short"]);
    let out = String::from_utf8_lossy(&o.stdout);
    let parts: Vec<&str> = out.split("\nmod m").collect();
    for (i, m) in made.iter().enumerate() {
        let part = parts.iter().find_map(|p| p.strip_prefix(&format!("{i} "))).ok_or_else(|| format!("HARNESS: not expanded: {}", prog::errors(&o, &["error"])))?;
        let part = part.trim_start().strip_prefix('{').unwrap_or(part);
        let part = &part[..part.rfind("\n}").unwrap_or(part.len())];
        let part = if i + 1 == made.len() { part.rsplit_once("\n}").map_or(part, |x| x.0) } else { part };
        let tokens: TokenStream = part.parse().map_err(|e| format!("HARNESS: {e:?}: {part}"))?;
        let names: BTreeMap<String, usize> = m.items.iter().enumerate().filter_map(|(k, x)| Some((x.rust.clone()?, k))).collect();
        let mut found = BTreeMap::new();
        walk(tokens, &names, &mut found);
        for x in &m.items {
            let Some(name) = &x.rust else { continue };
            let got = found.remove(name).unwrap_or_default();
            // Fragments may be joined: lines count.
            let lines = |v: &Vec<String>| v.iter().flat_map(|l| format!("{l}\n").lines().flat_map(|l| l.split('\r').map(str::to_owned).collect::<Vec<_>>()).collect::<Vec<_>>()).collect::<Vec<_>>();
            let got: Vec<Vec<String>> = got.iter().map(lines).collect();
            match &x.lines {
                None if got.is_empty() => {}
                Some(w) if got.len() == 1 && got[0] == *w => {}
                w => return Err(format!("{name} is documented in Rust by {got:?}, expected {w:?}")),
            }
        }
    }
    Ok(())
}
