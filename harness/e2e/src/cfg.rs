//! C23: cfg expressions select the same items on both sides.
use crate::prog::{self, Dir};
use cxx_gen::CfgResult;
use pbt::{Entry, Prop, Src};
use std::collections::BTreeMap;
use std::fmt::Write;
use std::process::Command;

pub fn entry() -> Entry {
    Entry {
        id: "C23",
        rule: "A case is a random bridge file with cfg expressions (nested all/any/not, several attributes) on modules, blocks, items, includes, fields and variants, and a random assignment true/false/unknown to the facts; the output must be byte-equal to that of the file with the deselected text deleted, or an error when the selection depends on an unknown fact. Non-trivial when at least one item is deselected or undetermined.",
        assumptions: &["Enums with conditional variants have explicit representation and discriminants; conditional struct fields leave at least one field.", "With rustc: facts are given as --cfg flags; conditional items are those whose Rust expansion is itself conditional (functions, fields without derives, variants)."],
        props: vec![
            Prop { name: "strip", quick: 30_000, thorough: 1_000_000, f: strip },
            Prop { name: "command", quick: 1500, thorough: 40_000, f: command },
            Prop { name: "cargo", quick: 600, thorough: 15_000, f: cargo },
            Prop { name: "rustc_exprs", quick: 12, thorough: 400, f: rustc_exprs },
            Prop { name: "linked", quick: 24, thorough: 800, f: linked },
        ],
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tri { F, U, T }

#[derive(Clone, Debug)]
pub enum Expr {
    Fact(usize),
    All(Vec<Expr>),
    Any(Vec<Expr>),
    Not(Box<Expr>),
}

impl Expr {
    pub fn eval(&self, facts: &[Tri]) -> Tri {
        match self {
            Expr::Fact(k) => facts[*k],
            Expr::All(l) => {
                let v: Vec<Tri> = l.iter().map(|e| e.eval(facts)).collect();
                if v.contains(&Tri::F) { Tri::F } else if v.contains(&Tri::U) { Tri::U } else { Tri::T }
            }
            Expr::Any(l) => {
                let v: Vec<Tri> = l.iter().map(|e| e.eval(facts)).collect();
                if v.contains(&Tri::T) { Tri::T } else if v.contains(&Tri::U) { Tri::U } else { Tri::F }
            }
            Expr::Not(e) => match e.eval(facts) { Tri::T => Tri::F, Tri::F => Tri::T, Tri::U => Tri::U },
        }
    }
}

/// The facts: a name, or a name with a value.
pub const FACTS: &[(&str, Option<&str>)] = &[
    ("unix", None), ("windows", None), ("aa", None), ("r_b", None), ("feature", Some("x")), ("feature", Some("y-z")), ("feature", Some("")), ("feature", Some("all")), ("target_os", Some("linux")), ("target_os", Some("macos")), ("target_pointer_width", Some("64")), ("kk", Some("a b\"c")), ("debug_assertions", None), ("all_", None), ("not_", Some("not(x)")),
];

pub fn gen_expr(s: &mut Src, depth: u32, n: usize) -> Expr {
    match s.weighted(if depth == 0 { &[1, 0, 0, 0] } else { &[4, 2, 2, 2] }) {
        0 => Expr::Fact(s.us(n)),
        1 => Expr::All((0..s.weighted(&[1, 2, 4, 2, 1])).map(|_| gen_expr(s, depth - 1, n)).collect()),
        2 => Expr::Any((0..s.weighted(&[1, 2, 4, 2, 1])).map(|_| gen_expr(s, depth - 1, n)).collect()),
        _ => Expr::Not(Box::new(gen_expr(s, depth - 1, n))),
    }
}

pub fn show(s: &mut Src, e: &Expr, facts: &[(&str, Option<&str>)]) -> String {
    let sp = *s.pick(&["", "", " "]);
    match e {
        Expr::Fact(k) => match facts[*k] {
            (n, None) => n.to_owned(),
            (n, Some(v)) if s.chance(1, 5) && !v.contains('"') => format!("{n} = r\"{v}\""),
            (n, Some(v)) => format!("{n}{sp}={sp}{v:?}"),
        },
        Expr::All(l) | Expr::Any(l) => {
            let items: Vec<String> = l.iter().map(|e| show(s, e, facts)).collect();
            let comma = if !items.is_empty() && s.chance(1, 4) { "," } else { "" };
            format!("{}({sp}{}{comma}{sp})", if matches!(e, Expr::All(_)) { "all" } else { "any" }, items.join(", "))
        }
        Expr::Not(e) => format!("not({sp}{}{})", show(s, e, facts), if s.chance(1, 5) { "," } else { "" }),
    }
}

/// Source text with conditions.
#[derive(Clone, Debug)]
enum Part {
    Text(String),
    Cond(Vec<Expr>, Vec<Part>),
    /// An extern block: head, conditions of the block, items.
    Block(String, Vec<Expr>, Vec<Part>),
}

struct Gen<'a> {
    s: &'a mut Src,
    n: usize,
    count: u32,
    depth: u32,
}

impl Gen<'_> {
    fn id(&mut self, p: &str) -> String {
        self.count += 1;
        format!("{p}{}", self.count)
    }
    fn conds(&mut self) -> Vec<Expr> {
        let k = self.s.weighted(&[5, 5, 1, 1]);
        (0..k).map(|_| { let d = self.depth; gen_expr(self.s, d, self.n) }).collect()
    }
    fn cond(&mut self, parts: Vec<Part>) -> Part {
        let c = self.conds();
        if c.is_empty() && parts.len() == 1 { parts.into_iter().next().unwrap() } else { Part::Cond(c, parts) }
    }
    fn text(t: impl Into<String>) -> Part { Part::Text(t.into()) }
    fn ty(&mut self) -> &'static str {
        *self.s.pick(&["u8", "i64", "bool", "String", "Vec<u8>", "f32", "Base", "UniquePtr<Opq>", "Box<Rty>", "SharedPtr<Base>", "[u16; 2]", "Vec<Base>"])
    }
    fn item(&mut self) -> Part {
        match self.s.below(7) {
            0 | 1 => {
                let name = self.id("S");
                let derives = *self.s.pick(&["", "", "#[derive(Clone)] ", "#[derive(PartialEq)] ", "#[namespace = \"q\"] "]);
                let mut p = vec![Self::text(format!("{derives}pub struct {name} {{\n"))];
                let fixed = self.s.us(3);
                for i in 0..3 {
                    let f = self.id("f");
                    let ty = *self.s.pick(&["u8", "i64", "bool", "f32", "Base"]);
                    let t = Self::text(format!("pub {f}: {ty},\n"));
                    p.push(if i == fixed { t } else { self.cond(vec![t]) });
                }
                p.push(Self::text("}\n"));
                self.cond(p)
            }
            2 => {
                let name = self.id("E");
                let mut p = vec![Self::text(format!("#[repr(u16)] pub enum {name} {{\n"))];
                for i in 0..self.s.us(5) {
                    let v = self.id("V");
                    let t = Self::text(format!("{v} = {},\n", i * 10));
                    p.push(self.cond(vec![t]));
                }
                p.push(Self::text("}\n"));
                self.cond(p)
            }
            3 => {
                let t = *self.s.pick(&["impl CxxVector<Base> {}\n", "impl UniquePtr<Base> {}\n", "impl WeakPtr<Opq> {}\n", "impl Box<Base> {}\n", "impl Vec<Rty> {}\n"]);
                self.cond(vec![Self::text(t)])
            }
            k => {
                let cxx = k < 6;
                let mut items = Vec::new();
                for _ in 0..self.s.us(5) {
                    let t = match self.s.below(6) {
                        0 if cxx => { let h = self.id("h"); Self::text(format!("include!(\"{h}.h\");\n")) }
                        1 => { let t = self.id("T"); Self::text(format!("type {t};\n")) }
                        2 if cxx => { let t = self.id("A"); Self::text(format!("type {t} = crate::{t};\n")) }
                        3 => { let f = self.id("m"); let a = self.ty(); Self::text(format!("fn {f}(self: &{}, a: {a});\n", if cxx { "Opq" } else { "Rty" })) }
                        _ => {
                            let f = self.id("g");
                            let (a, r) = (self.ty(), self.ty());
                            let r = match self.s.below(3) { 0 => String::new(), 1 => format!(" -> {r}"), _ => format!(" -> Result<{r}>") };
                            Self::text(format!("fn {f}(a: {a}){r};\n"))
                        }
                    };
                    // The macro `include!` takes its block's condition.
                    let include = matches!(&t, Part::Text(x) if x.starts_with("include"));
                    items.push(if include { t } else { self.cond(vec![t]) });
                }
                let conds = self.conds();
                Part::Block(if cxx { "unsafe extern \"C++\"" } else { "extern \"Rust\"" }.to_owned(), conds, items)
            }
        }
    }
    fn module(&mut self, k: usize) -> Vec<Part> {
        let mut p = Vec::new();
        if k == 0 {
            p.push(Self::text("pub struct Base { pub z: u8 }\nunsafe extern \"C++\" { type Opq; }\nextern \"Rust\" { type Rty; }\n"));
        }
        for _ in 0..self.s.us(6) {
            let i = self.item();
            p.push(i);
        }
        p
    }
}

fn attrs(s: &mut Src, c: &[Expr], facts: &[(&str, Option<&str>)]) -> String {
    let mut t = String::new();
    for e in c {
        let x = show(s, e, facts);
        let comma = if s.chance(1, 6) { "," } else { "" };
        let _ = write!(t, "#[cfg({x}{comma})]{}", s.pick(&[" ", "\n", "", " /* c */ "]));
    }
    t
}

fn render(s: &mut Src, parts: &[Part], facts: &[(&str, Option<&str>)], out: &mut String) {
    for p in parts {
        match p {
            Part::Text(t) => *out += t,
            Part::Cond(c, inner) => {
                *out += &attrs(s, c, facts);
                render(s, inner, facts, out);
            }
            Part::Block(head, c, inner) => {
                *out += &attrs(s, c, facts);
                let _ = write!(out, "{head} {{\n");
                render(s, inner, facts, out);
                *out += "}\n";
            }
        }
    }
}

#[derive(Default)]
struct Selected {
    /// Some selection depends on an unknown fact.
    unknown: bool,
    /// ... or only a block's condition does whose items are all deselected.
    either: bool,
    dropped: u32,
}

fn all(c: &[Expr], v: &[Tri]) -> Tri {
    Expr::All(c.to_vec()).eval(v)
}

fn select(parts: &[Part], block: Tri, v: &[Tri], sel: &mut Selected, out: &mut String) {
    let and = |a: Tri, b: Tri| if a == Tri::F || b == Tri::F { Tri::F } else if a == Tri::U || b == Tri::U { Tri::U } else { Tri::T };
    for p in parts {
        let (t, inner): (Tri, &[Part]) = match p {
            Part::Text(t) => {
                match block {
                    Tri::T => *out += t,
                    Tri::F => sel.dropped += 1,
                    Tri::U => sel.unknown = true,
                }
                continue;
            }
            Part::Cond(c, inner) => (and(block, all(c, v)), inner),
            Part::Block(head, c, inner) => {
                let b = all(c, v);
                let _ = write!(out, "{head} {{\n");
                let before = sel.unknown;
                select(inner, b, v, sel, out);
                if b == Tri::U && sel.unknown == before { sel.either = true; }
                *out += "}\n";
                continue;
            }
        };
        match t {
            Tri::T => select(inner, Tri::T, v, sel, out),
            Tri::F => sel.dropped += 1,
            Tri::U => sel.unknown = true,
        }
    }
}

/// A file with conditions, the file without them, and what was selected.
fn file(s: &mut Src, facts: &[(&str, Option<&str>)], v: &[Tri]) -> (String, String, Selected) {
    let mut sel = Selected::default();
    let (mut with, mut without) = (String::new(), String::new());
    let depth = s.below(4) as u32;
    let mut count = 0;
    for k in 0..s.urange(1, 3) {
        let mut g = Gen { s: &mut *s, n: facts.len(), count, depth };
        let c = if k == 0 { Vec::new() } else { g.conds() };
        let parts = g.module(k);
        count = g.count;
        let a = attrs(s, &c, facts);
        let order = s.coin();
        let ns = *s.pick(&["", "", "(namespace = \"w\")"]);
        with += &if order { format!("{a}#[cxx::bridge{ns}]\nmod ffi{k} {{\n") } else { format!("#[cxx::bridge{ns}]\n{a}mod ffi{k} {{\n") };
        render(s, &parts, facts, &mut with);
        with += "}\n";
        match all(&c, v) {
            Tri::T => {
                without += &format!("#[cxx::bridge{ns}]\nmod ffi{k} {{\n");
                select(&parts, Tri::T, v, &mut sel, &mut without);
                without += "}\n";
            }
            Tri::F => sel.dropped += 1,
            Tri::U => sel.unknown = true,
        }
    }
    (with, without, sel)
}

struct Table(Vec<((&'static str, Option<&'static str>), Tri)>);
impl cxx_gen::CfgEvaluator for Table {
    fn eval(&self, name: &str, value: Option<&str>) -> CfgResult {
        match self.0.iter().find(|(k, _)| k.0 == name && k.1 == value) {
            Some((_, Tri::T)) => CfgResult::True,
            Some((_, Tri::F)) => CfgResult::False,
            _ => CfgResult::Undetermined { msg: format!("no idea about {name} {value:?}") },
        }
    }
}

fn assign(s: &mut Src, unknown: bool) -> Vec<Tri> {
    FACTS.iter().map(|_| match s.weighted(if unknown { &[3, 3, 1] } else { &[1, 1, 0] }) { 0 => Tri::T, 1 => Tri::F, _ => Tri::U }).collect()
}

fn strip(s: &mut Src) -> Result<(), String> {
    let unknown = s.chance(1, 3);
    let v = assign(s, unknown);
    let (with, without, sel) = file(s, FACTS, &v);
    if sel.dropped > 0 || sel.unknown { s.nontrivial(); }
    s.key(with.as_bytes());
    s.note(|| format!("{with}\n--- facts {v:?}\n--- selected\n{without}"));
    let mut opt = cxx_gen::Opt::default();
    opt.cfg_evaluator = Box::new(Table(FACTS.iter().copied().zip(v.iter().copied()).collect()));
    let got = prog::generate_with(&with, &opt);
    if sel.unknown {
        return match got {
            Ok(_) => Err("a selection that depends on an unknown fact was made silently".to_owned()),
            Err(e) if e.contains("no idea about") => Ok(()),
            Err(e) => Err(format!("the error does not report the unknown fact: {e}")),
        };
    }
    if sel.either && got.is_err() { return Ok(()); }
    let want = prog::generate_with(&without, &cxx_gen::Opt::default()).map_err(|e| format!("HARNESS: the selected text is rejected: {e}"))?;
    let got = got.map_err(|e| format!("rejected with conditions, accepted without: {e}"))?;
    same(&got.header, &want.header)?;
    same(&got.implementation, &want.implementation)
}

fn same(got: &str, want: &str) -> Result<(), String> {
    if got == want { return Ok(()); }
    let d = got.lines().zip(want.lines()).find(|(a, b)| a != b);
    Err(format!("conditions select something else: got/expected {d:?}"))
}

/// `--cfg` flags of the command.
fn command(s: &mut Src) -> Result<(), String> {
    let mut v = vec![Tri::U; FACTS.len()];
    let mut args: Vec<String> = Vec::new();
    let mut named: BTreeMap<&str, bool> = BTreeMap::new();
    for (k, (name, value)) in FACTS.iter().enumerate() {
        match value {
            None => match s.below(4) {
                0 => { args.push(s.pick(&[format!("{name}"), format!("{name}=true"), format!("{name} = true")]).clone()); v[k] = Tri::T; }
                1 | 2 => { args.push(format!("{name}=false")); v[k] = Tri::F; }
                _ => {}
            },
            Some(value) => match s.below(3) {
                0 => { args.push(format!("{name}={value:?}")); named.insert(name, true); v[k] = Tri::T; }
                1 => { args.push(format!("{name}=\"other {k}\"")); named.insert(name, true); }
                _ => {}
            },
        }
    }
    for (k, (name, value)) in FACTS.iter().enumerate() {
        if value.is_some() && v[k] == Tri::U && (named.contains_key(name) || *name == "feature") { v[k] = Tri::F; }
    }
    for i in (1..args.len()).rev() {
        let j = s.us(i + 1);
        args.swap(i, j);
    }
    let (with, without, sel) = file(s, FACTS, &v);
    if sel.dropped > 0 || sel.unknown { s.nontrivial(); }
    s.key(with.as_bytes());
    s.note(|| format!("{with}\n--- {args:?}\n--- selected\n{without}"));
    let dir = Dir::new();
    dir.put("in.rs", &with);
    let mut cmd = Command::new(prog::target().join("debug/cxxbridge"));
    cmd.env("NO_COLOR", "1").current_dir(&dir.0).arg("in.rs");
    for a in &args {
        if s.coin() { cmd.args(["--cfg", a]); } else { cmd.arg(format!("--cfg={a}")); }
    }
    let o = cmd.output().unwrap();
    let err = String::from_utf8_lossy(&o.stderr);
    if sel.unknown {
        return match o.status.code() {
            Some(1) if err.contains("--cfg") && o.stdout.is_empty() => Ok(()),
            Some(0) => Err("the command selected silently by an unknown fact".to_owned()),
            c => Err(format!("unknown fact: the command ended with {c:?}: {err}")),
        };
    }
    if sel.either && !o.status.success() { return Ok(()); }
    if !o.status.success() { return Err(format!("the command fails: {err}")); }
    let want = prog::generate_with(&without, &cxx_gen::Opt::default()).map_err(|e| format!("HARNESS: the selected text is rejected: {e}"))?;
    same(&String::from_utf8_lossy(&o.stdout), &want.implementation)
}

/// Facts as Cargo tells build scripts.
fn cargo(s: &mut Src) -> Result<(), String> {
    const FACTS: &[(&str, Option<&str>)] = &[
        ("feature", Some("x")), ("feature", Some("y-z")), ("feature", Some("a_b")), ("feature", Some("Upper")), ("feature", Some("x2")), ("unix", None), ("windows", None), ("my_flag", None), ("target_os", Some("linux")), ("target_os", Some("mac")), ("target_family", Some("unix")), ("target_family", Some("wasm")), ("target_family", Some("un")), ("target_feature", Some("sse4.2")), ("target_feature", Some("sse4")), ("kk", Some("v")), ("debug_assertions", None), ("absent", None), ("absent", Some("x")), ("test", None),
    ];
    let mut env: Vec<(String, String)> = Vec::new();
    let mut v = vec![Tri::F; FACTS.len()];
    let set = |v: &mut Vec<Tri>, n: &str, x: Option<&str>| {
        let k = FACTS.iter().position(|f| *f == (n, x)).unwrap();
        v[k] = Tri::T;
    };
    for f in ["x", "y-z", "a_b", "Upper", "x2"] {
        if s.coin() {
            env.push((format!("CARGO_FEATURE_{}", f.to_uppercase().replace('-', "_")), "1".to_owned()));
            set(&mut v, "feature", Some(f));
        }
    }
    for f in ["unix", "windows", "my_flag"] {
        if s.coin() {
            env.push((format!("CARGO_CFG_{}", f.to_uppercase()), String::new()));
            set(&mut v, f, None);
        }
    }
    for (f, vals) in [("target_os", &["linux", "mac"][..]), ("target_family", &["unix", "wasm"]), ("target_feature", &["sse4.2"]), ("kk", &["v"])] {
        let on: Vec<&str> = vals.iter().copied().filter(|_| s.coin()).collect();
        if on.is_empty() && s.coin() { continue; }
        for x in &on { set(&mut v, f, Some(x)); }
        let mut on = on;
        if s.coin() { on.insert(0, "zz"); }
        if s.coin() { on.push("sse"); }
        env.push((format!("CARGO_CFG_{}", f.to_uppercase()), on.join(",")));
    }
    // Cargo does not say; cxx_build takes its own.
    set(&mut v, "debug_assertions", None);
    v[FACTS.iter().position(|f| f.0 == "test").unwrap()] = Tri::U;
    let (with, without, sel) = file(s, FACTS, &v);
    if sel.dropped > 0 || sel.unknown { s.nontrivial(); }
    s.key(with.as_bytes());
    s.note(|| format!("{with}\n--- {env:?}\n--- selected\n{without}"));
    let dir = Dir::new();
    let p = crate::build::Package::new(&dir.0, "pk");
    dir.put("pk/src/lib.rs", &with);
    let o = p.run(&env, &["bridges", "src/lib.rs"]);
    let err = String::from_utf8_lossy(&o.stderr).into_owned();
    if sel.unknown {
        return if o.status.success() { Err("cxx_build selected silently by an unknown fact".to_owned()) } else { Ok(()) };
    }
    if sel.either && !o.status.success() { return Ok(()); }
    if !o.status.success() { return Err(format!("cxx_build fails: {err}")); }
    let want = prog::generate_with(&without, &cxx_gen::Opt::default()).map_err(|e| format!("HARNESS: the selected text is rejected: {e}"))?;
    let got = std::fs::read_to_string(p.out().join("cxxbridge/sources/pk/src/lib.rs.cc")).map_err(|e| format!("no generated source: {e}"))?;
    same(&got, &want.implementation)
}

fn flags(v: &[Tri], facts: &[(&str, Option<&str>)]) -> Vec<String> {
    let mut out = Vec::new();
    for (t, (n, x)) in v.iter().zip(facts) {
        if *t == Tri::T {
            out.push("--cfg".to_owned());
            out.push(match x { None => (*n).to_owned(), Some(x) => format!("{n}={x:?}") });
        }
    }
    out
}

/// Names that rustc does not set by itself.
const FREE: &[(&str, Option<&str>)] = &[("aa", None), ("r_b", None), ("feature", Some("x")), ("feature", Some("y-z")), ("feature", Some("all")), ("kk", Some("a b\"c")), ("kk", Some("")), ("kk", None)];

fn rustc_exprs(s: &mut Src) -> Result<(), String> {
    let v: Vec<Tri> = FREE.iter().map(|_| if s.coin() { Tri::T } else { Tri::F }).collect();
    let mut rs = String::from("#![allow(warnings)]\n");
    let mut bridge = String::from("#[cxx::bridge]\nmod ffi {\nextern \"Rust\" {\n");
    let n = 150;
    for i in 0..n {
        let d = s.below(5) as u32;
        let k = s.urange(1, 2);
        let c: Vec<Expr> = (0..k).map(|_| gen_expr(s, d, FREE.len())).collect();
        let a = attrs(s, &c, FREE);
        let _ = write!(rs, "{a}fn item_{i}() {{}}\n");
        let _ = write!(bridge, "{a}fn item_{i}();\n");
    }
    bridge += "}}\n";
    rs += "fn main() {}\n";
    s.nontrivial();
    s.key(rs.as_bytes());
    s.note(|| bridge.clone());
    let dir = Dir::new();
    dir.put("main.rs", &rs);
    let f = flags(&v, FREE);
    let mut cmd = vec!["rustc", "--edition", "2021", "-Zunpretty=expanded", "main.rs"];
    cmd.extend(f.iter().map(|x| x.as_str()));
    let o = prog::run(&cmd, &dir.0);
    if !o.status.success() { return Err(format!("HARNESS: rustc: {}", prog::errors(&o, &["error"]))); }
    let expanded = String::from_utf8_lossy(&o.stdout).into_owned();
    let mut opt = cxx_gen::Opt::default();
    struct Set(Vec<((&'static str, Option<&'static str>), Tri)>);
    impl cxx_gen::CfgEvaluator for Set {
        fn eval(&self, name: &str, value: Option<&str>) -> CfgResult {
            if self.0.iter().any(|(k, t)| k.0 == name && k.1 == value && *t == Tri::T) { CfgResult::True } else { CfgResult::False }
        }
    }
    opt.cfg_evaluator = Box::new(Set(FREE.iter().copied().zip(v).collect()));
    let g = prog::generate_with(&bridge, &opt)?;
    for i in 0..n {
        let r = expanded.contains(&format!("fn item_{i}()"));
        let c = g.implementation.contains(&format!("void item_{i}() "));
        if r != c {
            let line = bridge.lines().find(|l| l.contains(&format!("fn item_{i}()"))).unwrap_or("").to_owned();
            return Err(format!("rustc {} item_{i}, the generator {}: {line}", if r { "keeps" } else { "drops" }, if c { "keeps it" } else { "drops it" }));
        }
    }
    Ok(())
}

/// Both halves with the same facts: compiled, linked and run.
fn linked(s: &mut Src) -> Result<(), String> {
    let v: Vec<Tri> = FREE.iter().map(|_| if s.coin() { Tri::T } else { Tri::F }).collect();
    let mut e = |s: &mut Src| { let k = s.weighted(&[2, 5, 1]); (0..k).map(|_| gen_expr(s, 2, FREE.len())).collect::<Vec<Expr>>() };
    // Struct fields, enum variants, functions and methods in both directions.
    let mut fields = String::new();
    let mut sum = String::from("let mut x = ::std::vec![::std::mem::size_of::<ffi::S>() as u64, ::std::mem::align_of::<ffi::S>() as u64];");
    let mut csum = String::from("x.push_back(sizeof(S)); x.push_back(alignof(S));");
    let mut dropped = 0;
    for i in 0..s.urange(1, 6) {
        let c = e(s);
        let a = attrs(s, &c, FREE);
        let ty = *s.pick(&["u8", "u16", "u32", "u64"]);
        let keep = all(&c, &v) == Tri::T;
        let _ = write!(fields, "{a}pub f{i}: {ty},\n");
        if keep {
            let _ = write!(sum, "x.push(::std::mem::offset_of!(ffi::S, f{i}) as u64);");
            let _ = write!(csum, "x.push_back(offsetof(S, f{i}));");
        } else { dropped += 1; }
    }
    let mut variants = String::new();
    for i in 0..s.urange(1, 5) {
        let c = e(s);
        let a = attrs(s, &c, FREE);
        let _ = write!(variants, "{a}V{i} = {},\n", 3 * i + 1);
        if all(&c, &v) == Tri::T {
            let _ = write!(sum, "x.push(ffi::E::V{i}.repr as u64);");
            let _ = write!(csum, "x.push_back(static_cast<std::uint64_t>(E::V{i}));");
        } else { dropped += 1; }
    }
    let (mut cxx, mut rust, mut defs, mut cdefs, mut calls, mut ccalls) = (String::new(), String::new(), String::new(), String::new(), String::new(), String::new());
    let bc = e(s);
    let br = e(s);
    let (kc, kr) = (all(&bc, &v) == Tri::T, all(&br, &v) == Tri::T);
    for i in 0..s.urange(2, 8) {
        let c = e(s);
        let a = attrs(s, &c, FREE);
        let keep = all(&c, &v) == Tri::T;
        let method = s.chance(1, 3);
        let res = s.chance(1, 3);
        let (recv, rarg) = if method { ("self: &O, ", "o.") } else { ("", "ffi::") };
        let ret = if res { "Result<u32>" } else { "u32" };
        if s.coin() {
            let _ = write!(cxx, "{a}fn c{i}({recv}a: u32) -> {ret};\n");
            if keep && kc {
                let _ = if method { write!(cdefs, "std::uint32_t O::c{i}(std::uint32_t a) const {{ return a + {i}; }}\n") } else { write!(cdefs, "std::uint32_t c{i}(std::uint32_t a) {{ return a + {i}; }}\n") };
                let _ = write!(calls, "assert_eq!({rarg}c{i}(5){}, 5 + {i});\n", if res { ".unwrap()" } else { "" });
            } else { dropped += 1; }
        } else {
            let (recv, carg) = if method { ("self: &R, ", "r.") } else { ("", "") };
            let _ = write!(rust, "{a}fn r{i}({recv}a: u32) -> {ret};\n");
            if keep && kr {
                let ret = if res { "::std::result::Result<u32, ::std::string::String>" } else { "u32" };
                let val = if res { format!("::std::result::Result::Ok(a * {i})") } else { format!("a * {i}") };
                let _ = if method { write!(defs, "impl R {{ fn r{i}(&self, a: u32) -> {ret} {{ {val} }} }}\n") } else { write!(defs, "fn r{i}(a: u32) -> {ret} {{ {val} }}\n") };
                let _ = write!(ccalls, "ok = ok && {carg}r{i}(7) == 7u * {i};\n");
            } else { dropped += 1; }
        }
    }
    let decls: String = cdefs.lines().map(|l| {
        let sig = &l[..l.find('{').unwrap()];
        if sig.contains("O::") { String::new() } else { format!("{};\n", sig.trim()) }
    }).collect();
    let meths: String = cdefs.lines().filter(|l| l.contains("O::")).map(|l| format!("{};\n", l[..l.find('{').unwrap()].replace("O::", "").trim())).collect();
    let (ab, ar) = (attrs(s, &bc, FREE), attrs(s, &br, FREE));
    let bridge = format!("#[cxx::bridge]\npub mod ffi {{\npub struct S {{ pub always: u8,\n{fields}}}\n#[repr(u32)] pub enum E {{\n{variants}}}\nunsafe extern \"C++\" {{ include!(\"impl.h\"); type O; fn make() -> UniquePtr<O>; fn facts() -> Vec<u64>; fn check(r: &R) -> bool; }}\nextern \"Rust\" {{ type R; }}\n{ab}unsafe extern \"C++\" {{\n{cxx}}}\n{ar}extern \"Rust\" {{\n{rust}}}\n}}\n");
    let main = format!("#![allow(warnings)]\nextern crate lab;\n{bridge}\npub struct R;\n{defs}\nfn main() {{ let o = ffi::make(); let o = &*o;\n{calls}\nassert!(ffi::check(&R));\n{sum} assert_eq!(x, ffi::facts()); println!(\"done\"); }}\n");
    if dropped > 0 { s.nontrivial(); }
    s.key(bridge.as_bytes());
    s.note(|| format!("{bridge}\n--- {v:?}"));
    let impl_h = format!("#pragma once\n#include \"rust/cxx.h\"\n#include <memory>\n#include <cstdint>\nstruct R; struct S; enum class E : std::uint32_t;\nstruct O {{ int x = 0;\n{meths}}};\nstd::unique_ptr<O> make(); rust::Vec<std::uint64_t> facts(); bool check(const R &r);\n{decls}");
    let cc = format!("#include \"impl.h\"\n#include \"gen0.h\"\n#include <cstddef>\n{cdefs}\nstd::unique_ptr<O> make() {{ return std::unique_ptr<O>(new O()); }}\nrust::Vec<std::uint64_t> facts() {{ rust::Vec<std::uint64_t> x; {csum} return x; }}\nbool check(const R &r) {{ bool ok = true; {ccalls} return ok; }}\n");
    let mut opt = cxx_gen::Opt::default();
    struct Set(Vec<((&'static str, Option<&'static str>), Tri)>);
    impl cxx_gen::CfgEvaluator for Set {
        fn eval(&self, name: &str, value: Option<&str>) -> CfgResult {
            if self.0.iter().any(|(k, t)| k.0 == name && k.1 == value && *t == Tri::T) { CfgResult::True } else { CfgResult::False }
        }
    }
    opt.cfg_evaluator = Box::new(Set(FREE.iter().copied().zip(v.iter().copied()).collect()));
    let g = prog::generate_with(&bridge, &opt)?;
    let dir = Dir::new();
    dir.put("gen0.h", &g.header);
    dir.put("gen0.cc", &g.implementation);
    dir.put("impl.h", &impl_h);
    dir.put("main.cc", &cc);
    dir.put("main.rs", &main);
    prog::compile_cc(&dir.0, &["main.cc".to_owned(), "gen0.cc".to_owned()])?;
    let f = flags(&v, FREE);
    let mut args: Vec<&str> = f.iter().map(|x| x.as_str()).collect();
    args.extend(["-Clink-arg=main.o", "-Clink-arg=gen0.o", "-Clink-arg=-fuse-ld=lld", "-o", "prog"]);
    let o = prog::rustc(&dir.0, &args);
    if !o.status.success() { return Err(format!("Rust half: {}", prog::errors(&o, &["error", "undefined symbol"]))); }
    let o = prog::run(&["./prog"], &dir.0);
    if !o.status.success() || !String::from_utf8_lossy(&o.stdout).contains("done") {
        return Err(format!("run: {}", prog::errors(&o, &["panicked", "left:", "right:", "ERROR"])));
    }
    Ok(())
}
