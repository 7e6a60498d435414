//! Source text for a bridge: the module itself, what it declares in C++
//! (`impl.h`), and programs exercising it from both sides (see harness/e2e).
use crate::*;
use std::collections::BTreeSet;
use std::fmt::Write;

pub struct Text {
    pub b: Bridge,
    /// Prefix which distinguishes the modules of one program.
    pub tag: String,
    /// Number of the module's first function.
    pub base: u32,
}

pub fn raw(id: &str) -> String {
    if crate::gen::RUST_KEYWORDS.contains(&id) { format!("r#{id}") } else { id.to_owned() }
}

/// A stable bit of variation which is not worth a choice of the generator.
pub fn vary(layout: u64, what: u64, n: u64) -> u64 {
    let x = (layout ^ what.wrapping_mul(0x9E37_79B9_7F4A_7C15)).wrapping_mul(0xD6E8_FEB8_6659_FD93);
    (x ^ (x >> 31)) % n
}

#[derive(Clone, Copy, PartialEq)]
pub enum Side {
    Bridge,
    User,
}

impl Text {
    /// The length of an array, in one of the ways to write it.
    fn length(&self, n: usize, salt: usize) -> String {
        match vary(self.b.layout, 7000 + (n * 64 + salt) as u64, 12) {
            0 => format!("{n:#x}"),
            1 => format!("{n:#o}"),
            2 => format!("{n:#b}"),
            3 => format!("0{n}"),
            4 => format!("{n}usize"),
            5 => format!("0{n}_usize"),
            6 => format!("0x_{n:X}_"),
            _ => n.to_string(),
        }
    }

    pub fn new(b: Bridge, tag: &str, base: u32) -> Text {
        Text { b, tag: tag.to_owned(), base }
    }

    // ---- types ----

    fn user_path(&self, i: usize) -> String {
        let td = &self.b.types[i];
        match td.kind {
            Kind::Rust { .. } | Kind::Trivial { .. } => format!("super::{}", raw(&td.name.rust)),
            _ => format!("super::ffi::{}", raw(&td.name.rust)),
        }
    }

    pub fn rs(&self, t: &Ty, side: Side, lt: Option<&str>) -> String {
        let user = side == Side::User;
        let p = |s: &str| if user { format!("::cxx::{s}") } else { s.to_owned() };
        let amp = |m: bool| format!("&{}{}", lt.map_or(String::new(), |l| format!("{l} ")), if m { "mut " } else { "" });
        match t {
            Ty::Prim(Prim::CChar) if user => "::std::os::raw::c_char".to_owned(),
            Ty::Prim(p) => p.rust().to_owned(),
            Ty::Str => format!("{}str", amp(false)),
            Ty::String => if user { "::std::string::String".into() } else { "String".into() },
            Ty::CxxString => p("CxxString"),
            Ty::T(i) => {
                let td = &self.b.types[*i];
                let name = if user { self.user_path(*i) } else { raw(&td.name.rust) };
                match (&td.kind, lt) {
                    (Kind::Struct { lifetime: true, .. }, Some(l)) => format!("{name}<{l}>"),
                    (Kind::Struct { lifetime: true, .. }, None) if user || vary(self.b.layout, *i as u64, 2) == 0 => format!("{name}<'_>"),
                    _ => name,
                }
            }
            Ty::Box(i) => format!("{}<{}>", if user { "::std::boxed::Box" } else { "Box" }, self.rs(&Ty::T(*i), side, lt)),
            Ty::Vec(e) => format!("{}<{}>", if user { "::std::vec::Vec" } else { "Vec" }, self.rs(e, side, lt)),
            Ty::Uptr(e) => format!("{}<{}>", p("UniquePtr"), self.rs(e, side, lt)),
            Ty::Sptr(e) => format!("{}<{}>", p("SharedPtr"), self.rs(e, side, lt)),
            Ty::Wptr(e) => format!("{}<{}>", p("WeakPtr"), self.rs(e, side, lt)),
            Ty::Cvec(e) => format!("{}<{}>", p("CxxVector"), self.rs(e, side, lt)),
            Ty::Ref(true, e) if self.b.opaque_cxx(e) => format!("{}<{}{}>", if user { "::std::pin::Pin" } else { "Pin" }, amp(true), self.rs(e, side, lt)),
            Ty::Ref(m, e) => format!("{}{}", amp(*m), self.rs(e, side, lt)),
            Ty::Slice(m, e) => format!("{}[{}]", amp(*m), self.rs(e, side, lt)),
            Ty::Arr(e, n) => {
                let e = self.rs(e, side, lt);
                let n = if user { n.to_string() } else { self.length(*n, e.len()) };
                format!("[{e}; {n}]")
            }
            Ty::Ptr(m, e) => format!("*{} {}", if *m { "mut" } else { "const" }, self.rs(e, side, lt)),
            Ty::Fn(s) => {
                let args: Vec<String> = s.args.iter().map(|a| format!("{}: {}", raw(&a.name), self.rs(&a.ty, side, None))).collect();
                let ret = s.ret.as_ref().map_or(String::new(), |r| format!(" -> {}", self.rs(r, side, None)));
                format!("{}fn({}){ret}", if s.is_unsafe { "unsafe " } else { "" }, args.join(", "))
            }
        }
    }

    pub fn qualified(&self, n: &Name) -> String {
        format!("::{}", n.ns.iter().map(|s| format!("{s}::")).collect::<String>() + &n.cxx)
    }

    pub fn cx(&self, t: &Ty) -> String {
        match t {
            Ty::Prim(p) => p.cxx().to_owned(),
            Ty::Str => "::rust::Str".into(),
            Ty::String => "::rust::String".into(),
            Ty::CxxString => "::std::string".into(),
            Ty::T(i) => self.qualified(&self.b.types[*i].name),
            Ty::Box(i) => format!("::rust::Box<{}>", self.cx(&Ty::T(*i))),
            Ty::Vec(e) => format!("::rust::Vec<{}>", self.cx(e)),
            Ty::Uptr(e) => format!("::std::unique_ptr<{}>", self.cx(e)),
            Ty::Sptr(e) => format!("::std::shared_ptr<{}>", self.cx(e)),
            Ty::Wptr(e) => format!("::std::weak_ptr<{}>", self.cx(e)),
            Ty::Cvec(e) => format!("::std::vector<{}>", self.cx(e)),
            Ty::Ref(m, e) => format!("{}{} &", self.cx(e), if *m { "" } else { " const" }),
            Ty::Slice(m, e) => format!("::rust::Slice<{}{}>", self.cx(e), if *m { "" } else { " const" }),
            Ty::Arr(e, n) => format!("::std::array<{}, {n}>", self.cx(e)),
            Ty::Ptr(m, e) => format!("{}{} *", self.cx(e), if *m { "" } else { " const" }),
            Ty::Fn(s) => {
                let args: Vec<String> = s.args.iter().map(|a| self.cx(&a.ty)).collect();
                format!("::rust::Fn<{}({})>", s.ret.as_ref().map_or("void".to_owned(), |r| self.cx(r)), args.join(", "))
            }
        }
    }

    fn in_ns(&self, ns: &[String], body: &str) -> String {
        let mut s = String::new();
        for n in ns {
            let _ = write!(s, "namespace {n} {{ ");
        }
        s += "\n";
        s += body;
        for _ in ns {
            s += "}";
        }
        s += "\n";
        s
    }

    // ---- the bridge module ----

    fn name_attrs(&self, n: &Name, what: u64, with_ns: bool, block_ns: &[String]) -> (String, String) {
        let mut s = String::new();
        if with_ns && n.ns != block_ns {
            let path = n.ns.join("::");
            let idents_ok = !n.ns.is_empty() && n.ns.iter().all(|s| !crate::gen::RUST_KEYWORDS.contains(&s.as_str()));
            if idents_ok && vary(self.b.layout, what * 3 + 1, 2) == 0 {
                let _ = write!(s, "#[namespace = {path}] ");
            } else {
                let _ = write!(s, "#[namespace = \"{path}\"] ");
            }
        }
        let mut ident = raw(&n.rust);
        if n.cxx != n.rust {
            let plain = !["self", "Self", "super", "crate"].contains(&n.cxx.as_str());
            if plain && vary(self.b.layout, what * 3 + 2, 3) == 0 {
                let _ = write!(s, "#[rust_name = \"{}\"] ", raw(&n.rust));
                ident = raw(&n.cxx);
            } else {
                let _ = write!(s, "#[cxx_name = \"{}\"] ", n.cxx);
            }
        }
        (s, ident)
    }

    pub fn fn_decl(&self, f: &Func, k: usize, single_recv: Option<usize>, block_ns: &[String]) -> String {
        let mut s = String::new();
        for a in &f.attrs {
            let _ = writeln!(s, "        {a}");
        }
        let (attrs, ident) = self.name_attrs(&f.name, 1000 + k as u64, f.recv.is_none(), block_ns);
        let lt = f.sig.args.iter().any(|a| a.lt) || f.sig.ret_lt == RetLt::A;
        let mut args = Vec::new();
        if let Some((i, m)) = f.recv {
            let t = Ty::T(i);
            if single_recv == Some(i) && vary(self.b.layout, 2000 + k as u64, 2) == 0 && !(m && self.b.opaque_cxx(&t)) {
                args.push(if m { "&mut self".to_owned() } else { "&self".to_owned() });
            } else {
                args.push(format!("self: {}", self.rs(&Ty::Ref(m, Box::new(t)), Side::Bridge, None)));
            }
        }
        for a in &f.sig.args {
            args.push(format!("{}: {}", raw(&a.name), self.rs(&a.ty, Side::Bridge, a.lt.then_some("'a"))));
        }
        // Beside a receiver, a lifetime hidden in a path is not found by the macro.
        let shown = (f.sig.ret_lt == RetLt::Elided && f.recv.is_some()).then_some("'_");
        let ret = f.sig.ret.as_ref().map(|r| self.rs(r, Side::Bridge, self.ret_lt(f).or(if let Ty::T(_) = r { shown } else { None })));
        let ret = match (ret, f.sig.throws) {
            (None, false) => String::new(),
            (None, true) => " -> Result<()>".to_owned(),
            (Some(r), false) => format!(" -> {r}"),
            (Some(r), true) => format!(" -> Result<{r}>"),
        };
        let _ = writeln!(s, "        {attrs}{}fn {ident}{}({}){ret};", if f.sig.is_unsafe { "unsafe " } else { "" }, if lt { "<'a>" } else { "" }, args.join(", "));
        s
    }

    fn ret_lt(&self, f: &Func) -> Option<&'static str> {
        match f.sig.ret_lt {
            RetLt::Elided => None,
            RetLt::A => Some("'a"),
            RetLt::Static => Some("'static"),
        }
    }

    pub fn bridge(&self, include: &str) -> String {
        let b = &self.b;
        let mut s = String::new();
        if b.ns.is_empty() {
            s += "#[cxx::bridge]\n";
        } else {
            let path = b.ns.join("::");
            let plain = b.ns.iter().all(|s| !crate::gen::RUST_KEYWORDS.contains(&s.as_str()));
            if plain && vary(b.layout, 1, 2) == 0 {
                let _ = writeln!(s, "#[cxx::bridge(namespace = {path})]");
            } else {
                let _ = writeln!(s, "#[cxx::bridge(namespace = \"{path}\")]");
            }
        }
        s += "pub mod ffi {\n";
        // Shared types and extern items, in the bridge's order.
        let mut items: Vec<String> = Vec::new();
        // (lang, block number, namespace) -> items
        let mut blocks: Vec<(Lang, u64, Vec<String>, Vec<(Option<usize>, usize, bool)>)> = Vec::new();
        let nblocks = if b.reuse_blocks { 1 } else { 1 + vary(b.layout, 2, 4) };
        let mut put = |lang: Lang, key: u64, ns: &[String], ty: Option<usize>, idx: usize, is_ty: bool| {
            let n = vary(b.layout, 77 + key, nblocks);
            let block_ns: Vec<String> = if vary(b.layout, 99 + n, 3) == 0 { ns.to_vec() } else { b.ns.clone() };
            match blocks.iter_mut().find(|x| x.0 == lang && x.1 == n && (x.2 == block_ns)) {
                Some(x) => x.3.push((ty, idx, is_ty)),
                None => blocks.push((lang, n, block_ns, vec![(ty, idx, is_ty)])),
            }
        };
        for &i in &b.order {
            let td = &b.types[i];
            match &td.kind {
                Kind::Struct { external, .. } | Kind::Enum { external, .. } => {
                    items.push(self.shared_decl(i));
                    if *external {
                        put(Lang::Cxx, 10 + i as u64, &td.name.ns, None, i, true);
                    }
                }
                Kind::Rust { .. } => put(Lang::Rust, 10 + i as u64, &td.name.ns, None, i, true),
                Kind::Cxx { .. } | Kind::Trivial { .. } => put(Lang::Cxx, 10 + i as u64, &td.name.ns, None, i, true),
            }
        }
        for (k, f) in b.fns.iter().enumerate() {
            put(f.lang, 500 + k as u64, &f.name.ns, f.recv.map(|r| r.0), k, false);
        }
        if !blocks.iter().any(|x| x.0 == Lang::Cxx) {
            blocks.push((Lang::Cxx, 0, b.ns.clone(), vec![]));
        }
        let mut included = false;
        for (n, (lang, _, ns, list)) in blocks.iter().enumerate() {
            let mut t = String::new();
            if *ns != b.ns {
                let _ = writeln!(t, "    #[namespace = \"{}\"]", ns.join("::"));
            }
            match lang {
                Lang::Rust => t += "    extern \"Rust\" {\n",
                Lang::Cxx => {
                    let must = list.iter().any(|x| x.2 || { let f = &b.fns[x.1]; !f.sig.is_unsafe || f.sig.args.iter().any(|a| a.lt) || f.sig.ret_lt == RetLt::A });
                    if must || vary(b.layout, 300 + n as u64, 2) == 0 { t += "    unsafe "; } else { t += "    "; }
                    t += "extern \"C++\" {\n";
                    if !included && !include.is_empty() {
                        for h in include.split(' ') {
                            let _ = if h.starts_with('<') { writeln!(t, "        include!({h});") } else { writeln!(t, "        include!(\"{h}\");") };
                        }
                    }
                    included = true;
                }
            }
            // A block with exactly one type allows `&self`.
            let tys: Vec<usize> = list.iter().filter(|x| x.2).map(|x| x.1).collect();
            let single = if tys.len() == 1 { Some(tys[0]) } else { None };
            for (_, i, is_ty) in list {
                if *is_ty {
                    let td = &b.types[*i];
                    for a in &td.attrs {
                        let _ = writeln!(t, "        {a}");
                    }
                    let (attrs, ident) = self.name_attrs(&td.name, *i as u64, true, ns);
                    let alias = match td.kind {
                        Kind::Trivial { .. } => format!(" = super::{}", raw(&td.name.rust)),
                        _ => String::new(),
                    };
                    let _ = writeln!(t, "        {attrs}type {ident}{alias};");
                } else {
                    t += &self.fn_decl(&b.fns[*i], *i, single, ns);
                }
            }
            t += "    }\n";
            items.push(t);
        }
        for t in &b.explicit_impls {
            items.push(format!("    impl {} {{}}\n", self.rs(t, Side::Bridge, None)));
        }
        // Some rotation of kinds of items.
        if !b.reuse_blocks {
            let n = items.len();
            items.rotate_left(vary(b.layout, 3, n.max(1) as u64) as usize);
        }
        for i in items {
            s += &i;
        }
        s += "}\n";
        s
    }

    fn shared_decl(&self, i: usize) -> String {
        let td = &self.b.types[i];
        let mut s = String::new();
        for a in &td.attrs {
            let _ = writeln!(s, "    {a}");
        }
        if !td.derives.is_empty() {
            let _ = writeln!(s, "    #[derive({})]", td.derives.join(", "));
        }
        let (attrs, ident) = self.name_attrs(&td.name, i as u64, true, &self.b.ns);
        match &td.kind {
            Kind::Struct { fields, lifetime, .. } => {
                let _ = writeln!(s, "    {attrs}pub struct {ident}{} {{", if *lifetime { "<'a>" } else { "" });
                for (j, f) in fields.iter().enumerate() {
                    let n = Name { rust: f.rust.clone(), cxx: f.cxx.clone(), ns: vec![] };
                    let (attrs, ident) = self.name_attrs(&n, 5000 + (i * 50 + j) as u64, false, &[]);
                    let _ = writeln!(s, "        {attrs}pub {ident}: {},", self.rs(&f.ty, Side::Bridge, Some("'a")));
                }
                s += "    }\n";
            }
            Kind::Enum { explicit, variants, .. } => {
                if let Some(r) = explicit {
                    let _ = writeln!(s, "    #[repr({})]", r.rust());
                }
                let _ = writeln!(s, "    {attrs}pub enum {ident} {{");
                for (j, v) in variants.iter().enumerate() {
                    let n = Name { rust: v.rust.clone(), cxx: v.cxx.clone(), ns: vec![] };
                    let (attrs, ident) = self.name_attrs(&n, 5000 + (i * 50 + j) as u64, false, &[]);
                    let _ = writeln!(s, "        {attrs}{ident}{},", v.expr.as_ref().map_or(String::new(), |e| format!(" = {e}")));
                }
                s += "    }\n";
            }
            _ => unreachable!(),
        }
        s
    }

    // ---- C++ declarations of the extern "C++" items ----

    fn cx_params(&self, f: &Func, named: bool) -> String {
        let v: Vec<String> = f.sig.args.iter().enumerate().map(|(i, a)| if named { format!("{} p{i}", self.cx(&a.ty)) } else { self.cx(&a.ty) }).collect();
        v.join(", ")
    }
    fn cx_ret(&self, f: &Func) -> String {
        f.sig.ret.as_ref().map_or("void".to_owned(), |r| self.cx(r))
    }

    /// Declarations of what C++ provides; a self-contained header.
    pub fn impl_h(&self) -> String {
        absolute_std(&self.impl_h_text())
    }

    fn impl_h_text(&self) -> String {
        let b = &self.b;
        let mut s = format!("#pragma once\n#include \"rust/cxx.h\"\n#include <array>\n#include <cstdint>\n#include <memory>\n#include <string>\n#include <vector>\n#include \"lab_fwd.h\"\n");
        for td in &b.types {
            let c = &td.name.cxx;
            let body = match &td.kind {
                Kind::Struct { fields, external: true, .. } => {
                    let mut t = format!("struct {c} {{\n");
                    for f in fields {
                        let _ = writeln!(t, "  {} {};", self.cx(&f.ty), f.cxx);
                    }
                    t + "};\n"
                }
                Kind::Enum { repr, variants, external: true, .. } => {
                    let mut t = format!("enum class {c} : {} {{\n", repr.cxx());
                    for v in variants {
                        let _ = writeln!(t, "  {} = static_cast<{}>({}),", v.cxx, repr.cxx(), cxx_int(v.value));
                    }
                    t + "};\n"
                }
                Kind::Struct { .. } => format!("struct {c};\n"),
                Kind::Enum { repr, .. } => format!("enum class {c} : {};\n", repr.cxx()),
                Kind::Rust { .. } => format!("struct {c};\n"),
                Kind::Trivial { fields, align } => {
                    let mut t = format!("struct {}{c} {{\n", if *align > 0 { format!("alignas({align}) ") } else { String::new() });
                    for (i, p) in fields.iter().enumerate() {
                        let _ = writeln!(t, "  {} t{i};", p.cxx());
                    }
                    t + "  using IsRelocatable = std::true_type;\n};\n"
                }
                Kind::Cxx { .. } => format!("class {c};\n"),
            };
            s += &self.in_ns(&td.name.ns, &body);
        }
        for (i, td) in b.types.iter().enumerate() {
            if let Kind::Cxx { pad } = td.kind {
                let c = &td.name.cxx;
                let mut t = format!("class {c} {{\npublic:\n  explicit {c}(std::uint64_t lab_seed) : lab_val(lab_seed) {{}}\n");
                if pad > 0 {
                    let _ = writeln!(t, "  char lab_pad[{pad}] = {{}};");
                }
                t += "  ::lab::Live lab_val;\n";
                for f in &b.fns {
                    if let (Some((r, m)), Lang::Cxx) = (f.recv, f.lang) {
                        if r == i {
                            let _ = writeln!(t, "  {} {}({}){}{};", self.cx_ret(f), f.name.cxx, self.cx_params(f, false), if m { "" } else { " const" }, if f.noexcept { " noexcept" } else { "" });
                        }
                    }
                }
                t += "};\n";
                s += &self.in_ns(&td.name.ns, &t);
            }
        }
        for f in &b.fns {
            if f.recv.is_none() && f.lang == Lang::Cxx {
                let t = format!("{} {}({}){};\n", self.cx_ret(f), f.name.cxx, self.cx_params(f, false), if f.noexcept { " noexcept" } else { "" });
                s += &self.in_ns(&f.name.ns, &t);
            }
        }
        s
    }

    // ---- the exercising program ----

    fn is_mut_ref(t: &Ty) -> bool {
        matches!(t, Ty::Ref(true, _) | Ty::Slice(true, _))
    }

    /// (receiver then arguments): type, whether explicit lifetime
    fn params(f: &Func) -> Vec<Ty> {
        let mut v = Vec::new();
        if let Some((i, m)) = f.recv {
            v.push(Ty::Ref(m, Box::new(Ty::T(i))));
        }
        v.extend(f.sig.args.iter().map(|a| a.ty.clone()));
        v
    }

    pub fn all_types(&self) -> Vec<Ty> {
        let mut out: Vec<Ty> = Vec::new();
        self.b.visit(&mut |t| {
            if !out.contains(t) {
                out.push(t.clone());
            }
        });
        out
    }

    /// The module's Rust half: the bridge, implementations, and drives.
    pub fn rust(&self) -> String {
        let b = &self.b;
        let g = &self.tag;
        let mut s = String::new();
        s += &self.bridge(&format!("impl{g}.h"));
        let types = self.all_types();
        let mut d = String::new();
        for (i, td) in b.types.iter().enumerate() {
            let n = raw(&td.name.rust);
            let u = self.user_path(i);
            match &td.kind {
                Kind::Struct { fields, lifetime, .. } => {
                    let (gen, ty) = if *lifetime { ("<'a>", format!("{u}<'a>")) } else { ("", u.clone()) };
                    let mks: Vec<String> = fields.iter().enumerate().map(|(j, f)| format!("{}: ::lab::mk(::lab::mix(seed, {j}))", raw(&f.rust))).collect();
                    let digs: String = fields.iter().map(|f| format!("h = ::lab::mix(h, ::lab::dig(&self.{})); ", raw(&f.rust))).collect();
                    let _ = writeln!(d, "impl{gen} ::lab::Mk for {ty} {{ fn mk(seed: u64) -> Self {{ let _d = ::lab::Depth::new(); {u} {{ {} }} }} }}", mks.join(", "));
                    let _ = writeln!(d, "impl{gen} ::lab::Dig for {ty} {{ fn dig(&self) -> u64 {{ let mut h = 1u64; {digs}h }} }}");
                }
                Kind::Enum { .. } => {
                    let _ = writeln!(d, "impl ::lab::Mk for {u} {{ fn mk(seed: u64) -> Self {{ {u} {{ repr: ::lab::mk(seed) }} }} }}");
                    let _ = writeln!(d, "impl ::lab::Dig for {u} {{ fn dig(&self) -> u64 {{ ::lab::dig(&self.repr) }} }}");
                }
                Kind::Rust { pad } => {
                    let _ = writeln!(s, "{}pub struct {n} {{ lab_pad: [u8; {pad}], lab_val: ::lab::Live }}", match pad % 8 { 6 => "#[repr(align(16))] ", 7 => "#[repr(align(64))] ", _ => "" });
                    let _ = writeln!(d, "impl ::lab::Mk for {u} {{ fn mk(seed: u64) -> Self {{ {u} {{ lab_pad: [5; {pad}], lab_val: ::lab::Live::new(seed) }} }} }}");
                    let _ = writeln!(d, "impl ::lab::Dig for {u} {{ fn dig(&self) -> u64 {{ ::lab::mix(::lab::mix(1, self.lab_val.get()), self.lab_pad.iter().map(|x| *x as u64).sum()) }} }}");
                    let _ = writeln!(d, "#[no_mangle] extern \"C\" fn lab_r{g}_new_{i}(seed: u64) -> *mut {u} {{ ::std::boxed::Box::into_raw(::std::boxed::Box::new(::lab::mk(seed))) }}");
                    let _ = writeln!(d, "#[no_mangle] unsafe extern \"C\" fn lab_r{g}_free_{i}(p: *mut {u}) {{ ::core::mem::drop(::std::boxed::Box::from_raw(p)) }}");
                    let _ = writeln!(d, "#[no_mangle] unsafe extern \"C\" fn lab_r{g}_dig_{i}(p: *const {u}) -> u64 {{ ::lab::dig(&*p) }}");
                    let _ = writeln!(d, "#[no_mangle] unsafe extern \"C\" fn lab_r{g}_set_{i}(p: *mut {u}, seed: u64) {{ ::lab::set(&mut *p, seed) }}");
                    let _ = writeln!(d, "#[no_mangle] unsafe extern \"C\" fn lab_r{g}_vec_{i}(p: *mut ::std::vec::Vec<{u}>, seed: u64) {{ *p = ::lab::mk(seed); }}");
                    let _ = writeln!(d, "#[no_mangle] unsafe extern \"C\" fn lab_r{g}_slice_{i}(seed: u64, n: *mut usize) -> *mut {u} {{ let s: &'static mut [{u}] = ::lab::mk(seed); *n = s.len(); s.as_mut_ptr() }}");
                }
                Kind::Cxx { .. } => {
                    let _ = writeln!(d, "extern \"C\" {{ fn lab_c{g}_new_{i}(seed: u64) -> *mut {u}; fn lab_c{g}_free_{i}(p: *mut ::core::ffi::c_void); fn lab_c{g}_dig_{i}(p: *const {u}) -> u64; fn lab_c{g}_set_{i}(p: *mut {u}, seed: u64); fn lab_c{g}_shared_{i}(p: *mut ::core::ffi::c_void, seed: u64); }}");
                    let _ = writeln!(d, "impl ::lab::Stored for {u} {{ fn stored(seed: u64) -> &'static mut Self {{ unsafe {{ let p = lab_c{g}_new_{i}(seed); ::lab::lab_keep(p.cast(), lab_c{g}_free_{i}); &mut *p }} }} }}");
                    let _ = writeln!(d, "impl ::lab::Dig for {u} {{ fn dig(&self) -> u64 {{ unsafe {{ lab_c{g}_dig_{i}(self) }} }} }}");
                    let _ = writeln!(d, "impl ::lab::Set for {u} {{ fn set(self: ::core::pin::Pin<&mut Self>, seed: u64) {{ unsafe {{ lab_c{g}_set_{i}(self.get_unchecked_mut(), seed) }} }} }}");
                }
                Kind::Trivial { fields, align } => {
                    let fs: Vec<String> = fields.iter().enumerate().map(|(j, p)| format!("t{j}: {}", self.rs(&Ty::Prim(*p), Side::User, None))).collect();
                    let al = if *align > 0 { format!(", align({align})") } else { String::new() };
                    let _ = writeln!(s, "#[repr(C{al})] pub struct {n} {{ {} }}", fs.join(", "));
                    let id = td.name.ns.iter().map(|s| format!("{s}::")).collect::<String>() + &td.name.cxx;
                    let _ = writeln!(s, "unsafe impl ::cxx::ExternType for {n} {{ type Id = ::cxx::type_id!(\"{id}\"); type Kind = ::cxx::kind::Trivial; }}");
                    let mks: Vec<String> = (0..fields.len()).map(|j| format!("t{j}: ::lab::mk(::lab::mix(seed, {j}))")).collect();
                    let digs: String = (0..fields.len()).map(|j| format!("h = ::lab::mix(h, ::lab::dig(&self.t{j})); ")).collect();
                    let _ = writeln!(d, "impl ::lab::Mk for {u} {{ fn mk(seed: u64) -> Self {{ {u} {{ {} }} }} }}", mks.join(", "));
                    let _ = writeln!(d, "impl ::lab::Dig for {u} {{ fn dig(&self) -> u64 {{ let mut h = 1u64; {digs}h }} }}");
                }
            }
            let t = || Box::new(Ty::T(i));
            let opaque = matches!(td.kind, Kind::Cxx { .. });
            if types.contains(&Ty::Uptr(t())) {
                let body = if opaque { format!("unsafe {{ ::cxx::UniquePtr::from_raw(lab_c{g}_new_{i}(seed)) }}") } else { "::cxx::UniquePtr::new(::lab::mk(seed))".into() };
                let _ = writeln!(d, "impl ::lab::NewU for {u} {{ fn unique(seed: u64) -> ::cxx::UniquePtr<Self> {{ {body} }} }}");
            }
            if types.contains(&Ty::Sptr(t())) || types.contains(&Ty::Wptr(t())) {
                let body = if opaque { format!("unsafe {{ let mut p = ::core::mem::MaybeUninit::<::cxx::SharedPtr<Self>>::uninit(); lab_c{g}_shared_{i}(p.as_mut_ptr().cast(), seed); p.assume_init() }}") } else { "::cxx::SharedPtr::new(::lab::mk(seed))".into() };
                let _ = writeln!(d, "impl ::lab::NewS for {u} {{ fn shared(seed: u64) -> ::cxx::SharedPtr<Self> {{ {body} }} }}");
            }
            if types.contains(&Ty::Cvec(t())) {
                let _ = writeln!(d, "extern \"C\" {{ fn lab_c{g}_vec_{i}(seed: u64) -> *mut ::core::ffi::c_void; fn lab_c{g}_vecset_{i}(p: *mut ::core::ffi::c_void, seed: u64); }}");
                let _ = writeln!(d, "impl ::lab::NewV for {u} {{ fn vec(seed: u64) -> *mut ::cxx::CxxVector<Self> {{ unsafe {{ lab_c{g}_vec_{i}(seed).cast() }} }} fn vecset(v: ::core::pin::Pin<&mut ::cxx::CxxVector<Self>>, seed: u64) {{ unsafe {{ lab_c{g}_vecset_{i}(v.get_unchecked_mut() as *mut _ as *mut ::core::ffi::c_void, seed) }} }} }}");
            }
        }
        let mut table = String::new();
        for (k, f) in b.fns.iter().enumerate() {
            let id = self.base + k as u32;
            let params = Self::params(f);
            match f.lang {
                Lang::Rust => {
                    s += &self.rust_callee(f, id, &params);
                    let _ = writeln!(d, "extern \"C\" {{ fn lab_drive_{id}(seed: u64); }}\npub fn drive_{id}(seed: u64) {{ unsafe {{ lab_drive_{id}(seed) }} }}");
                }
                Lang::Cxx => d += &self.rust_drive(f, k, id, &params),
            }
            let _ = writeln!(table, "({id}, lab_glue{g}::drive_{id}), ");
        }
        let _ = writeln!(s, "pub mod lab_glue{g} {{\n#![allow(warnings)]\n{d}\n}}");
        let _ = writeln!(s, "pub const LAB_DRIVES: &[(u32, fn(u64))] = &[{table}];");
        s
    }

    /// Paths in code at the root of the module instead of in the glue.
    fn root(s: String) -> String {
        s.replace("super::", "")
    }

    fn rust_callee(&self, f: &Func, id: u32, params: &[Ty]) -> String {
        let mut s = String::new();
        let lt = f.sig.args.iter().any(|a| a.lt);
        let mut args = Vec::new();
        let off = usize::from(f.recv.is_some());
        if let Some((_, m)) = f.recv {
            args.push(if m { "&mut self".to_owned() } else { "&self".to_owned() });
        }
        for (i, a) in f.sig.args.iter().enumerate() {
            args.push(format!("mut p{}: {}", i + off, Self::root(self.rs(&a.ty, Side::User, a.lt.then_some("'a")))));
        }
        let r = f.sig.ret.as_ref().map_or("()".to_owned(), |r| Self::root(self.rs(r, Side::User, self.ret_lt(f))));
        let ret = if f.sig.throws { format!("::core::result::Result<{r}, ::lab::Error>") } else { r };
        let head = format!("pub {}fn {}{}({}) -> {ret}", if f.sig.is_unsafe { "unsafe " } else { "" }, raw(&f.name.rust), if lt { "<'a>" } else { "" }, args.join(", "));
        s += &head;
        s += " {\n";
        let _ = writeln!(s, "    let seed = ::lab::enter({id});");
        let var = |i: usize| if off == 1 && i == 0 { "self".to_owned() } else { format!("p{i}") };
        for i in 0..params.len() {
            let _ = writeln!(s, "    ::lab::b({}, ::lab::dig(&{}));", id << 8 | (i as u32 + 1), var(i));
        }
        let mut after = String::new();
        for (i, t) in params.iter().enumerate() {
            if Self::is_mut_ref(t) {
                let e = format!("::lab::mix(seed, {i})");
                match t {
                    Ty::Slice(..) => { let _ = writeln!(s, "    ::lab::set_slice(p{i}, {e});"); }
                    Ty::Ref(_, u) if self.b.opaque_cxx(u) => { let _ = writeln!(s, "    ::lab::Set::set(p{i}.as_mut(), {e});"); }
                    _ => { let _ = writeln!(s, "    ::lab::set(&mut *{}, {e});", var(i)); }
                }
                let _ = writeln!(after, "    ::lab::b({}, ::lab::dig(&{}));", id << 8 | (0x40 + i as u32), var(i));
            }
        }
        if f.sig.throws {
            let _ = writeln!(s, "    if ::lab::fails(seed) {{ let e = ::lab::Error::new(seed); ::lab::b({}, ::lab::dig(&e.0));\n{after}    return ::core::result::Result::Err(e); }}", id << 8 | 0x81);
        }
        let wrap = |e: &str| if f.sig.throws { format!("::core::result::Result::Ok({e})") } else { e.to_owned() };
        match (&f.sig.ret, f.echo) {
            (None, _) => {
                let _ = writeln!(s, "{after}    {}", wrap("()"));
            }
            (Some(_), Some(e)) => {
                let e = e + off;
                let _ = writeln!(s, "    ::lab::b({}, ::lab::dig(&p{e}));\n{after}    {}", id << 8 | 0x80, wrap(&format!("p{e}")));
            }
            (Some(r), None) => {
                let ty = Self::root(self.rs(r, Side::User, Some("'static")));
                let _ = writeln!(s, "    let r: {ty} = ::lab::mk(::lab::mix(seed, 99));\n    ::lab::b({}, ::lab::dig(&r));\n{after}    {}", id << 8 | 0x80, wrap("r"));
            }
        }
        s += "}\n";
        match f.recv {
            Some((i, _)) => {
                let td = &self.b.types[i];
                let path = Self::root(self.user_path(i));
                let gen = matches!(td.kind, Kind::Struct { lifetime: true, .. });
                if gen { format!("impl<'lab> {path}<'lab> {{ {s} }}\n") } else { format!("impl {path} {{ {s} }}\n") }
            }
            None => s,
        }
    }

    fn rust_drive(&self, f: &Func, k: usize, id: u32, params: &[Ty]) -> String {
        let mut s = String::new();
        let mut pre = String::new();
        let off = usize::from(f.recv.is_some());
        let _ = writeln!(s, "pub fn drive_{id}(seed: u64) {{\n    ::lab::a({}, 0);", id << 8);
        let mut call = Vec::new();
        let mut after = String::new();
        for (i, t) in params.iter().enumerate() {
            match t {
                Ty::Fn(sig) => {
                    let cb = self.cb_id(k, i);
                    pre += &self.rust_callback(sig, cb);
                    let _ = writeln!(s, "    let a{i} = cb_{cb};\n    ::lab::a({}, 1);", id << 8 | (i as u32 + 1));
                    call.push(format!("a{i}"));
                    continue;
                }
                _ => {}
            }
            let _ = writeln!(s, "    let mut a{i}: {} = ::lab::mk(::lab::mix(seed, {i}));", self.rs(t, Side::User, None));
            let _ = writeln!(s, "    ::lab::a({}, ::lab::dig(&a{i}));", id << 8 | (i as u32 + 1));
            if Self::is_mut_ref(t) {
                match t {
                    Ty::Ref(_, u) if self.b.opaque_cxx(u) => call.push(format!("a{i}.as_mut()")),
                    _ => call.push(format!("&mut *a{i}")),
                }
                let _ = writeln!(after, "    ::lab::a({}, ::lab::dig(&a{i}));", id << 8 | (0x40 + i as u32));
            } else {
                call.push(format!("a{i}"));
            }
        }
        let path = match f.recv {
            Some((i, _)) => format!("{}::{}", self.user_path(i), raw(&f.name.rust)),
            None => format!("super::ffi::{}", raw(&f.name.rust)),
        };
        let _ = off;
        let e = format!("{path}({})", call.join(", "));
        let e = if f.sig.is_unsafe { format!("unsafe {{ {e} }}") } else { e };
        let dig = if f.sig.ret.is_some() { format!("::lab::a({}, ::lab::dig(&r));", id << 8 | 0x80) } else { String::new() };
        if f.sig.throws {
            let _ = writeln!(s, "    match {e} {{ ::core::result::Result::Ok(r) => {{ {dig} }} ::core::result::Result::Err(e) => {{ let e: ::cxx::Exception = e; ::lab::a({}, ::lab::dig(e.what())); }} }}", id << 8 | 0x81);
        } else if f.sig.ret.is_some() {
            let _ = writeln!(s, "    {{ let r = {e}; {dig} }}");
        } else {
            let _ = writeln!(s, "    let () = {e};");
        }
        s += &after;
        s += "}\n";
        pre + &s
    }

    fn cb_id(&self, k: usize, i: usize) -> u32 {
        100_000 + (self.base + k as u32) * 16 + i as u32
    }

    fn rust_callback(&self, sig: &Sig, id: u32) -> String {
        let args: Vec<String> = sig.args.iter().enumerate().map(|(i, a)| format!("mut p{i}: {}", self.rs(&a.ty, Side::User, None))).collect();
        let ret = sig.ret.as_ref().map_or("()".to_owned(), |r| self.rs(r, Side::User, None));
        let mut s = format!("{}fn cb_{id}({}) -> {ret} {{\n    let seed = ::lab::enter({id});\n", if sig.is_unsafe { "unsafe " } else { "" }, args.join(", "));
        let mut after = String::new();
        for i in 0..sig.args.len() {
            let _ = writeln!(s, "    ::lab::b({}, ::lab::dig(&p{i}));", id << 8 | (i as u32 + 1));
        }
        for (i, a) in sig.args.iter().enumerate() {
            if Self::is_mut_ref(&a.ty) {
                let e = format!("::lab::mix(seed, {i})");
                match &a.ty {
                    Ty::Slice(..) => { let _ = writeln!(s, "    ::lab::set_slice(p{i}, {e});"); }
                    Ty::Ref(_, u) if self.b.opaque_cxx(u) => { let _ = writeln!(s, "    ::lab::Set::set(p{i}.as_mut(), {e});"); }
                    _ => { let _ = writeln!(s, "    ::lab::set(&mut *p{i}, {e});"); }
                }
                let _ = writeln!(after, "    ::lab::b({}, ::lab::dig(&p{i}));", id << 8 | (0x40 + i as u32));
            }
        }
        if sig.ret.is_some() {
            let _ = writeln!(s, "    let r: {ret} = ::lab::mk(::lab::mix(seed, 99));\n    ::lab::b({}, ::lab::dig(&r));\n{after}    r", id << 8 | 0x80);
        } else {
            s += &after;
        }
        s += "}\n";
        s
    }

    /// Definitions of the C++ items and the C++ drives. Follows the generated
    /// header, impl.h and lab.h.
    pub fn impl_cc(&self) -> String {
        absolute_std(&self.impl_cc_text())
    }

    fn impl_cc_text(&self) -> String {
        let b = &self.b;
        let g = &self.tag;
        let types = self.all_types();
        let mut decl = String::new();
        let mut def = String::new();
        let mut ext = String::new();
        for (i, td) in b.types.iter().enumerate() {
            let c = self.qualified(&td.name);
            match &td.kind {
                Kind::Struct { fields, .. } => {
                    let _ = writeln!(decl, "template <> struct M<{c}> {{ static {c} mk(u64 seed); static u64 dig({c} const &t); }};");
                    let mks: Vec<String> = fields.iter().enumerate().map(|(j, f)| format!("M<{}>::mk(mix(seed, {j}))", self.cx_field(&f.ty))).collect();
                    let digs: String = fields.iter().map(|f| format!("h = mix(h, M<{}>::dig(t.{})); ", self.cx_field(&f.ty), f.cxx)).collect();
                    let _ = writeln!(def, "inline {c} M<{c}>::mk(u64 seed) {{ Depth d; return {c}{{{}}}; }}", mks.join(", "));
                    let _ = writeln!(def, "inline u64 M<{c}>::dig({c} const &t) {{ u64 h = 1; {digs}return h; }}");
                }
                Kind::Enum { .. } => {}
                Kind::Rust { .. } => {
                    let _ = writeln!(ext, "extern \"C\" {{ {c} *lab_r{g}_new_{i}(std::uint64_t); void lab_r{g}_free_{i}(void *); std::uint64_t lab_r{g}_dig_{i}({c} const *); void lab_r{g}_set_{i}({c} *, std::uint64_t); void lab_r{g}_vec_{i}(::rust::Vec<{c}> *, std::uint64_t); {c} *lab_r{g}_slice_{i}(std::uint64_t, std::size_t *); }}");
                    let _ = writeln!(decl, "template <> struct M<{c}> {{ static u64 dig({c} const &t) {{ return lab_r{g}_dig_{i}(&t); }} }};");
                    let _ = writeln!(decl, "template <> struct St<{c}> {{ static {c} &stored(u64 seed) {{ {c} *p = lab_r{g}_new_{i}(seed); lab_keep(p, lab_r{g}_free_{i}); return *p; }} }};");
                    let _ = writeln!(decl, "template <> struct Se<{c}> {{ static void set({c} &t, u64 seed) {{ lab_r{g}_set_{i}(&t, seed); }} }};");
                    let _ = writeln!(decl, "template <> struct Sl<{c}> {{ static ::rust::Slice<{c}> mk(u64 seed) {{ std::size_t n; {c} *p = lab_r{g}_slice_{i}(seed, &n); return ::rust::Slice<{c}>(p, n); }} }};");
                    let _ = writeln!(decl, "template <> struct Sl<{c} const> {{ static ::rust::Slice<{c} const> mk(u64 seed) {{ std::size_t n; {c} *p = lab_r{g}_slice_{i}(seed, &n); return ::rust::Slice<{c} const>(p, n); }} }};");
                    if types.contains(&Ty::Box(i)) {
                        let _ = writeln!(decl, "template <> struct M<::rust::Box<{c}>> {{ static ::rust::Box<{c}> mk(u64 seed) {{ return ::rust::Box<{c}>::from_raw(lab_r{g}_new_{i}(mix(seed, 7))); }} static u64 dig(::rust::Box<{c}> const &t) {{ return mix(addr(&*t), M<{c}>::dig(*t)); }} }};");
                    }
                    if types.contains(&Ty::Vec(Box::new(Ty::T(i)))) {
                        let _ = writeln!(decl, "template <> struct M<::rust::Vec<{c}>> {{ static ::rust::Vec<{c}> mk(u64 seed) {{ ::rust::Vec<{c}> v; lab_r{g}_vec_{i}(&v, seed); return v; }} static u64 dig(::rust::Vec<{c}> const &t) {{ return dig_range(t); }} }};");
                    }
                }
                Kind::Cxx { pad } => {
                    let _ = writeln!(decl, "template <> struct M<{c}> {{ static {c} mk(u64 seed) {{ return {c}(seed); }} static u64 dig({c} const &t) {{ u64 h = mix(1, t.lab_val.get()); {}return h; }} }};", if *pad > 0 { "for (char c : t.lab_pad) h = mix(h, u64(c)); " } else { "" });
                    let _ = writeln!(def, "extern \"C\" {{ void *lab_c{g}_new_{i}(u64 s) {{ return new {c}(s); }} void lab_c{g}_free_{i}(void *p) {{ delete static_cast<{c} *>(p); }} u64 lab_c{g}_dig_{i}(void const *p) {{ return M<{c}>::dig(*static_cast<{c} const *>(p)); }} void lab_c{g}_set_{i}(void *p, u64 s) {{ lab::set(*static_cast<{c} *>(p), s); }} void lab_c{g}_shared_{i}(void *p, u64 s) {{ new (p) std::shared_ptr<{c}>(new {c}(s)); }} }}");
                }
                Kind::Trivial { fields, .. } => {
                    let mks: Vec<String> = fields.iter().enumerate().map(|(j, p)| format!("M<{}>::mk(mix(seed, {j}))", p.cxx())).collect();
                    let digs: String = fields.iter().enumerate().map(|(j, p)| format!("h = mix(h, M<{}>::dig(t.t{j})); ", p.cxx())).collect();
                    let _ = writeln!(decl, "template <> struct M<{c}> {{ static {c} mk(u64 seed) {{ return {c}{{{}}}; }} static u64 dig({c} const &t) {{ u64 h = 1; {digs}return h; }} }};", mks.join(", "));
                }
            }
            if types.contains(&Ty::Cvec(Box::new(Ty::T(i)))) {
                let _ = writeln!(def, "extern \"C\" {{ void *lab_c{g}_vec_{i}(u64 s) {{ return new std::vector<{c}>(M<std::vector<{c}>>::mk(s)); }} void lab_c{g}_vecset_{i}(void *p, u64 s) {{ lab::set(*static_cast<std::vector<{c}> *>(p), s); }} }}");
            }
        }
        let mut s = format!("{ext}namespace lab {{\n{decl}{def}}}\n");
        for (k, f) in b.fns.iter().enumerate() {
            let id = self.base + k as u32;
            let params = Self::params(f);
            match f.lang {
                Lang::Cxx => s += &self.cxx_callee(f, k, id, &params),
                Lang::Rust => s += &self.cxx_drive(f, id, &params),
            }
        }
        s
    }

    fn cx_field(&self, t: &Ty) -> String {
        self.cx(t)
    }

    fn cxx_callee(&self, f: &Func, k: usize, id: u32, params: &[Ty]) -> String {
        let off = usize::from(f.recv.is_some());
        let v: Vec<String> = f.sig.args.iter().enumerate().map(|(i, a)| format!("{} p{}", self.cx(&a.ty), i + off)).collect();
        let mut s = String::new();
        let var = |i: usize| if off == 1 && i == 0 { "(*this)".to_owned() } else { format!("p{i}") };
        let ns;
        match f.recv {
            Some((i, m)) => {
                let td = &self.b.types[i];
                ns = td.name.ns.clone();
                let is_struct = matches!(td.kind, Kind::Struct { .. });
                let noexcept = if is_struct { !f.sig.throws } else { f.noexcept };
                let _ = write!(s, "{} {}::{}({}){}{} {{\n", self.cx_ret(f), td.name.cxx, f.name.cxx, v.join(", "), if m { "" } else { " const" }, if noexcept { " noexcept" } else { "" });
            }
            None => {
                ns = f.name.ns.clone();
                let _ = write!(s, "{} {}({}){} {{\n", self.cx_ret(f), f.name.cxx, v.join(", "), if f.noexcept { " noexcept" } else { "" });
            }
        }
        let _ = writeln!(s, "  std::uint64_t lab_s = lab_enter({id});");
        let mut after = String::new();
        for (i, t) in params.iter().enumerate() {
            match t {
                Ty::Fn(_) => { let _ = writeln!(s, "  lab_b({}, 1);", id << 8 | (i as u32 + 1)); }
                _ => { let _ = writeln!(s, "  lab_b({}, ::lab::M<{}>::dig({}));", id << 8 | (i as u32 + 1), self.cx(t), var(i)); }
            }
        }
        for (i, t) in params.iter().enumerate() {
            match t {
                Ty::Fn(sig) => s += &self.cxx_calls_back(sig, self.cb_id(k, i), &var(i), i),
                Ty::Slice(true, _) => { let _ = writeln!(s, "  ::lab::set_slice({}, ::lab::mix(lab_s, {i}));", var(i)); }
                Ty::Ref(true, _) => { let _ = writeln!(s, "  ::lab::set({}, ::lab::mix(lab_s, {i}));", var(i)); }
                _ => {}
            }
            if Self::is_mut_ref(t) {
                let _ = writeln!(after, "  lab_b({}, ::lab::M<{}>::dig({}));", id << 8 | (0x40 + i as u32), self.cx(t), var(i));
            }
        }
        if f.sig.throws {
            let _ = writeln!(s, "  if (::lab::fails(lab_s)) {{ ::lab::Error e(lab_s); lab_b({}, e.dig());\n{after}    throw e; }}", id << 8 | 0x81);
        }
        match (&f.sig.ret, f.echo) {
            (None, _) => s += &after,
            (Some(r), Some(e)) => { let _ = writeln!(s, "  lab_b({}, ::lab::M<{}>::dig(p{}));\n{after}  return p{};", id << 8 | 0x80, self.cx(r), e + off, e + off); }
            (Some(r), None) => { let c = self.cx(r); let _ = writeln!(s, "  {c} lab_r = ::lab::M<{c}>::mk(::lab::mix(lab_s, 99));\n  lab_b({}, ::lab::M<{c}>::dig(lab_r));\n{after}  return lab_r;", id << 8 | 0x80); }
        }
        s += "}\n";
        self.in_ns(&ns, &s)
    }

    fn cxx_calls_back(&self, sig: &Sig, id: u32, var: &str, slot: usize) -> String {
        let mut s = format!("  for (unsigned lab_i = 0; lab_i < 1 + ::lab::mix(lab_s, 50 + {slot}) % 2; ++lab_i) {{\n    ::std::uint64_t seed = ::lab::mix(lab_s, 60 + lab_i); lab_a({}, 0);\n", id << 8);
        let mut call = Vec::new();
        let mut after = String::new();
        for (i, a) in sig.args.iter().enumerate() {
            let c = self.cx(&a.ty);
            let _ = writeln!(s, "    {c} a{i} = ::lab::M<{c}>::mk(::lab::mix(seed, {i})); lab_a({}, ::lab::M<{c}>::dig(a{i}));", id << 8 | (i as u32 + 1));
            call.push(if matches!(a.ty, Ty::Ref(..)) { format!("a{i}") } else { format!("::std::move(a{i})") });
            if Self::is_mut_ref(&a.ty) {
                let _ = writeln!(after, "    lab_a({}, ::lab::M<{c}>::dig(a{i}));", id << 8 | (0x40 + i as u32));
            }
        }
        let e = format!("{var}({})", call.join(", "));
        match &sig.ret {
            Some(r) => { let c = self.cx(r); let _ = writeln!(s, "    {c} lab_r = {e}; lab_a({}, ::lab::M<{c}>::dig(lab_r));", id << 8 | 0x80); }
            None => { let _ = writeln!(s, "    {e};"); }
        }
        s += &after;
        s += "  }\n";
        s
    }

    fn cxx_drive(&self, f: &Func, id: u32, params: &[Ty]) -> String {
        let mut s = format!("extern \"C\" void lab_drive_{id}(std::uint64_t seed) {{\n  lab_a({}, 0);\n", id << 8);
        let off = usize::from(f.recv.is_some());
        let mut call = Vec::new();
        let mut after = String::new();
        for (i, t) in params.iter().enumerate() {
            let c = self.cx(t);
            let _ = writeln!(s, "  {c} a{i} = ::lab::M<{c}>::mk(::lab::mix(seed, {i})); lab_a({}, ::lab::M<{c}>::dig(a{i}));", id << 8 | (i as u32 + 1));
            if i >= off {
                call.push(if matches!(t, Ty::Ref(..)) { format!("a{i}") } else { format!("::std::move(a{i})") });
            }
            if Self::is_mut_ref(t) {
                let _ = writeln!(after, "  lab_a({}, ::lab::M<{c}>::dig(a{i}));", id << 8 | (0x40 + i as u32));
            }
        }
        let name = match f.recv {
            Some(_) => format!("a0.{}", f.name.cxx),
            None => self.qualified(&f.name),
        };
        let e = format!("{name}({})", call.join(", "));
        let body = match &f.sig.ret {
            Some(r) => { let c = self.cx(r); format!("  {c} lab_r = {e}; lab_a({}, ::lab::M<{c}>::dig(lab_r));\n", id << 8 | 0x80) }
            None => format!("  {e};\n"),
        };
        if f.sig.throws {
            let _ = writeln!(s, "  try {{\n{body}  }} catch (::rust::Error const &e) {{ lab_a({}, ::lab::digerr(e)); }}", id << 8 | 0x81);
        } else {
            let _ = writeln!(s, "  {{\n{body}  }}");
        }
        s += &after;
        s += "}\n";
        s
    }
}

pub fn cxx_int(v: i128) -> String {
    if v == i64::MIN as i128 { "-9223372036854775807ll - 1".into() } else if v < 0 { format!("{v}ll") } else { format!("{v}ull") }
}

/// The namespaces used, for tests of independence.
pub fn namespaces(b: &Bridge) -> BTreeSet<Vec<String>> {
    b.types.iter().map(|t| t.name.ns.clone()).chain(b.fns.iter().map(|f| f.name.ns.clone())).collect()
}

/// Bridges may have namespaces called std.
fn absolute_std(s: &str) -> String {
    let mut out = String::with_capacity(s.len() + 256);
    let mut rest = s;
    while let Some(i) = rest.find("std::") {
        out += &rest[..i];
        if !out.ends_with(|c: char| c == ':' || c == '_' || c.is_alphanumeric()) {
            out += "::";
        }
        out += "std::";
        rest = &rest[i + 5..];
    }
    out + rest
}
