use crate::*;
use pbt::Src;
use std::collections::HashSet;

#[derive(Clone)]
pub struct Profile {
    pub structs: (usize, usize),
    pub enums: (usize, usize),
    pub rusts: (usize, usize),
    pub cxxs: (usize, usize),
    pub trivials: (usize, usize),
    pub fns: (usize, usize),
    pub fields: (usize, usize),
    /// Names from the hostile pools, renamed items, raw identifiers, overloads.
    pub fancy: bool,
    pub namespaces: bool,
    /// Documentation and attributes.
    pub noise: bool,
    /// Structs and enums which C++ defines.
    pub external: bool,
    pub derives: bool,
    pub lifetimes: bool,
    /// Types forming cycles through Vec, UniquePtr and SharedPtr.
    pub recursion: bool,
    /// Fields only of plain data (prims, enums, arrays, nested structs).
    pub plain_fields: bool,
    pub fnptr: bool,
    pub ptr_fields: bool,
    /// Weight of signatures with only plain arguments.
    pub simple_sigs: bool,
}

impl Profile {
    pub fn calls() -> Profile {
        Profile {
            structs: (1, 4), enums: (1, 2), rusts: (1, 2), cxxs: (1, 2), trivials: (0, 1), fns: (10, 22), fields: (1, 5),
            fancy: false, namespaces: false, noise: false, external: false, derives: false, lifetimes: true, recursion: true,
            plain_fields: false, fnptr: true, ptr_fields: false, simple_sigs: false,
        }
    }
}

const NS_POOL: &[&str] = &["a", "b", "org", "nested", "a_b", "std2", "detail", "x1"];
/// Only below another namespace, so as not to be the real ones.
const NS_INNER: &[&str] = &["std", "rust", "a", "b", "cxxb", "impl_", "org", "repr", "behavior", "type", "mod"];

const RUST_TYPES: &[&str] = &[
    "Apple", "string", "vector", "Error", "Slice", "Opaque", "unique_ptr", "A", "B", "a_b", "A_B", "Fn2", "Type", "Str", "Layout", "T", "U",
    "Self2", "Option", "Send", "Sync", "Sized", "Drop", "Clone2", "MaybeUninit", "ManuallyDrop", "PtrLen", "Fat", "isize_", "type", "match", "move", "impl", "trait",
    "X", "Y", "Node", "node", "NODE", "Unpin", "Iterator", "PhantomData", "ExternType", "impl_", "reference", "Result2", "Some2", "Copy2",
];
const CXX_TYPES: &[&str] = &[
    "Apple", "CxxApple", "A", "B", "AB", "A_B", "type", "impl", "fn", "mod", "match", "crate", "Option", "Self", "T", "X", "Y", "Node", "node", "vec", "Slice2", "hash", "allocator_", "S", "pair_",
];
const RUST_FNS: &[&str] = &[
    "apply", "f", "g", "get", "set", "size_", "a_b", "a", "b", "invoke", "main_", "new", "clone", "drop", "len", "type", "fn", "move", "loop", "match", "mod", "impl", "ref", "where", "use", "trait", "in", "unsafe",
    "this_", "delete", "class", "int", "operator", "template", "foo", "Foo", "FOO", "foo_bar", "to_string", "eq", "lt", "hash", "sizeof_", "from_raw", "layout", "ctor", "swap_", "begin_", "end_", "data_", "rust_fn", "cxx_fn", "main",
];
const CXX_FNS: &[&str] = &[
    "apply", "f", "g", "h", "get", "set", "type", "fn", "move", "loop", "match", "mod", "impl", "ref", "use", "self", "crate", "super", "foo", "bar", "Foo", "a", "b", "ab", "swap_", "dyn", "async", "await", "call", "run", "x",
];
/// Not usable as they are in C++.
const CXX_KEYWORDS: &[&str] = &["new", "delete", "class", "int", "operator", "template", "this", "unsigned", "namespace", "main", "union", "default", "static", "const", "enum", "struct", "for", "while", "if", "else", "return", "break", "continue", "extern", "try", "virtual", "typeof", "do"];
pub const RUST_KEYWORDS: &[&str] = &[
    "type", "fn", "move", "loop", "match", "mod", "impl", "ref", "where", "use", "trait", "in", "unsafe", "dyn", "async", "await", "as", "let", "mut", "pub", "box", "priv", "final", "override", "yield", "abstract", "become", "macro", "try", "virtual", "do", "typeof", "unsized",
    "for", "while", "if", "else", "return", "break", "continue", "extern", "const", "static", "enum", "struct",
];
const ARG_NAMES: &[&str] = &[
    "x", "y", "z", "a", "b", "ret", "result", "arg0", "arg1", "return_", "len", "ptr", "data", "value", "other", "rhs", "rust", "std", "cxx", "type", "fn", "move", "loop", "impl", "match", "f", "g", "T", "e", "error", "fail", "catch_", "repr", "size", "index",
];
const FIELD_NAMES: &[&str] = &["x", "y", "a", "b", "c", "len", "type", "fn", "move", "value", "ptr", "data", "std", "rust", "repr", "hash", "eq", "other", "rhs", "impl", "loop"];

struct Namer {
    rust_types: HashSet<String>,
    rust_fns: HashSet<String>,
    cxx: HashSet<(Vec<String>, String)>,
    methods: HashSet<(usize, String)>,
    cxx_methods: HashSet<(usize, String)>,
    n: usize,
}

pub struct G<'a> {
    pub src: &'a mut Src,
    pub p: &'a Profile,
    pub b: Bridge,
    names: Namer,
    nss: Vec<Vec<String>>,
}

pub fn bridge(src: &mut Src, p: &Profile) -> Bridge {
    let mut g = G {
        src, p, b: Bridge::default(),
        names: Namer { rust_types: HashSet::new(), rust_fns: HashSet::new(), cxx: HashSet::new(), methods: HashSet::new(), cxx_methods: HashSet::new(), n: 0 },
        nss: vec![vec![]],
    };
    g.go();
    g.b
}

impl<'a> G<'a> {
    fn go(&mut self) {
        if self.p.namespaces {
            for _ in 0..self.src.us(4) {
                let mut ns = vec![(*self.src.pick(NS_POOL)).to_owned()];
                for _ in 0..self.src.us(3) {
                    ns.push((*self.src.pick(NS_INNER)).to_owned());
                }
                self.nss.push(ns);
            }
            self.b.ns = self.pick_ns();
        }
        // Namespace segments must not be names of anything else.
        for ns in &self.nss {
            for i in 0..ns.len() {
                self.names.cxx.insert((ns[..i].to_vec(), ns[i].clone()));
            }
        }
        self.b.layout = self.src.below(1 << 32);
        self.b.reuse_blocks = !self.p.fancy || self.src.coin();
        self.types();
        self.fns();
        self.impls();
    }

    fn pick_ns(&mut self) -> Vec<String> {
        let n = self.nss.clone();
        self.src.pick(&n).clone()
    }

    fn ns(&mut self) -> Vec<String> {
        if self.p.namespaces && self.src.coin() { self.pick_ns() } else { self.b.ns.clone() }
    }

    fn type_name(&mut self) -> Name {
        self.names.n += 1;
        let n = self.names.n;
        loop {
            let ns = self.ns();
            let (rust, cxx);
            if self.p.fancy && self.src.chance(3, 4) {
                let r = (*self.src.pick(RUST_TYPES)).to_owned();
                let keep = self.src.coin();
                cxx = if keep { r.clone() } else { (*self.src.pick(CXX_TYPES)).to_owned() };
                rust = r;
            } else {
                rust = format!("T{n}");
                cxx = if self.p.fancy && self.src.coin() { (*self.src.pick(CXX_TYPES)).to_owned() } else { rust.clone() };
            }
            if self.names.rust_types.contains(&rust) || self.names.cxx.contains(&(ns.clone(), cxx.clone())) || CXX_KEYWORDS.contains(&cxx.as_str()) {
                // Always make progress, also when replaying an exhausted choice sequence.
                let rust = format!("T{n}");
                let cxx = rust.clone();
                self.names.rust_types.insert(rust.clone());
                self.names.cxx.insert((ns.clone(), cxx.clone()));
                return Name { rust, cxx, ns };
            }
            self.names.rust_types.insert(rust.clone());
            self.names.cxx.insert((ns.clone(), cxx.clone()));
            return Name { rust, cxx, ns };
        }
    }

    fn member_names(&mut self, n: usize, prefix: &str) -> Vec<(String, String)> {
        let mut out: Vec<(String, String)> = Vec::new();
        for i in 0..n {
            let mut r = format!("{prefix}{i}");
            let mut c = r.clone();
            if self.p.fancy && self.src.coin() {
                r = (*self.src.pick(FIELD_NAMES)).to_owned();
                c = if self.src.coin() { r.clone() } else { (*self.src.pick(CXX_FNS)).to_owned() };
            }
            if out.iter().any(|(a, b)| *a == r || *b == c) || CXX_KEYWORDS.contains(&c.as_str()) || (prefix == "v" && ["self", "crate", "super"].contains(&r.as_str())) {
                r = format!("{prefix}{i}");
                c = r.clone();
            }
            out.push((r, c));
        }
        out
    }

    fn count(&mut self, r: (usize, usize)) -> usize {
        self.src.urange(r.0, r.1)
    }

    fn attrs(&mut self) -> Vec<String> {
        if !self.p.noise {
            return vec![];
        }
        let mut out = Vec::new();
        for _ in 0..self.src.us(3) {
            let pool = [
                "/// Documentation.", "/// Ends in a backslash \\", "/// // */ /* nested", "/** block\n doc */", "#[doc = \"a\\nb\\n\\nc\\\\\"]", "#[doc(hidden)]", "#[allow(dead_code)]",
                "#[doc = \"trigraph ??/\"]", "/// \"quotes\" and #pragma and ünïcödé 🦀", "// plain comment \\", "/* plain */", "#[doc = \"#define x y\"]", "#[doc = \" \\r carriage\"]", "#[doc = \"\"]", "#[allow(clippy::all, unused)]",
                "#[rustfmt::skip]", "#[warn(unused)]",
            ];
            out.push((*self.src.pick(&pool)).to_owned());
        }
        out
    }

    fn types(&mut self) {
        let mut kinds = Vec::new();
        for (n, k) in [(self.p.enums, 1), (self.p.rusts, 2), (self.p.cxxs, 3), (self.p.trivials, 4), (self.p.structs, 0)] {
            for _ in 0..self.count(n) {
                kinds.push(k);
            }
        }
        // Names and kinds first, so that fields can refer forward.
        for k in &kinds {
            let name = self.type_name();
            let attrs = self.attrs();
            let kind = match k {
                0 => {
                    let external = self.p.external && self.src.chance(1, 4);
                    Kind::Struct { fields: vec![], lifetime: !external && self.p.lifetimes && self.src.chance(1, 5), external }
                }
                1 => self.enumeration(),
                2 => Kind::Rust { pad: self.src.us(40) },
                3 => Kind::Cxx { pad: self.src.us(40) },
                _ => {
                    let n = self.src.urange(1, 3);
                    Kind::Trivial { fields: (0..n).map(|_| *self.src.pick(&PRIMS)).collect(), align: *self.src.pick(&[0u32, 0, 16, 64]) }
                }
            };
            self.b.types.push(TypeDef { name, kind, derives: vec![], attrs });
        }
        for i in 0..self.b.types.len() {
            if let (Kind::Enum { .. }, true) = (&self.b.types[i].kind, self.p.derives) {
                self.b.types[i].derives = self.enum_derives();
            }
            if let Kind::Struct { lifetime, external, .. } = self.b.types[i].kind {
                let n = self.count(self.p.fields);
                let names = self.member_names(n, "m");
                let mut fields = Vec::new();
                for (k, (rust, mut cxx)) in names.into_iter().enumerate() {
                    // A C++ member named like its class hides it.
                    if cxx == self.b.types[i].name.cxx { cxx = format!("m{k}_"); }
                    let ty = if external { Ty::Prim(*self.src.pick(&PRIMS)) } else { self.field_ty(i, lifetime) };
                    fields.push(Field { rust, cxx, ty });
                }
                let mut fields = fields;
                if lifetime && !fields.iter().any(|f| self.b.has_lt(&f.ty)) {
                    fields[0].ty = Ty::Str;
                }
                let Kind::Struct { fields: fs, .. } = &mut self.b.types[i].kind else { unreachable!() };
                *fs = fields;
                if self.p.derives {
                    self.b.types[i].derives = self.derives_for(i);
                    if external {
                        // The operators are declared by the user's class then.
                        self.b.types[i].derives.retain(|d| !["PartialEq", "Eq", "PartialOrd", "Ord"].contains(d));
                    }
                }
            }
        }
        // Declaration order.
        let n = self.b.types.len();
        let mut order: Vec<usize> = (0..n).collect();
        for i in 0..n {
            let j = i + self.src.us(n - i);
            order.swap(i, j);
        }
        self.b.order = order;
    }

    fn enum_derives(&mut self) -> Vec<&'static str> {
        let mut d = Vec::new();
        for t in ["Clone", "Copy", "Debug", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"] {
            if self.src.coin() {
                d.push(t);
            }
        }
        if d.contains(&"Ord") && !d.contains(&"PartialOrd") {
            d.push("PartialOrd");
        }
        d
    }

    fn derives_for(&mut self, i: usize) -> Vec<&'static str> {
        let Kind::Struct { fields, .. } = &self.b.types[i].kind else { return vec![] };
        fn plain(b: &Bridge, t: &Ty, float_ok: bool) -> bool {
            match t {
                Ty::Prim(p) => float_ok || !p.float(),
                Ty::String => true,
                Ty::Vec(t) => plain(b, t, float_ok),
                _ => false,
            }
        }
        let all = fields.iter().all(|f| plain(&self.b, &f.ty, false));
        let most = fields.iter().all(|f| plain(&self.b, &f.ty, true));
        let pods = fields.iter().all(|f| matches!(f.ty, Ty::Prim(_)));
        let mut d = Vec::new();
        if most {
            if self.src.coin() { d.push("Clone"); if pods && self.src.coin() { d.push("Copy"); } }
            if self.src.coin() { d.push("Debug"); }
            if self.src.coin() { d.push("Default"); }
            if self.src.coin() {
                d.push("PartialEq");
                if all && self.src.coin() { d.push("Eq"); }
                if self.src.coin() { d.push("PartialOrd"); if d.contains(&"Eq") && self.src.coin() { d.push("Ord"); } }
            }
            if all && self.src.coin() { d.push("Hash"); }
        }
        d
    }

    pub fn enumeration(&mut self) -> Kind {
        let external = self.p.external && self.src.chance(1, 3);
        let explicit = if self.src.coin() { Some(*self.src.pick(&INTS)) } else { None };
        let (lo, hi) = explicit.map_or((i64::MIN as i128, u64::MAX as i128), Prim::range);
        let n = if explicit.is_some() && !external { self.src.us(6) } else { self.src.urange(1, 6) };
        let names = self.member_names(n, "v");
        let mut variants: Vec<Variant> = Vec::new();
        let mut next: i128 = 0;
        // Without a repr, a whole enum must fit one type.
        let target = if explicit.is_none() { let ts = [U8, I8, U16, I16, U32, I32, U64, I64]; Some(*self.src.pick(&ts)) } else { None };
        let (lo, hi) = target.map_or((lo, hi), Prim::range);
        for (rust, cxx) in names {
            let mut value = next;
            let mut expr = None;
            if self.src.coin() || value > hi || value < lo {
                value = match self.src.below(6) {
                    0 => lo,
                    1 => hi,
                    2 => 0,
                    3 => (self.src.u64() as i128).clamp(lo, hi),
                    4 => (self.src.i64() as i128).clamp(lo, hi),
                    _ => (self.src.below(300) as i128 - 150).clamp(lo, hi),
                };
                if variants.iter().any(|v| v.value == value) {
                    value = (0..).map(|k: i128| lo.max(0) + k).find(|x| !variants.iter().any(|v| v.value == *x)).unwrap();
                }
                let m = value.unsigned_abs();
                let text = match self.src.below(6) {
                    0 => format!("0x{m:x}"),
                    1 => format!("0o{m:o}"),
                    2 => format!("0b{m:b}"),
                    3 => { let s = m.to_string(); s.chars().enumerate().map(|(i, c)| if i > 0 && (s.len() - i) % 3 == 0 { format!("_{c}") } else { c.to_string() }).collect() }
                    _ => m.to_string(),
                };
                // A suffix states the type.
                let suffix = match explicit { Some(r) if self.src.chance(1, 4) && value >= 0 => r.rust(), _ => "" };
                expr = Some(format!("{}{text}{suffix}", if value < 0 { "-" } else { "" }));
            }
            if variants.iter().any(|v| v.value == value) {
                let v2 = (0..).map(|k: i128| lo.max(0) + k).find(|x| !variants.iter().any(|v| v.value == *x)).unwrap();
                value = v2;
                expr = Some(value.to_string());
            }
            variants.push(Variant { rust, cxx, expr, value });
            next = value + 1;
        }
        let repr = explicit.unwrap_or_else(|| {
            let min = variants.iter().map(|v| v.value).min().unwrap();
            let max = variants.iter().map(|v| v.value).max().unwrap();
            *[U8, I8, U16, I16, U32, I32, U64, I64].iter().find(|p| p.range().0 <= min && max <= p.range().1).unwrap_or(&I64)
        });
        Kind::Enum { explicit, repr, variants, external }
    }

    fn idx(&mut self, pred: impl Fn(&TypeDef) -> bool) -> Option<usize> {
        let v: Vec<usize> = (0..self.b.types.len()).filter(|i| pred(&self.b.types[*i])).collect();
        if v.is_empty() { None } else { Some(*self.src.pick(&v)) }
    }

    fn prim(&mut self) -> Prim {
        *self.src.pick(&PRIMS)
    }

    /// Target of Box and Rust Vec.
    fn rustic(&mut self, below: usize) -> Option<usize> {
        let rec = self.p.recursion;
        let v: Vec<usize> = (0..self.b.types.len())
            .filter(|i| match self.b.types[*i].kind {
                Kind::Struct { lifetime, .. } => !lifetime && (*i < below || rec),
                Kind::Cxx { .. } => false,
                _ => true,
            })
            .collect();
        if v.is_empty() { None } else { Some(*self.src.pick(&v)) }
    }

    /// Target of UniquePtr, SharedPtr, WeakPtr and CxxVector.
    fn cxxic(&mut self, below: usize) -> Option<usize> {
        let rec = self.p.recursion;
        let v: Vec<usize> = (0..self.b.types.len())
            .filter(|i| match self.b.types[*i].kind {
                Kind::Struct { lifetime, .. } => !lifetime && (*i < below || rec),
                Kind::Rust { .. } => false,
                _ => true,
            })
            .collect();
        if v.is_empty() { None } else { Some(*self.src.pick(&v)) }
    }

    fn cvec(&mut self, below: usize) -> Ty {
        let e = match self.src.below(4) {
            0 => Ty::CxxString,
            1 | 2 => self.cxxic(below).map_or(Ty::CxxString, Ty::T),
            _ => loop {
                let p = self.prim();
                if p != Bool && p != CChar { break Ty::Prim(p); }
                break Ty::Prim(U8);
            },
        };
        Ty::Cvec(Box::new(e))
    }

    fn smart(&mut self, below: usize) -> Ty {
        match self.src.below(3) {
            0 => {
                let t = match self.src.below(4) {
                    0 => Ty::CxxString,
                    1 => self.cvec(below),
                    _ => self.cxxic(below).map_or(Ty::CxxString, Ty::T),
                };
                Ty::Uptr(Box::new(t))
            }
            k => {
                let t = match self.src.below(4) {
                    0 => Ty::CxxString,
                    1 => { let p = self.prim(); Ty::Prim(if p == CChar { Bool } else { p }) }
                    _ => self.cxxic(below).map_or(Ty::CxxString, Ty::T),
                };
                if k == 1 { Ty::Sptr(Box::new(t)) } else { Ty::Wptr(Box::new(t)) }
            }
        }
    }

    fn vec(&mut self, below: usize) -> Ty {
        let e = match self.src.below(4) {
            0 => Ty::String,
            1 => Ty::Prim(self.prim()),
            _ => self.rustic(below).map_or(Ty::String, Ty::T),
        };
        Ty::Vec(Box::new(e))
    }

    /// A by-value type; structs by value only below the given index.
    pub fn value(&mut self, below: usize, lt: bool, depth: usize) -> Ty {
        let w: &[u32] = &[5, 2, 3, 2, 2, 3, 3, if lt { 2 } else { 0 }, if lt { 2 } else { 0 }, 2, if depth == 0 { 2 } else { 0 }];
        match self.src.weighted(w) {
            0 => Ty::Prim(self.prim()),
            1 => Ty::String,
            2 => self.idx_struct(below, lt).map_or(Ty::String, Ty::T),
            3 => self.idx(|t| matches!(t.kind, Kind::Enum { .. } | Kind::Trivial { .. })).map_or(Ty::Prim(I64), Ty::T),
            4 => self.rustic(below).filter(|i| !(matches!(self.b.types[*i].kind, Kind::Struct { .. }) && *i >= below)).map_or(Ty::Prim(U16), Ty::Box),
            5 => self.vec(below),
            6 => self.smart(below),
            7 => Ty::Str,
            8 => self.reference(below, false, depth),
            9 => self.idx(|t| matches!(t.kind, Kind::Enum { .. })).map_or(Ty::Prim(I8), Ty::T),
            _ => {
                let e = self.value(below, lt, depth + 1);
                // Neither arrays of references nor arrays of extern types.
                let bad = match &e {
                    Ty::Ref(..) => true,
                    Ty::T(i) => matches!(self.b.types[*i].kind, Kind::Trivial { .. }),
                    _ => false,
                };
                if bad { Ty::Arr(Box::new(Ty::Prim(U8)), 5) } else { Ty::Arr(Box::new(e), *self.src.pick(&[1usize, 2, 3, 7])) }
            }
        }
    }

    fn idx_struct(&mut self, below: usize, lt: bool) -> Option<usize> {
        let v: Vec<usize> = (0..self.b.types.len().min(below)).filter(|i| matches!(self.b.types[*i].kind, Kind::Struct { lifetime, .. } if lt || !lifetime)).collect();
        if v.is_empty() { None } else { Some(*self.src.pick(&v)) }
    }

    /// A reference or slice type.
    pub fn reference(&mut self, below: usize, mutable: bool, depth: usize) -> Ty {
        match self.src.below(8) {
            0 => self.slice(below, mutable),
            1 => self.idx(|t| matches!(t.kind, Kind::Rust { .. })).map_or(Ty::Ref(mutable, Box::new(Ty::String)), |i| Ty::Ref(mutable, Box::new(Ty::T(i)))),
            2 => self.idx(|t| matches!(t.kind, Kind::Cxx { .. })).map_or(Ty::Ref(mutable, Box::new(Ty::CxxString)), |i| Ty::Ref(mutable, Box::new(Ty::T(i)))),
            3 => Ty::Ref(mutable, Box::new(Ty::CxxString)),
            4 => { let v = self.cvec(below); Ty::Ref(mutable, Box::new(v)) }
            _ => {
                let t = if depth < 2 { self.value(below, false, depth + 1) } else { Ty::Prim(self.prim()) };
                Ty::Ref(mutable, Box::new(t))
            }
        }
    }

    fn slice(&mut self, below: usize, mutable: bool) -> Ty {
        let e = match self.src.below(4) {
            0 => Ty::Prim(self.prim()),
            1 => self.rustic(0).filter(|i| self.b.sized(&Ty::T(*i)) || matches!(self.b.types[*i].kind, Kind::Rust { .. })).map_or(Ty::String, Ty::T),
            2 => if mutable { Ty::String } else { Ty::Str },
            _ => self.value(below, false, 1),
        };
        let e = if let Ty::Ref(..) = e { Ty::Prim(U8) } else { e };
        Ty::Slice(mutable, Box::new(e))
    }

    fn field_ty(&mut self, i: usize, lt: bool) -> Ty {
        if self.p.ptr_fields && self.src.chance(1, 12) {
            let m = self.src.coin();
            return Ty::Ptr(m, Box::new(if self.src.coin() { Ty::Prim(self.prim()) } else { Ty::T(self.src.us(self.b.types.len())) })).no_lt(&self.b);
        }
        if self.p.plain_fields {
            return match self.src.weighted(&[6, 2, 3, 3, 1]) {
                0 => Ty::Prim(self.prim()),
                1 => self.idx(|t| matches!(t.kind, Kind::Enum { .. })).map_or(Ty::Prim(I16), Ty::T),
                2 => self.idx_struct(i, lt).map_or(Ty::Prim(F32), Ty::T),
                3 => {
                    let e = match self.src.below(3) {
                        0 => Ty::Prim(self.prim()),
                        1 => self.idx_struct(i, false).map_or(Ty::Prim(U64), Ty::T),
                        _ => self.idx(|t| matches!(t.kind, Kind::Enum { .. })).map_or(Ty::Prim(I16), Ty::T),
                    };
                    let a = Ty::Arr(Box::new(e), *self.src.pick(&[1usize, 2, 3, 5, 10, 17]));
                    if self.src.chance(1, 4) { Ty::Arr(Box::new(a), 2) } else { a }
                }
                _ => self.idx(|t| matches!(t.kind, Kind::Trivial { .. })).map_or(Ty::String, Ty::T),
            };
        }
        self.value(i, lt, 0)
    }

    fn arg_ty(&mut self, lang: Lang, in_fnptr: bool) -> Ty {
        let n = self.b.types.len();
        let fp = u32::from(self.p.fnptr && lang == Lang::Cxx && !in_fnptr);
        match self.src.weighted(&[9, 4, 4, 2, 2 * fp, 1]) {
            0 => self.value(n, self.p.lifetimes, 0),
            1 => self.reference(n, false, 0),
            2 => self.reference(n, true, 0),
            3 => { let m = self.src.coin(); self.slice(n, m) }
            4 => Ty::Fn(Box::new(self.fnptr_sig())),
            _ => {
                let m = self.src.coin();
                let t = match self.src.below(3) {
                    0 => Ty::Prim(self.prim()),
                    1 if n > 0 => Ty::T(self.src.us(n)),
                    _ => { let t = self.value(n, false, 1); if let Ty::Ref(..) = t { Ty::String } else { t } }
                };
                let t = if self.b.has_lt(&t) { Ty::Prim(U32) } else { t };
                Ty::Ptr(m, Box::new(t))
            }
        }
    }

    fn fnptr_sig(&mut self) -> Sig {
        let n = self.b.types.len();
        let k = self.src.us(4);
        let args: Vec<Arg> = (0..k).map(|i| { let ty = self.arg_ty(Lang::Rust, true); Arg { name: format!("p{i}"), ty, lt: false } }).collect();
        let ret = if self.src.coin() { Some(self.value(n, false, 0)) } else { None }.filter(|t| !self.b.has_lt(t));
        let is_unsafe = args.iter().any(|a| matches!(a.ty, Ty::Ptr(..))) || self.src.chance(1, 6);
        Sig { args, ret, ret_lt: RetLt::Elided, throws: false, is_unsafe }
    }

    fn arg_names(&mut self, k: usize) -> Vec<String> {
        let mut out: Vec<String> = Vec::new();
        for i in 0..k {
            let mut n = if self.p.fancy { (*self.src.pick(ARG_NAMES)).to_owned() } else { format!("a{i}") };
            if out.contains(&n) {
                n = format!("a{i}");
            }
            out.push(n);
        }
        out
    }

    pub fn fns(&mut self) {
        let k = self.count(self.p.fns);
        for _ in 0..k {
            let f = self.func();
            self.b.fns.push(f);
        }
        // An alias may be referred to mutably without a pin once some function
        // takes or returns it by value.
        for i in 0..self.b.types.len() {
            if !matches!(self.b.types[i].kind, Kind::Trivial { .. }) { continue; }
            let by_value = self.b.fns.iter().any(|f| f.sig.args.iter().any(|a| a.ty == Ty::T(i)) || f.sig.ret == Some(Ty::T(i)));
            let mut by_mut = false;
            self.b.visit(&mut |t| by_mut |= matches!(t, Ty::Ref(true, u) if **u == Ty::T(i)));
            if by_mut && !by_value {
                self.names.n += 1;
                let ns = self.b.ns.clone();
                let f = format!("f{}", self.names.n);
                self.names.rust_fns.insert(f.clone());
                let name = Name { rust: f.clone(), cxx: f, ns };
                let args = vec![Arg { name: "a0".to_owned(), ty: Ty::T(i), lt: false }];
                self.b.fns.push(Func { name, lang: Lang::Cxx, recv: None, recv_lt: false, sig: Sig { args, ret: None, ret_lt: RetLt::Elided, throws: false, is_unsafe: false }, attrs: vec![], noexcept: false, echo: None });
            }
        }
    }

    fn func(&mut self) -> Func {
        let lang = if self.src.coin() { Lang::Rust } else { Lang::Cxx };
        let mut recv = None;
        if self.src.chance(1, 4) {
            recv = self.idx(|t| match t.kind {
                // C++ methods on a Rust type cannot be defined, nor Rust ones on a C++ type.
                Kind::Struct { external, .. } => !external,
                Kind::Rust { .. } => lang == Lang::Rust,
                Kind::Cxx { .. } => lang == Lang::Cxx,
                _ => false,
            });
        }
        let recv = recv.map(|i| (i, self.src.coin()));
        // A mutable method on a struct with lifetimes would tie the lifetimes together.
        let kargs = if self.p.simple_sigs { self.src.us(2) } else { self.src.us(5) };
        let names = self.arg_names(kargs);
        let mut args: Vec<Arg> = Vec::new();
        for name in names {
            let ty = if self.p.simple_sigs { Ty::Prim(self.prim()) } else { self.arg_ty(lang, false) };
            args.push(Arg { name, ty, lt: false });
        }
        let mut is_unsafe = args.iter().any(|a| matches!(a.ty, Ty::Ptr(..))) || self.src.chance(1, 10);
        let throws = self.src.chance(1, 4);
        let n = self.b.types.len();
        let mut ret = None;
        let mut ret_lt = RetLt::Elided;
        let mut echo = None;
        let mut recv_lt = false;
        match self.src.below(if self.p.simple_sigs { 6 } else { 8 }) {
            0 | 1 => {}
            2..=5 => {
                let t = if self.p.simple_sigs { Ty::Prim(self.prim()) } else { self.value(n, false, 0) };
                if !self.b.has_lt(&t) { ret = Some(t); }
            }
            _ => {
                // Something carrying a lifetime.
                let lts: Vec<usize> = args.iter().map(|a| self.b.lt_count(&a.ty)).collect();
                let total: usize = lts.iter().sum();
                let mutable = self.src.chance(1, 3);
                let mut t = match self.src.below(4) {
                    0 => Ty::Str,
                    1 => self.slice(n, mutable),
                    2 if !mutable => self.idx_struct(n, true).filter(|i| self.b.has_lt(&Ty::T(*i))).map_or(Ty::Str, Ty::T),
                    _ => self.reference(n, mutable, 0),
                };
                let can: Vec<usize> = (0..args.len()).filter(|i| lts[*i] > 0).collect();
                let source_mut;
                if let (Some((_, m)), true) = (recv, self.src.coin()) {
                    ret_lt = RetLt::Elided;
                    source_mut = m;
                } else if recv.is_none() && total == 1 && !self.src.chance(1, 4) {
                    ret_lt = RetLt::Elided;
                    source_mut = matches!(args[can[0]].ty, Ty::Ref(true, _) | Ty::Slice(true, _));
                    if self.src.coin() { if let Ty::Ref(..) = args[can[0]].ty { t = args[can[0]].ty.clone(); } }
                } else if !can.is_empty() && (lang == Lang::Cxx || self.src.coin()) {
                    let i = *self.src.pick(&can);
                    args[i].lt = true;
                    ret_lt = RetLt::A;
                    source_mut = matches!(args[i].ty, Ty::Ref(true, _) | Ty::Slice(true, _));
                    if lang == Lang::Rust { is_unsafe = true; }
                    if self.src.coin() { if let Ty::Ref(..) = args[i].ty { t = args[i].ty.clone(); } }
                } else {
                    ret_lt = RetLt::Static;
                    source_mut = false;
                    if let Ty::T(_) = t { t = Ty::Str; }
                }
                let is_mut = matches!(t, Ty::Ref(true, _) | Ty::Slice(true, _));
                // Mutable returned references are invariant in what they contain.
                let nested_lt = match &t { Ty::Ref(_, u) | Ty::Slice(_, u) => self.b.has_lt(u), _ => false };
                if nested_lt || (is_mut && !source_mut) {
                    t = Ty::Str;
                }
                for (i, a) in args.iter().enumerate() {
                    if a.ty == t && matches!(t, Ty::Ref(..)) && (a.lt || (ret_lt == RetLt::Elided && recv.is_none())) {
                        echo = Some(i);
                    }
                }
                ret = Some(t);
                recv_lt = false;
            }
        }
        let attrs = self.attrs();
        let noexcept = lang == Lang::Cxx && !throws && self.src.chance(1, 6);
        let name = self.fn_name(lang, recv.map(|r| r.0), &args);
        Func { name, lang, recv, recv_lt, sig: Sig { args, ret, ret_lt, throws, is_unsafe }, attrs, noexcept, echo }
    }

    fn fn_name(&mut self, lang: Lang, recv: Option<usize>, args: &[Arg]) -> Name {
        self.names.n += 1;
        let n = self.names.n;
        let ns = self.ns();
        let (mut rust, mut cxx) = (format!("f{n}"), format!("f{n}"));
        if self.p.fancy {
            if self.src.chance(3, 4) {
                rust = (*self.src.pick(RUST_FNS)).to_owned();
                cxx = if self.src.coin() { rust.clone() } else { (*self.src.pick(CXX_FNS)).to_owned() };
            } else if self.src.coin() {
                cxx = (*self.src.pick(CXX_FNS)).to_owned();
            }
        }
        // Overload an existing C++ name: same scope, different parameter types.
        let mut overload = false;
        if self.p.fancy && self.src.chance(1, 4) {
            let cands: Vec<usize> = (0..self.b.fns.len()).filter(|i| {
                let f = &self.b.fns[*i];
                f.recv.map(|r| r.0) == recv && f.lang == lang && (recv.is_some() || f.name.ns == ns)
            }).collect();
            if !cands.is_empty() {
                let c = self.b.fns[*self.src.pick(&cands)].name.cxx.clone();
                let clash = self.b.fns.iter().any(|f| f.name.cxx == c && f.recv.map(|r| r.0) == recv && (recv.is_some() || f.name.ns == ns) && !distinct_params(args, &f.sig.args));
                if !clash { cxx = c; overload = true; }
            }
        }
        let rust_taken = |s: &Self, r: &str| match recv { Some(t) => s.names.methods.contains(&(t, r.to_owned())), None => s.names.rust_fns.contains(r) };
        if rust_taken(self, &rust) || (recv.is_some() && ["clone", "drop", "eq", "lt", "hash", "to_string", "new"].contains(&rust.as_str())) {
            rust = format!("f{n}");
        }
        let mut bad = CXX_KEYWORDS.contains(&cxx.as_str());
        match recv {
            Some(t) => {
                let td = &self.b.types[t];
                bad |= td.name.cxx == cxx;
                if let Kind::Struct { fields, .. } = &td.kind { bad |= fields.iter().any(|f| f.cxx == cxx || f.rust == rust && false); }
                bad |= !overload && self.names.cxx_methods.contains(&(t, cxx.clone()));
                // Names the generated class declares itself.
                bad |= ["layout", "IsRelocatable"].contains(&cxx.as_str());
            }
            None => bad |= !overload && self.names.cxx.contains(&(ns.clone(), cxx.clone())),
        }
        // `main` and such cannot be redefined.
        if recv.is_none() && rust == "main" { rust = "main_".to_owned(); if rust_taken(self, &rust) { rust = format!("f{n}"); } }
        if bad {
            cxx = format!("f{n}");
        }
        match recv {
            Some(t) => { self.names.methods.insert((t, rust.clone())); self.names.cxx_methods.insert((t, cxx.clone())); }
            None => { self.names.rust_fns.insert(rust.clone()); self.names.cxx.insert((ns.clone(), cxx.clone())); }
        }
        Name { rust, cxx, ns }
    }

    fn impls(&mut self) {
        // Containers of extern types need an explicit impl.
        let mut need = Vec::new();
        let b = &self.b;
        b.visit(&mut |t| {
            let inner = match t {
                Ty::Box(i) => Some(*i),
                Ty::Vec(e) | Ty::Uptr(e) | Ty::Sptr(e) | Ty::Wptr(e) | Ty::Cvec(e) => match &**e { Ty::T(i) => Some(*i), _ => None },
                _ => None,
            };
            if let Some(i) = inner {
                if matches!(b.types[i].kind, Kind::Trivial { .. }) && !need.contains(t) {
                    need.push(t.clone());
                }
            }
        });
        self.b.explicit_impls = need;
        for _ in 0..self.src.us(3) {
            let n = self.b.types.len();
            let t = match self.src.below(3) {
                0 => self.rustic(n).map(Ty::Box),
                1 => self.rustic(n).map(|i| Ty::Vec(Box::new(Ty::T(i)))),
                _ => self.cxxic(n).map(|i| match i % 4 { 0 => Ty::Uptr(Box::new(Ty::T(i))), 1 => Ty::Sptr(Box::new(Ty::T(i))), 2 => Ty::Wptr(Box::new(Ty::T(i))), _ => Ty::Cvec(Box::new(Ty::T(i))) }),
            };
            if let Some(t) = t {
                if !self.b.explicit_impls.contains(&t) {
                    self.b.explicit_impls.push(t);
                }
            }
        }
        // Upgrading a WeakPtr takes the SharedPtr of the same type.
        let mut need = Vec::new();
        self.b.visit(&mut |t| {
            if let Ty::Wptr(e) = t {
                let sp = Ty::Sptr(e.clone());
                if matches!(**e, Ty::T(_)) && !need.contains(&sp) {
                    need.push(sp);
                }
            }
        });
        need.retain(|t| !self.b.explicit_impls.contains(t));
        self.b.explicit_impls.extend(need);
    }
}

/// Whether C++ can tell the two overloads apart by a plain parameter.
fn distinct_params(a: &[Arg], b: &[Arg]) -> bool {
    if a.len() != b.len() {
        return true;
    }
    a.iter().zip(b).any(|(x, y)| match (&x.ty, &y.ty) {
        // size_t is one of the other integer types; char is a distinct type.
        (Ty::Prim(p), Ty::Prim(q)) => {
            let canon = |p: Prim| match p { Usize => U64, Isize => I64, p => p };
            canon(*p) != canon(*q)
        }
        _ => false,
    })
}
