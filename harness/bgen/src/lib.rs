//! Random bridge modules: an abstract description of a `#[cxx::bridge]`, the
//! generator for it, and its rendering as Rust and C++ source.
#![allow(clippy::all)]

pub mod gen;
pub mod render;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Prim {
    Bool, U8, U16, U32, U64, Usize, I8, I16, I32, I64, Isize, F32, F64, CChar,
}
use Prim::*;

pub const INTS: [Prim; 10] = [U8, U16, U32, U64, Usize, I8, I16, I32, I64, Isize];
pub const PRIMS: [Prim; 14] = [I32, U8, Bool, U16, U32, U64, Usize, I8, I16, I64, Isize, F32, F64, CChar];

impl Prim {
    pub fn rust(self) -> &'static str {
        match self {
            Bool => "bool", U8 => "u8", U16 => "u16", U32 => "u32", U64 => "u64", Usize => "usize",
            I8 => "i8", I16 => "i16", I32 => "i32", I64 => "i64", Isize => "isize",
            F32 => "f32", F64 => "f64", CChar => "c_char",
        }
    }
    pub fn cxx(self) -> &'static str {
        match self {
            Bool => "bool", U8 => "::std::uint8_t", U16 => "::std::uint16_t", U32 => "::std::uint32_t",
            U64 => "::std::uint64_t", Usize => "::std::size_t", I8 => "::std::int8_t", I16 => "::std::int16_t",
            I32 => "::std::int32_t", I64 => "::std::int64_t", Isize => "::rust::isize",
            F32 => "float", F64 => "double", CChar => "char",
        }
    }
    pub fn range(self) -> (i128, i128) {
        match self {
            U8 => (0, u8::MAX as i128), U16 => (0, u16::MAX as i128), U32 => (0, u32::MAX as i128),
            U64 | Usize => (0, u64::MAX as i128),
            I8 => (i8::MIN as i128, i8::MAX as i128), I16 => (i16::MIN as i128, i16::MAX as i128),
            I32 => (i32::MIN as i128, i32::MAX as i128), I64 | Isize => (i64::MIN as i128, i64::MAX as i128),
            _ => unreachable!(),
        }
    }
    pub fn float(self) -> bool {
        matches!(self, F32 | F64)
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
    Prim(Prim),
    Str,
    String,
    CxxString,
    T(usize),
    Box(usize),
    Vec(Box<Ty>),
    Uptr(Box<Ty>),
    Sptr(Box<Ty>),
    Wptr(Box<Ty>),
    Cvec(Box<Ty>),
    Ref(bool, Box<Ty>),
    Slice(bool, Box<Ty>),
    Arr(Box<Ty>, usize),
    Fn(Box<Sig>),
    Ptr(bool, Box<Ty>),
}

impl Ty {
    /// Replaced by a plain type when it would need a lifetime.
    pub fn no_lt(self, b: &Bridge) -> Ty {
        if b.has_lt(&self) { Ty::Prim(Usize) } else { self }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct Arg {
    pub name: String,
    pub ty: Ty,
    /// Carries the explicit lifetime `'a` of the function.
    pub lt: bool,
}

#[derive(Clone, PartialEq, Debug, Default)]
pub struct Sig {
    pub args: Vec<Arg>,
    pub ret: Option<Ty>,
    pub ret_lt: RetLt,
    pub throws: bool,
    pub is_unsafe: bool,
}

#[derive(Clone, Copy, PartialEq, Debug, Default)]
pub enum RetLt {
    #[default]
    Elided,
    A,
    Static,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Name {
    /// Without the raw prefix.
    pub rust: String,
    pub cxx: String,
    pub ns: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct Field {
    pub rust: String,
    pub cxx: String,
    pub ty: Ty,
}

#[derive(Clone, Debug)]
pub struct Variant {
    pub rust: String,
    pub cxx: String,
    pub expr: Option<String>,
    pub value: i128,
}

#[derive(Clone, Debug)]
pub enum Kind {
    Struct { fields: Vec<Field>, lifetime: bool, external: bool },
    Enum { explicit: Option<Prim>, repr: Prim, variants: Vec<Variant>, external: bool },
    Rust { pad: usize },
    Cxx { pad: usize },
    /// Extern C++ type which Rust declares as trivially relocatable.
    Trivial { fields: Vec<Prim>, align: u32 },
}

#[derive(Clone, Debug)]
pub struct TypeDef {
    pub name: Name,
    pub kind: Kind,
    pub derives: Vec<&'static str>,
    /// Noise attributes and documentation for the Rust declaration.
    pub attrs: Vec<String>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Lang {
    Cxx,
    Rust,
}

#[derive(Clone, Debug)]
pub struct Func {
    pub name: Name,
    pub lang: Lang,
    /// Receiver type and whether it is mutable.
    pub recv: Option<(usize, bool)>,
    pub recv_lt: bool,
    pub sig: Sig,
    pub attrs: Vec<String>,
    /// C++ functions: declared noexcept.
    pub noexcept: bool,
    /// When the return type equals the type of this argument, return it.
    pub echo: Option<usize>,
}

#[derive(Clone, Debug, Default)]
pub struct Bridge {
    pub ns: Vec<String>,
    pub types: Vec<TypeDef>,
    pub fns: Vec<Func>,
    /// Order in which types are declared in the bridge.
    pub order: Vec<usize>,
    /// Seeds which vary the grouping of items into extern blocks.
    pub layout: u64,
    pub explicit_impls: Vec<Ty>,
    pub reuse_blocks: bool,
}

impl Bridge {
    pub fn has_lt(&self, t: &Ty) -> bool {
        self.lt_count(t) > 0
    }
    /// Number of lifetime positions in a type.
    pub fn lt_count(&self, t: &Ty) -> usize {
        match t {
            Ty::Str => 1,
            Ty::Ref(_, t) | Ty::Slice(_, t) => 1 + self.lt_count(t),
            Ty::T(i) => match self.types[*i].kind {
                Kind::Struct { lifetime: true, .. } => 1,
                _ => 0,
            },
            Ty::Vec(t) | Ty::Arr(t, _) | Ty::Uptr(t) | Ty::Sptr(t) | Ty::Wptr(t) | Ty::Cvec(t) | Ty::Ptr(_, t) => self.lt_count(t),
            _ => 0,
        }
    }
    pub fn opaque_cxx(&self, t: &Ty) -> bool {
        match t {
            Ty::CxxString | Ty::Cvec(_) => true,
            Ty::T(i) => matches!(self.types[*i].kind, Kind::Cxx { .. }),
            _ => false,
        }
    }
    pub fn sized(&self, t: &Ty) -> bool {
        match t {
            Ty::CxxString | Ty::Cvec(_) | Ty::Fn(_) => false,
            Ty::T(i) => !matches!(self.types[*i].kind, Kind::Cxx { .. } | Kind::Rust { .. }),
            Ty::Arr(t, _) => self.sized(t),
            _ => true,
        }
    }
    /// Every type mentioned anywhere, itself and its parts.
    pub fn visit(&self, f: &mut dyn FnMut(&Ty)) {
        for t in &self.types {
            if let Kind::Struct { fields, .. } = &t.kind {
                for fl in fields {
                    visit_ty(&fl.ty, f);
                }
            }
        }
        for func in &self.fns {
            visit_sig(&func.sig, f);
        }
        for t in &self.explicit_impls {
            visit_ty(t, f);
        }
    }
}

pub fn visit_sig(s: &Sig, f: &mut dyn FnMut(&Ty)) {
    for a in &s.args {
        visit_ty(&a.ty, f);
    }
    if let Some(r) = &s.ret {
        visit_ty(r, f);
    }
}

pub fn visit_ty(t: &Ty, f: &mut dyn FnMut(&Ty)) {
    f(t);
    match t {
        Ty::Vec(t) | Ty::Uptr(t) | Ty::Sptr(t) | Ty::Wptr(t) | Ty::Cvec(t) | Ty::Ref(_, t) | Ty::Slice(_, t) | Ty::Arr(t, _) | Ty::Ptr(_, t) => visit_ty(t, f),
        Ty::Fn(s) => visit_sig(s, f),
        _ => {}
    }
}
