//! C13: shared structs look the same from both languages.
use crate::calls::note_bridge;
use crate::prog::{self, Extra};
use bgen::gen::{bridge, Profile};
use bgen::render::{raw, Side, Text};
use bgen::{Kind, Ty};
use pbt::{Entry, Prop, Src};
use std::fmt::Write;

pub fn entry() -> Entry {
    Entry {
        id: "C13",
        rule: "A case is a generated set of shared structs; non-trivial when some struct has two fields of different types. Every struct's size, alignment, field offsets, field types and field values are taken in both languages, and values are created in each, read, copied and moved in the other.",
        assumptions: &["x86-64 Linux ABI, clang 18 and rustc nightly-2025-04-08."],
        props: vec![Prop { name: "layout", quick: 160, thorough: 2000, f: layout }],
    }
}

pub fn profile(s: &mut Src) -> Profile {
    let mut p = Profile::calls();
    p.structs = (2, 7);
    p.enums = (0, 3);
    p.rusts = (0, 2);
    p.cxxs = (0, 2);
    p.trivials = (0, 2);
    p.fns = (0, 4);
    p.fields = (1, 9);
    p.ptr_fields = true;
    p.plain_fields = s.coin();
    p.external = s.chance(1, 3);
    p.fancy = s.chance(1, 4);
    p.namespaces = p.fancy;
    p
}

fn layout(s: &mut Src) -> Result<(), String> {
    let p = profile(s);
    let b = bridge(s, &p);
    let t = Text::new(b, "0", 1);
    note_bridge(s, &t);
    let mixed = t.b.types.iter().any(|x| matches!(&x.kind, Kind::Struct { fields, .. } if fields.iter().any(|f| f.ty != fields[0].ty)));
    if mixed {
        s.nontrivial();
    }
    let seed = s.below(1 << 32);
    let extra = extra(&t);
    prog::exercise_with(&[t], &extra, 4, seed)?;
    Ok(())
}

fn extra(t: &Text) -> Extra {
    let b = &t.b;
    let mut x = Extra::default();
    x.cc += "template <typename T> using Id = T;\n";
    for (i, td) in b.types.iter().enumerate() {
        let id = 200_000 + i as u32;
        let c = t.qualified(&td.name);
        let r = &mut x.rust;
        match &td.kind {
            Kind::Struct { fields, external, .. } => {
                let ty = t.rs(&Ty::T(i), Side::User, Some("'static"));
                let _ = writeln!(r, "extern \"C\" {{ fn lab_layout_{i}(); fn lab_read_{i}(p: *mut ::core::ffi::c_void); fn lab_make_{i}(p: *mut ::core::ffi::c_void, seed: u64); }}");
                let _ = writeln!(r, "pub fn layout_{i}(seed: u64) {{ type S = {ty};\n::lab::a({}, ::core::mem::size_of::<S>() as u64); ::lab::a({}, ::core::mem::align_of::<S>() as u64);", id << 8, id << 8 | 1);
                for f in fields {
                    let _ = writeln!(r, "::lab::a({}, ::core::mem::offset_of!(S, {}) as u64);", id << 8 | 2, raw(&f.rust));
                }
                let _ = writeln!(r, "unsafe {{ lab_layout_{i}(); }}\nlet mut v: S = ::lab::mk(seed);");
                for _ in 0..3 {
                    for f in fields {
                        let _ = writeln!(r, "::lab::a({}, ::lab::dig(&v.{}));", id << 8 | 3, raw(&f.rust));
                    }
                }
                // Three readings in C++: in place, of a copy, and in place again.
                let _ = writeln!(r, "unsafe {{ lab_read_{i}(&raw mut v as *mut _); }} ::core::mem::drop(v);");
                let _ = writeln!(r, "let mut m = ::core::mem::MaybeUninit::<S>::uninit(); let v: S = unsafe {{ lab_make_{i}(m.as_mut_ptr() as *mut _, ::lab::mix(seed, 3)); m.assume_init() }};");
                for f in fields {
                    let _ = writeln!(r, "::lab::b({}, ::lab::dig(&v.{}));", id << 8 | 4, raw(&f.rust));
                }
                *r += "}\n";
                let cc = &mut x.cc;
                for f in fields {
                    let _ = writeln!(cc, "static_assert(std::is_same<decltype({c}::{}), {}>::value, \"field type\");", f.cxx, t.cx(&f.ty));
                }
                let _ = writeln!(cc, "extern \"C\" void lab_layout_{i}() {{ lab_b({}, sizeof({c})); lab_b({}, alignof({c}));", id << 8, id << 8 | 1);
                for f in fields {
                    let _ = writeln!(cc, "lab_b({}, offsetof({c}, {}));", id << 8 | 2, f.cxx);
                }
                *cc += "}\n";
                let reads = |tag: u32, f: &str| -> String { fields.iter().map(|x| format!("lab_{f}({}, ::lab::M<{}>::dig(v.{}));\n", id << 8 | tag, t.cx(&x.ty), x.cxx)).collect() };
                let _ = writeln!(cc, "static void lab_fields_{i}({c} const &v) {{\n{}}}", reads(3, "b"));
                let _ = writeln!(
                    cc,
                    "template <typename T> static void lab_copy_{i}(T *p) {{ if constexpr (std::is_trivially_copyable<T>::value && std::is_copy_constructible<T>::value) {{ T copy(*p); lab_fields_{i}(copy); T second = copy; std::memset((void *)p, 0xa5, sizeof(T)); new (p) T(second); }} else {{ T moved(std::move(*p)); lab_fields_{i}(moved); p->~T(); new (p) T(std::move(moved)); }} }}"
                );
                let _ = writeln!(cc, "extern \"C\" void lab_read_{i}(void *q) {{ auto *p = static_cast<{c} *>(q); lab_fields_{i}(*p); lab_copy_{i}(p); lab_fields_{i}(*p); }}");
                // Where C++ can create one without values, primitive fields start at zero.
                let zero: String = fields
                    .iter()
                    .filter(|f| !*external && matches!(f.ty, Ty::Prim(_) | Ty::Ptr(..)))
                    .map(|f| format!("lab_a({0}, ::lab::M<{1}>::dig(v.{2})); lab_b({0}, ::lab::M<{1}>::dig(Id<{1}>()));\n", id << 8 | 5, t.cx(&f.ty), f.cxx))
                    .collect();
                let _ = writeln!(cc, "template <typename T> static typename std::enable_if<std::is_default_constructible<T>::value>::type lab_default_{i}() {{ void *p = ::operator new(sizeof(T), std::align_val_t(alignof(T))); std::memset(p, 0x5a, sizeof(T)); T &v = *new (p) T; {zero} v.~T(); ::operator delete(p, std::align_val_t(alignof(T))); }}\ntemplate <typename T> static typename std::enable_if<!std::is_default_constructible<T>::value>::type lab_default_{i}() {{}}\n");
                let _ = writeln!(cc, "extern \"C\" void lab_make_{i}(void *p, std::uint64_t seed) {{ lab_default_{i}<{c}>(); auto &v = *new (p) {c}(::lab::M<{c}>::mk(seed));\n{}}}", reads(4, "a"));
            }
            Kind::Rust { .. } => {
                let ty = t.rs(&Ty::T(i), Side::User, None);
                let _ = writeln!(r, "extern \"C\" {{ fn lab_layout_{i}(); }}\npub fn layout_{i}(_: u64) {{ ::lab::a({}, ::core::mem::size_of::<{ty}>() as u64); ::lab::a({}, ::core::mem::align_of::<{ty}>() as u64); unsafe {{ lab_layout_{i}() }} }}", id << 8, id << 8 | 1);
                let _ = writeln!(x.cc, "extern \"C\" void lab_layout_{i}() {{ lab_b({}, ::rust::size_of<{c}>()); lab_b({}, ::rust::align_of<{c}>()); }}", id << 8, id << 8 | 1);
            }
            _ => continue,
        }
        x.drives.push((id, format!("layout_{i}"), format!("the layout of {}", td.name.rust)));
    }
    x
}
