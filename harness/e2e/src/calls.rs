//! C12: whatever the signature, both sides of a call see the same values.
use crate::prog;
use bgen::gen::{bridge, Profile};
use bgen::render::Text;
use bgen::{Bridge, Kind, Ty};
use pbt::{Entry, Prop, Src};

pub fn entry_c12() -> Entry {
    Entry {
        id: "C12",
        rule: "A case is a generated bridge with all its functions called from the other language with generated values under ASan; non-trivial when it has calls in both directions and an argument or result which is not a primitive.",
        assumptions: &["x86-64 Linux ABI, clang 18 and rustc nightly-2025-04-08, libstdc++ 13.", "Values are compared by digests which include the addresses behind references and smart pointers."],
        props: vec![Prop { name: "signatures", quick: 96, thorough: 2400, f: signatures }],
    }
}

pub fn note_bridge(s: &mut Src, t: &Text) {
    let text = t.bridge("impl.h");
    s.key(text.as_bytes());
    s.note(|| text.clone());
}

pub fn nontrivial(b: &Bridge) -> bool {
    let dirs = b.fns.iter().any(|f| f.lang == bgen::Lang::Cxx) && b.fns.iter().any(|f| f.lang == bgen::Lang::Rust);
    dirs && b.fns.iter().any(|f| f.sig.args.iter().map(|a| &a.ty).chain(&f.sig.ret).any(|t| !matches!(t, Ty::Prim(_))))
}

fn signatures(s: &mut Src) -> Result<(), String> {
    let p = Profile::calls();
    let b = bridge(s, &p);
    let t = Text::new(b, "0", 1);
    note_bridge(s, &t);
    if nontrivial(&t.b) {
        s.nontrivial();
    }
    let seed = s.below(1 << 32);
    prog::exercise(&[t], 6, seed)?;
    Ok(())
}

#[allow(dead_code)]
fn unused(k: &Kind) -> bool {
    matches!(k, Kind::Rust { .. })
}
