//! C05: rust::Box.
use crate::boxes_ffi::ffi;
use crate::leak::balanced;
use crate::track::{born, died, live, reset, Tr};
use cxx::UniquePtr;
use pbt::{Outcome, Prop, Src};

/// Ordinary opaque Rust type with heap contents.
pub struct R { id: Box<u64>, name: String, bumps: u8 }
/// Zero-sized.
pub struct Z;
/// Over-aligned.
#[repr(align(64))]
pub struct Al { id: u64, bumps: u8 }

pub trait Ob: Sized {
    const HAS_ID: bool = true;
    fn mk(v: u64) -> Self;
}
impl Ob for R { fn mk(v: u64) -> R { born(v); R { id: Box::new(v), name: v.to_string(), bumps: 0 } } }
impl R {
    pub fn obj_id(&self) -> u64 { if self.name == self.id.to_string() { *self.id << 8 | u64::from(self.bumps) } else { u64::MAX } }
    pub fn obj_bump(&mut self) { self.bumps = self.bumps.wrapping_add(1) }
}
impl Drop for R { fn drop(&mut self) { died(*self.id) } }
impl Ob for Z { const HAS_ID: bool = false; fn mk(_: u64) -> Z { born(0); Z } }
impl Z {
    pub fn obj_id(&self) -> u64 { 0 }
    pub fn obj_bump(&mut self) {}
}
impl Drop for Z { fn drop(&mut self) { died(0) } }
impl Ob for Al { fn mk(v: u64) -> Al { born(v); Al { id: v, bumps: 0 } } }
impl Al {
    pub fn obj_id(&self) -> u64 { if (self as *const Al as usize) % 64 == 0 { self.id << 8 | u64::from(self.bumps) } else { u64::MAX } }
    pub fn obj_bump(&mut self) { self.bumps = self.bumps.wrapping_add(1) }
}
impl Drop for Al { fn drop(&mut self) { died(self.id) } }
impl Ob for ffi::S { fn mk(v: u64) -> ffi::S { ffi::S { val: v, t: Tr::new(v), name: v.to_string() } } }
impl ffi::S {
    /// The low byte of `val` holds the bumps for S.
    pub fn obj_id(&self) -> u64 {
        let v = self.t.get();
        if self.name == v.to_string() { v << 8 | self.val.wrapping_sub(v) } else { u64::MAX }
    }
    pub fn obj_bump(&mut self) { self.val = self.t.get().wrapping_add(u64::from(self.val.wrapping_sub(self.t.get()) as u8 + 1)) }
}

pub trait BLab: cxx::memory::UniquePtrTarget + Sized {
    type T: Ob;
    fn new() -> UniquePtr<Self>;
    fn op(l: &mut UniquePtr<Self>, op: u32, i: usize, j: usize, v: u64) -> i32;
    fn put(l: &mut UniquePtr<Self>, b: Box<Self::T>);
    fn take(l: &mut UniquePtr<Self>, i: usize) -> Box<Self::T>;
    fn peek(&self, i: usize) -> &Self::T;
    fn poke(l: &mut UniquePtr<Self>, i: usize) -> &mut Self::T;
    fn peek_box(&self, i: usize) -> &Box<Self::T>;
    fn poke_box(l: &mut UniquePtr<Self>, i: usize) -> &mut Box<Self::T>;
    fn id(&self, i: usize) -> u64;
    fn obj_id(t: &Self::T) -> u64;
    fn obj_bump(t: &mut Self::T);
}
macro_rules! impl_blab {
    ($l:ty, $t:ty, $new:path) => {
        impl crate::boxes::BLab for $l {
            type T = $t;
            fn new() -> cxx::UniquePtr<Self> { $new() }
            fn op(l: &mut cxx::UniquePtr<Self>, op: u32, i: usize, j: usize, v: u64) -> i32 { l.pin_mut().op(op, i, j, v) }
            fn put(l: &mut cxx::UniquePtr<Self>, b: Box<$t>) { l.pin_mut().put(b) }
            fn take(l: &mut cxx::UniquePtr<Self>, i: usize) -> Box<$t> { l.pin_mut().take(i) }
            fn peek(&self, i: usize) -> &$t { <$l>::peek(self, i) }
            fn poke(l: &mut cxx::UniquePtr<Self>, i: usize) -> &mut $t { l.pin_mut().poke(i) }
            fn peek_box(&self, i: usize) -> &Box<$t> { <$l>::peek_box(self, i) }
            fn poke_box(l: &mut cxx::UniquePtr<Self>, i: usize) -> &mut Box<$t> { l.pin_mut().poke_box(i) }
            fn id(&self, i: usize) -> u64 { <$l>::id(self, i) }
            fn obj_id(t: &$t) -> u64 { t.obj_id() }
            fn obj_bump(t: &mut $t) { t.obj_bump() }
        }
    };
}
pub(crate) use impl_blab;

/// Model of one box: (id, bumps).
type M = (u64, u8);

fn check_all<L: BLab>(lab: &UniquePtr<L>, boxes: &[M], raws: &[M], held: &[M], tracked: bool, what: &str) -> Outcome {
    if L::T::HAS_ID {
        for (k, (id, b)) in boxes.iter().enumerate() {
            let want = id << 8 | u64::from(*b);
            let got = lab.id(k);
            if got != want { return Err(format!("after {what}: box {k} holds {got:#x} in C++, expected {want:#x}")); }
            let got = L::obj_id(lab.peek(k));
            if got != want { return Err(format!("after {what}: box {k} holds {got:#x} in Rust, expected {want:#x}")); }
        }
    }
    if tracked {
        let mut want: Vec<u64> = boxes.iter().chain(raws).chain(held).map(|m| if L::T::HAS_ID { m.0 } else { 0 }).collect();
        want.sort_unstable();
        let got = live();
        if want != got { return Err(format!("after {what}: live objects {got:?}, expected {want:?}")); }
    }
    Ok(())
}

fn history<L: BLab>(s: &mut Src, copies: bool) -> Outcome {
    reset();
    let tracked = !copies;
    let mut lab = L::new();
    let (mut boxes, mut raws): (Vec<M>, Vec<M>) = (vec![], vec![]);
    let mut held: Vec<(Box<L::T>, M)> = vec![];
    let mut next = 1u64;
    let mut kinds = 0u64;
    for _ in 0..s.us(40) {
        let op = s.below(if copies { 33 } else { 28 }) as u32;
        let op = if op >= 28 { op - 8 } else if op >= 20 { op + 20 } else { op };
        let n = boxes.len();
        let mut i = if n > 0 { s.us(n) } else { 0 };
        let j = if n > 0 { s.us(n) } else { 0 };
        let needs = !matches!(op, 6 | 17..=19 | 40 | 41 | 47 | 21..=24);
        if needs && n == 0 { continue; }
        let val = next;
        let arm = if copies && matches!(op, 20 | 23 | 24) && s.coin() { 0 } else { -1 };
        let what = format!("op {op}(i={i}, j={j}, val={val}, throw={})", arm == 0);
        s.note(|| what.clone());
        let mut expect = 0;
        match op {
            1 => {
                if i == j { continue; }
                boxes[j] = boxes[i];
                boxes.remove(i);
            }
            2..=4 => boxes.swap(i, j),
            5 => { raws.push(boxes.remove(i)); }
            6 => {
                if raws.is_empty() { continue; }
                i = s.us(raws.len());
                boxes.push(raws.remove(i));
            }
            7 => { boxes.remove(i); }
            8 | 9 => boxes[i].1 = boxes[i].1.wrapping_add(1),
            0 | 10 | 14 | 15 => {}
            11 => { boxes[i] = (val, 0); next += 1; }
            12 => { boxes.remove(i); expect = 3; }
            13 => { boxes.remove(i); expect = 5; }
            16 => { let m = boxes.remove(i); let k = if j > i { j - 1 } else { j }; boxes.insert(k, m); }
            20 => { if arm < 0 { let m = boxes[i]; boxes.push(m); } else { expect = 3; } }
            21..=24 => { if arm < 0 { boxes.push((val, 0)); next += 1; } else { expect = 3; } }
            _ => {}
        }
        kinds |= 1 << op;
        match op {
            17 | 18 | 40 | 41 => { // create in Rust, hand over
                L::put(&mut lab, Box::new(L::T::mk(val)));
                boxes.push((val, 0));
                next += 1;
            }
            19 => { held.push((Box::new(L::T::mk(val)), (val, 0))); next += 1; }
            42 => { // take to Rust
                let b = L::take(&mut lab, i);
                let m = boxes.remove(i);
                held.push((b, m));
            }
            43 => { L::obj_bump(L::poke(&mut lab, i)); boxes[i].1 = boxes[i].1.wrapping_add(1); }
            44 => { // through &mut Box: replace, swap contents
                *L::poke_box(&mut lab, i) = Box::new(L::T::mk(val));
                boxes[i] = (val, 0);
                next += 1;
            }
            45 => {
                if let Some((b, m)) = held.last_mut() {
                    std::mem::swap(L::poke_box(&mut lab, i), b);
                    std::mem::swap(&mut boxes[i], m);
                }
            }
            46 => {
                let got = L::obj_id(L::peek_box(&lab, i));
                let want = boxes[i].0 << 8 | u64::from(boxes[i].1);
                if L::T::HAS_ID && got != want { return Err(format!("{what}: &Box reads {got:#x}, expected {want:#x}")); }
            }
            47 => { // give back or drop a held box
                if let Some((b, m)) = held.pop() {
                    if L::T::HAS_ID && L::obj_id(&b) != (m.0 << 8 | u64::from(m.1)) { return Err(format!("{what}: returned box holds {:#x}, expected {m:?}", L::obj_id(&b))); }
                    if s.coin() { L::put(&mut lab, b); boxes.push(m); } else { drop(b); }
                }
            }
            _ => {
                ffi::arm_copy(arm);
                let rc = L::op(&mut lab, op, i, j, val);
                ffi::arm_copy(-1);
                if rc != expect { return Err(format!("{what}: result {rc}, expected {expect} (0 ok, 3 other exception, 4 C++ expectation failed, 5 rust::Error)")); }
            }
        }
        let h: Vec<M> = held.iter().map(|x| x.1).collect();
        check_all(&lab, &boxes, &raws, &h, tracked, &what)?;
    }
    let h: Vec<M> = held.iter().map(|x| x.1).collect();
    drop(lab);
    if tracked {
        let mut want: Vec<u64> = h.iter().map(|m| if L::T::HAS_ID { m.0 } else { 0 }).collect();
        want.sort_unstable();
        if live() != want { return Err(format!("after destroying the C++ side: live objects {:?}, expected {want:?}", live())); }
    }
    drop(held);
    if tracked && !live().is_empty() { return Err(format!("objects never dropped: {:?}", live())); }
    if kinds.count_ones() >= 5 { s.nontrivial(); }
    Ok(())
}

fn in_struct(s: &mut Src) -> Outcome {
    reset();
    let mut model = ((1u64, 0u8), 0u8);
    let mut h = ffi::Hold { b: Box::new(R::mk(1)), s: Box::new(Ob::mk(2)), n: 0 };
    for k in 0..s.us(6) {
        let bump = s.coin();
        s.note(|| format!("round trip of a struct with Box fields, bump={bump}"));
        h = ffi::hold_round(h, bump);
        if bump { model.0 .1 += 1; model.1 += 1; }
        if k > 1 { s.nontrivial(); }
        if h.b.obj_id() != 1 << 8 | u64::from(model.0 .1) || h.s.obj_id() != 2 << 8 | u64::from(model.0 .1) || h.n != model.1 {
            return Err(format!("struct with Box fields came back as {:#x}/{:#x}/{}, expected {model:?}", h.b.obj_id(), h.s.obj_id(), h.n));
        }
    }
    drop(h);
    if !live().is_empty() { return Err("object in struct never dropped".into()); }
    Ok(())
}

macro_rules! case {
    ($n:expr, $q:expr, $t:expr, $f:expr) => { Prop { name: $n, quick: $q, thorough: $t, f: |s| balanced(s, $f) } };
}
pub fn c05() -> Vec<Prop> {
    vec![
        case!("opaque", 40_000, 2_000_000, |s| history::<ffi::BLabR>(s, false)),
        case!("zero_sized", 15_000, 500_000, |s| history::<ffi::BLabZ>(s, false)),
        case!("over_aligned", 15_000, 500_000, |s| history::<ffi::BLabAl>(s, false)),
        case!("shared_struct", 30_000, 1_000_000, |s| history::<ffi::BLabS>(s, true)),
        case!("struct_fields", 2_000, 50_000, in_struct),
    ]
}
