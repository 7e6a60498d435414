//! C03 and C04: rust::Vec and rust::Slice.
use crate::leak::balanced;
use crate::vecs_ffi::ffi;
use cxx::UniquePtr;
use pbt::{Outcome, Prop, Src};

extern "C" {
    fn lab_free_u64(p: *mut u64);
}

/// By-value extern type owning a heap block allocated by C++.
#[repr(C)]
pub struct Thrower {
    owned: *mut u64,
}
unsafe impl cxx::ExternType for Thrower {
    type Id = cxx::type_id!("lab::Thrower");
    type Kind = cxx::kind::Trivial;
}
impl Drop for Thrower {
    fn drop(&mut self) {
        unsafe { lab_free_u64(self.owned) }
    }
}
extern "C" {
    fn lab_new_u64(v: u64) -> *mut u64;
}

/// Opaque Rust type of an odd size, holding heap data.
pub struct Opq {
    id: Box<u64>,
    pad: [u8; 13],
}
impl Opq {
    pub fn new(v: u64) -> Opq {
        Opq { id: Box::new(v), pad: [v as u8; 13] }
    }
    pub fn opq_id(&self) -> u64 {
        if self.pad.iter().all(|p| *p == *self.id as u8) { *self.id } else { u64::MAX }
    }
    pub fn opq_bump(&mut self) {
        *self.id += 1;
        self.pad = [*self.id as u8; 13];
    }
}

pub trait El: Sized {
    fn mk(v: u64) -> Self;
    fn id(&self) -> u64;
    /// The payload which survives in this element type.
    fn norm(v: u64) -> u64;
}
macro_rules! el_int { ($($t:ty),*) => { $(impl El for $t {
    fn mk(v: u64) -> Self { v as $t }
    fn id(&self) -> u64 { *self as u64 }
    fn norm(v: u64) -> u64 { v as $t as u64 }
})* } }
el_int!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
impl El for f32 {
    fn mk(v: u64) -> f32 { (v & 0xff_ffff) as f32 + 0.5 }
    fn id(&self) -> u64 { *self as u64 }
    fn norm(v: u64) -> u64 { Self::mk(v).id() }
}
impl El for f64 {
    fn mk(v: u64) -> f64 { (v & 0xffff_ffff_ffff) as f64 + 0.5 }
    fn id(&self) -> u64 { *self as u64 }
    fn norm(v: u64) -> u64 { Self::mk(v).id() }
}
impl El for bool {
    fn mk(v: u64) -> bool { v & 1 == 1 }
    fn id(&self) -> u64 { u64::from(*self) }
    fn norm(v: u64) -> u64 { v & 1 }
}
impl El for String {
    fn mk(v: u64) -> String { format!("s{v}") }
    fn id(&self) -> u64 { self.get(1..).and_then(|x| x.parse().ok()).unwrap_or(u64::MAX) }
    fn norm(v: u64) -> u64 { v }
}
impl El for ffi::Pod {
    fn mk(v: u64) -> Self { ffi::Pod { a: v as u8, b: v as u32, c: (v >> 32) as u16 } }
    fn id(&self) -> u64 { if self.a == self.b as u8 { u64::from(self.c) << 32 | u64::from(self.b) } else { u64::MAX } }
    fn norm(v: u64) -> u64 { v & 0xffff_ffff_ffff }
}
impl El for ffi::Elem {
    fn mk(v: u64) -> Self { ffi::Elem { id: v, name: format!("name {v}"), more: (0..v % 4).map(|k| (v + k) as u16).collect() } }
    fn id(&self) -> u64 {
        if self.name == format!("name {}", self.id) && self.more == (0..self.id % 4).map(|k| (self.id + k) as u16).collect::<Vec<_>>() { self.id } else { u64::MAX }
    }
    fn norm(v: u64) -> u64 { v }
}
impl El for ffi::Th {
    fn mk(v: u64) -> Self { ffi::Th { id: v, t: Thrower { owned: unsafe { lab_new_u64(v) } } } }
    fn id(&self) -> u64 { if !self.t.owned.is_null() && unsafe { *self.t.owned } == self.id { self.id } else { u64::MAX } }
    fn norm(v: u64) -> u64 { v }
}

pub trait Lab: Sized + cxx::memory::UniquePtrTarget {
    type T: El;
    fn new() -> UniquePtr<Self>;
    fn op(l: &mut UniquePtr<Self>, op: u32, i: usize, j: usize, n: usize, val: u64) -> i32;
    fn ids(&self, i: usize) -> Vec<u64>;
    fn observe(&self, i: usize) -> String;
    fn get(&self, i: usize) -> &Vec<Self::T>;
    fn get_mut(l: &mut UniquePtr<Self>, i: usize) -> &mut Vec<Self::T>;
    fn put(l: &mut UniquePtr<Self>, i: usize, v: Vec<Self::T>);
    fn take(l: &mut UniquePtr<Self>, i: usize) -> Vec<Self::T>;
    fn slice(&self, i: usize, from: usize, to: usize) -> &[Self::T];
    fn slice_mut(l: &mut UniquePtr<Self>, i: usize, from: usize, to: usize) -> &mut [Self::T];
    fn probe(&self, s: &[Self::T], prog: &[u8]) -> String;
    fn scribble(l: &mut UniquePtr<Self>, s: &mut [Self::T], base: u64);
}

macro_rules! impl_lab {
    ($l:ty, $t:ty, $new:path) => {
        impl crate::vecs::Lab for $l {
            type T = $t;
            fn new() -> cxx::UniquePtr<Self> { $new() }
            fn op(l: &mut cxx::UniquePtr<Self>, op: u32, i: usize, j: usize, n: usize, val: u64) -> i32 { l.pin_mut().op(op, i, j, n, val) }
            fn ids(&self, i: usize) -> Vec<u64> { <$l>::ids(self, i) }
            fn observe(&self, i: usize) -> String { <$l>::observe(self, i) }
            fn get(&self, i: usize) -> &Vec<$t> { <$l>::get(self, i) }
            fn get_mut(l: &mut cxx::UniquePtr<Self>, i: usize) -> &mut Vec<$t> { l.pin_mut().vec_mut(i) }
            fn put(l: &mut cxx::UniquePtr<Self>, i: usize, v: Vec<$t>) { l.pin_mut().put(i, v) }
            fn take(l: &mut cxx::UniquePtr<Self>, i: usize) -> Vec<$t> { l.pin_mut().take(i) }
            fn slice(&self, i: usize, from: usize, to: usize) -> &[$t] { <$l>::slice(self, i, from, to) }
            fn slice_mut(l: &mut cxx::UniquePtr<Self>, i: usize, from: usize, to: usize) -> &mut [$t] { l.pin_mut().slice_mut(i, from, to) }
            fn probe(&self, s: &[$t], prog: &[u8]) -> String { <$l>::probe(self, s, prog) }
            fn scribble(l: &mut cxx::UniquePtr<Self>, s: &mut [$t], base: u64) { l.pin_mut().scribble(s, base) }
        }
    };
}
pub(crate) use impl_lab;

const SLOTS: usize = 3;
const OK: i32 = 0;
const OUT_OF_RANGE: i32 = 2;

fn want(rc: i32, expect: i32, what: &str) -> Outcome {
    if rc == expect {
        Ok(())
    } else {
        Err(format!("{what}: result code {rc} (0 ok, 2 out_of_range, 3 other exception, 4 C++-side expectation failed), expected {expect}"))
    }
}

fn history<L: Lab>(s: &mut Src, throws: bool) -> Outcome {
    let mut lab = L::new();
    let mut model: Vec<Option<Vec<u64>>> = vec![None; SLOTS];
    let mut unspec = [false; SLOTS];
    let nops = s.us(50);
    let mut kinds = 0u64;
    let norm = <L::T as El>::norm;
    for _ in 0..nops {
        let mut op = s.below(40) as u32;
        let mut i = s.us(SLOTS);
        let j = s.us(SLOTS);
        let has = |k: usize| model[k].is_some();
        let needs_i = !matches!(op, 0..=3 | 28 | 29);
        let needs_j = matches!(op, 2..=7 | 24);
        if (needs_i && !has(i)) || (needs_j && !has(j)) {
            // Create the missing operand instead.
            if has(i) || !needs_i { i = j; }
            op = 28;
        }
        if op == 3 && i == j { continue; }
        let len = model[i].as_ref().map_or(0, Vec::len);
        let needs_elem = matches!(op, 14 | 16 | 19 | 20 | 25);
        if needs_elem && len == 0 { continue; }
        let val = if matches!(op, 1 | 8..=10 | 14..=16 | 20 | 22 | 23 | 28 | 30 | 32) { if s.coin() { s.below(64) } else { s.below(1 << 47) } } else { 0 };
        let n = match op {
            11 => s.us(len * 2 + 40),
            12 => s.us(len + 4),
            14 | 19 | 20 | 25 => s.us(len),
            15 => s.us(len + 2),
            22 | 28 => s.size(20),
            27 => s.us(len + 1),
            32 | 34 => s.us(len + 1),
            _ => 0,
        };
        // Throwing copies: only for operations which copy elements.
        let arm = if throws && matches!(op, 2 | 4 | 8 | 19 | 25 | 24) && s.chance(1, 3) { s.us(4) as i64 } else { -1 };
        let what = format!("op {op}(i={i}, j={j}, n={n}, val={val}, throw_at={arm})");
        s.note(|| what.clone());
        kinds |= 1 << op;
        ffi::arm_throw(arm);
        if arm >= 0 {
            let before = model.clone();
            let rc = L::op(&mut lab, op, i, j, n, val);
            ffi::arm_throw(-1);
            if rc == OK {
                // Fewer copies than armed: fall through to normal modelling.
            } else {
                want(rc, 3, &what)?;
                // Basic guarantee: every vector stays usable; the target of an
                // assignment has unspecified contents, others are unchanged.
                if matches!(op, 4 | 24) {
                    // The target of a failed assignment may hold anything valid.
                    unspec[i] = true;
                }
                model = before;
                verify::<L>(&mut lab, &mut model, &mut unspec, &what, true)?;
                continue;
            }
        }
        let run = |lab: &mut UniquePtr<L>, expect: i32| if arm >= 0 { Ok(()) } else { want(L::op(lab, op, i, j, n, val), expect, &what) };
        match op {
            0 => { run(&mut lab, OK)?; model[i] = Some(vec![]); }
            1 => { run(&mut lab, OK)?; model[i] = Some(vec![norm(val), norm(val + 1), norm(val + 2)]); }
            2 | 4 => { run(&mut lab, OK)?; model[i] = model[j].clone(); }
            3 => { run(&mut lab, OK)?; model[i] = model[j].clone(); unspec[j] = true; }
            5 => {
                run(&mut lab, OK)?;
                if i != j { model[i] = model[j].clone(); }
                unspec[j] = true;
            }
            6 | 7 => { run(&mut lab, OK)?; model.swap(i, j); }
            8 | 9 | 10 | 23 => { run(&mut lab, OK)?; model[i].as_mut().unwrap().push(norm(val)); }
            11 => { run(&mut lab, OK)?; }
            12 => { run(&mut lab, OK)?; model[i].as_mut().unwrap().truncate(n); }
            13 => { run(&mut lab, OK)?; model[i].as_mut().unwrap().clear(); }
            14 => { run(&mut lab, OK)?; model[i].as_mut().unwrap()[n] = norm(val); }
            15 => {
                run(&mut lab, if n < len { OK } else { OUT_OF_RANGE })?;
                if n < len { model[i].as_mut().unwrap()[n] = norm(val); }
            }
            16 => {
                run(&mut lab, OK)?;
                let m = model[i].as_mut().unwrap();
                m[0] = norm(val);
                *m.last_mut().unwrap() = norm(val + 1);
            }
            17 => { run(&mut lab, OK)?; model[i].as_mut().unwrap().sort_unstable(); }
            18 => { run(&mut lab, OK)?; model[i].as_mut().unwrap().reverse(); }
            19 | 25 => { run(&mut lab, OK)?; let m = model[i].as_mut().unwrap(); let x = m[n]; m.push(x); }
            20 => { run(&mut lab, OK)?; let m = model[i].as_mut().unwrap(); let x = m[n]; m.push(x); m[n] = norm(val); }
            21 => { run(&mut lab, OK)?; model[i] = None; }
            22 => { run(&mut lab, OK)?; model[i].as_mut().unwrap().extend((0..n as u64).map(|k| norm(val + k))); }
            24 => { run(&mut lab, OK)?; model[i] = model[j].clone(); }
            26 => { run(&mut lab, OK)?; }
            27 => { run(&mut lab, OK)?; model[i].as_mut().unwrap().rotate_left(n); }
            // Rust-side operations.
            28 => {
                let mut v: Vec<L::T> = (0..n as u64).map(|k| L::T::mk(val + k)).collect();
                if n % 2 == 1 { v.reserve_exact(3); }
                L::put(&mut lab, i, v);
                model[i] = Some((0..n as u64).map(|k| norm(val + k)).collect());
            }
            29 => { L::put(&mut lab, i, Vec::new()); model[i] = Some(vec![]); }
            30 => { L::get_mut(&mut lab, i).push(L::T::mk(val)); model[i].as_mut().unwrap().push(norm(val)); }
            31 => {
                let a = L::get_mut(&mut lab, i).pop().map(|x| x.id());
                let b = model[i].as_mut().unwrap().pop();
                if a != b { return Err(format!("{what}: Rust pop gave {a:?}, model {b:?}")); }
            }
            32 => { L::get_mut(&mut lab, i).insert(n, L::T::mk(val)); model[i].as_mut().unwrap().insert(n, norm(val)); }
            33 => { L::get_mut(&mut lab, i).shrink_to_fit(); }
            34 => {
                let d: Vec<u64> = L::get_mut(&mut lab, i).drain(..n).map(|x| x.id()).collect();
                let e: Vec<u64> = model[i].as_mut().unwrap().drain(..n).collect();
                if d != e { return Err(format!("{what}: drained {d:?}, model {e:?}")); }
            }
            35 => {
                let v = L::take(&mut lab, i);
                let got: Vec<u64> = v.iter().map(El::id).collect();
                if &got != model[i].as_ref().unwrap() { return Err(format!("{what}: took {got:?}, model {:?}", model[i])); }
                unspec[i] = true;
                if s.coin() { L::put(&mut lab, i, v); unspec[i] = false; }
            }
            36 => {
                // A sub-slice lent to Rust and probed with random iterator arithmetic.
                let a = s.us(len + 1);
                let b = a + s.us(len - a + 1);
                let prog: Vec<u8> = (0..s.size(24)).map(|_| s.below(256) as u8).collect();
                let sl = lab.slice(i, a, b);
                let got: Vec<u64> = sl.iter().map(El::id).collect();
                if got != model[i].as_ref().unwrap()[a..b] { return Err(format!("{what}: slice {a}..{b} is {got:?}")); }
                let m = lab.probe(sl, &prog);
                if !m.is_empty() { return Err(format!("{what}: slice {a}..{b} program {prog:?}: {m}")); }
            }
            37 => {
                let a = s.us(len + 1);
                let b = a + s.us(len - a + 1);
                let base = s.below(1 << 20);
                let p: *mut [L::T] = L::slice_mut(&mut lab, i, a, b);
                let got: Vec<u64> = unsafe { &*p }.iter().map(El::id).collect();
                if got != model[i].as_ref().unwrap()[a..b] { return Err(format!("{what}: mutable slice {a}..{b} is {got:?}")); }
                L::scribble(&mut lab, unsafe { &mut *p }, base);
                for k in a..b { model[i].as_mut().unwrap()[k] = norm(base + (k - a) as u64); }
            }
            38 => {
                // Rust's own slice (not a Vec's buffer) seen from C++.
                let arr = [L::T::mk(3), L::T::mk(1), L::T::mk(2)];
                let k = s.us(4);
                let prog: Vec<u8> = (0..s.size(16)).map(|_| s.below(256) as u8).collect();
                let m = lab.probe(&arr[..k], &prog);
                if !m.is_empty() { return Err(format!("{what}: Rust array slice ..{k}: {m}")); }
            }
            _ => {
                let v = lab.get(i);
                let got: Vec<u64> = v.iter().map(El::id).collect();
                if &got != model[i].as_ref().unwrap() || v.capacity() < v.len() { return Err(format!("{what}: Rust sees {got:?}")); }
            }
        }
        let observe = s.chance(1, 8);
        verify::<L>(&mut lab, &mut model, &mut unspec, &what, observe)?;
    }
    verify::<L>(&mut lab, &mut model, &mut unspec, "the end", true)?;
    if kinds.count_ones() >= 5 { s.nontrivial(); }
    Ok(())
}

fn verify<L: Lab>(lab: &mut UniquePtr<L>, model: &mut [Option<Vec<u64>>], unspec: &mut [bool], what: &str, observe: bool) -> Outcome {
    for i in 0..SLOTS {
        if model[i].is_none() { continue; }
        let got = lab.ids(i);
        if unspec[i] {
            // Moved-from: usable, contents unspecified; every element must still be a valid one.
            let rust: Vec<u64> = lab.get(i).iter().map(El::id).collect();
            if rust != got { return Err(format!("after {what}: moved-from Vec {i} is {got:?} in C++ but {rust:?} in Rust")); }
            model[i] = Some(got.clone());
            unspec[i] = false;
        }
        let m = model[i].as_ref().unwrap();
        if &got != m { return Err(format!("after {what}: Vec {i} holds {got:?}, model {m:?}")); }
        let rust: Vec<u64> = lab.get(i).iter().map(El::id).collect();
        if &rust != m { return Err(format!("after {what}: Vec {i} read from Rust is {rust:?}, model {m:?}")); }
        if observe && got.len() < 60 {
            let o = lab.observe(i);
            if !o.is_empty() { return Err(format!("after {what}: Vec {i}: {o}")); }
        }
    }
    Ok(())
}

fn opaque_history(s: &mut Src) -> Outcome {
    let mut lab = ffi::new_opq();
    let mut model: Vec<Option<Vec<u64>>> = vec![None; SLOTS];
    let nops = s.us(40);
    let mut kinds = 0u64;
    for _ in 0..nops {
        let mut op = *s.pick(&[0u32, 3, 5, 6, 7, 11, 12, 13, 14, 21, 23, 26, 28, 30, 31, 35, 36, 37]);
        let mut i = s.us(SLOTS);
        let j = s.us(SLOTS);
        let needs_i = !matches!(op, 0 | 3 | 28);
        let needs_j = matches!(op, 3 | 5..=7);
        if (needs_i && model[i].is_none()) || (needs_j && model[j].is_none()) {
            if model[i].is_some() || !needs_i { i = j; }
            op = 28;
        }
        if matches!(op, 3 | 5) && i == j { continue; }
        let len = model[i].as_ref().map_or(0, Vec::len);
        let n = match op { 11 => s.us(60), 12 => s.us(len + 3), 14 => s.us(len + 2), 23 | 30 => s.below(1000) as usize, 28 => s.us(8), _ => 0 };
        let what = format!("opaque op {op}(i={i}, j={j}, n={n})");
        s.note(|| what.clone());
        kinds |= 1 << op;
        let run = |lab: &mut UniquePtr<ffi::OLab>, expect| want(lab.pin_mut().op(op, i, j, n), expect, &what);
        match op {
            0 => { run(&mut lab, OK)?; model[i] = Some(vec![]); }
            3 | 5 => { run(&mut lab, OK)?; model[i] = model[j].clone(); model[j] = Some(lab.get(j).iter().map(Opq::opq_id).collect()); }
            6 | 7 => { run(&mut lab, OK)?; model.swap(i, j); }
            11 | 26 => run(&mut lab, OK)?,
            12 => { run(&mut lab, OK)?; model[i].as_mut().unwrap().truncate(n); }
            13 => { run(&mut lab, OK)?; model[i].as_mut().unwrap().clear(); }
            14 => { run(&mut lab, if n < len { OK } else { OUT_OF_RANGE })?; if n < len { model[i].as_mut().unwrap()[n] += 1; } }
            21 => { run(&mut lab, OK)?; model[i] = None; }
            23 => { run(&mut lab, OK)?; model[i].as_mut().unwrap().push(n as u64); }
            28 => { lab.pin_mut().put(i, (0..n as u64).map(|k| Opq::new(k * 7)).collect()); model[i] = Some((0..n as u64).map(|k| k * 7).collect()); }
            30 => { lab.pin_mut().vec_mut(i).push(Opq::new(n as u64)); model[i].as_mut().unwrap().push(n as u64); }
            31 => { let a = lab.pin_mut().vec_mut(i).pop().map(|o| o.opq_id()); let b = model[i].as_mut().unwrap().pop(); if a != b { return Err(format!("{what}: popped {a:?}, model {b:?}")); } }
            35 => {
                let v = lab.pin_mut().take(i);
                let got: Vec<u64> = v.iter().map(Opq::opq_id).collect();
                if &got != model[i].as_ref().unwrap() { return Err(format!("{what}: took {got:?}")); }
                model[i] = Some(lab.get(i).iter().map(Opq::opq_id).collect());
            }
            36 => {
                let a = s.us(len + 1);
                let b = a + s.us(len - a + 1);
                let prog: Vec<u8> = (0..s.size(20)).map(|_| s.below(256) as u8).collect();
                let sl = lab.slice(i);
                let got: Vec<u64> = sl.iter().map(Opq::opq_id).collect();
                if &got != model[i].as_ref().unwrap() { return Err(format!("{what}: slice is {got:?}")); }
                let m = lab.probe(&sl[a..b], &prog);
                if !m.is_empty() { return Err(format!("{what}: {a}..{b} {prog:?}: {m}")); }
            }
            _ => {
                let a = s.us(len + 1);
                let b = a + s.us(len - a + 1);
                let mut own: Vec<Opq> = model[i].as_ref().unwrap()[a..b].iter().map(|v| Opq::new(*v)).collect();
                lab.pin_mut().bump(&mut own);
                let got: Vec<u64> = own.iter().map(Opq::opq_id).collect();
                let exp: Vec<u64> = model[i].as_ref().unwrap()[a..b].iter().map(|v| v + 1).collect();
                if got != exp { return Err(format!("{what}: bump through a mutable slice gave {got:?}, expected {exp:?}")); }
            }
        }
        let observe = s.chance(1, 8);
        for k in 0..SLOTS {
            let Some(m) = &model[k] else { continue };
            let got = lab.ids(k);
            let rust: Vec<u64> = lab.get(k).iter().map(Opq::opq_id).collect();
            if &got != m || &rust != m { return Err(format!("after {what}: Vec {k} is {got:?} in C++, {rust:?} in Rust, model {m:?}")); }
            if !observe { continue; }
            let o = lab.observe(k);
            if !o.is_empty() { return Err(format!("after {what}: Vec {k}: {o}")); }
        }
    }
    if kinds.count_ones() >= 4 { s.nontrivial(); }
    Ok(())
}

macro_rules! hist { ($($name:ident: $l:ident),*) => { $( fn $name(s: &mut Src) -> Outcome { history::<ffi::$l>(s, false) } )* } }
hist!(h_u8: VLab_u8, h_u16: VLab_u16, h_u32: VLab_u32, h_u64: VLab_u64, h_us: VLab_us, h_i8: VLab_i8, h_i16: VLab_i16, h_i32: VLab_i32, h_i64: VLab_i64, h_iz: VLab_iz,
      h_f32: VLab_f32, h_f64: VLab_f64, h_bo: VLab_bo, h_st: VLab_st, h_pod: VLab_pod, h_el: VLab_el);
fn h_th(s: &mut Src) -> Outcome {
    history::<ffi::VLab_th>(s, true)
}
fn h_num(s: &mut Src) -> Outcome {
    let k = s.below(13);
    s.note(|| format!("element type #{k}"));
    match k {
        0 => h_u8(s), 1 => h_u16(s), 2 => h_u32(s), 3 => h_u64(s), 4 => h_us(s), 5 => h_i8(s), 6 => h_i16(s), 7 => h_i32(s), 8 => h_i64(s), 9 => h_iz(s),
        10 => h_f32(s), 11 => h_f64(s), _ => h_bo(s),
    }
}

pub fn c03() -> Vec<Prop> {
    vec![
        Prop { name: "numeric", quick: 9_000, thorough: 400_000, f: |s| balanced(s, h_num) },
        Prop { name: "string", quick: 3_000, thorough: 200_000, f: |s| balanced(s, h_st) },
        Prop { name: "pod", quick: 1_500, thorough: 200_000, f: |s| balanced(s, h_pod) },
        Prop { name: "struct", quick: 3_000, thorough: 200_000, f: |s| balanced(s, h_el) },
        Prop { name: "throwing_copy", quick: 3_000, thorough: 200_000, f: |s| balanced(s, h_th) },
        Prop { name: "opaque", quick: 2_500, thorough: 200_000, f: |s| balanced(s, opaque_history) },
    ]
}

/// Slices of every element category, cut from C++ buffers and Rust buffers.
fn slice_case<L: Lab>(s: &mut Src) -> Outcome {
    let mut lab = L::new();
    let n = s.us(24);
    let base = s.below(1 << 30);
    let norm = <L::T as El>::norm;
    L::put(&mut lab, 0, (0..n as u64).map(|k| L::T::mk(base + k * 3)).collect());
    let mut model: Vec<u64> = (0..n as u64).map(|k| norm(base + k * 3)).collect();
    for _ in 0..s.us(4) {
        let a = s.us(n + 1);
        let b = a + s.us(n - a + 1);
        let prog: Vec<u8> = (0..2 * s.us(20)).map(|_| s.below(256) as u8).collect();
        let which = s.below(3);
        s.note(|| format!("len {n} slice {a}..{b} kind {which} program {prog:?}"));
        if b - a >= 2 && prog.len() >= 6 { s.nontrivial(); }
        match which {
            0 => {
                let sl = lab.slice(0, a, b);
                let got: Vec<u64> = sl.iter().map(El::id).collect();
                if got != model[a..b] { return Err(format!("slice {a}..{b} from C++ is {got:?}, expected {:?}", &model[a..b])); }
                let m = lab.probe(sl, &prog);
                if !m.is_empty() { return Err(format!("slice {a}..{b} program {prog:?}: {m}")); }
            }
            1 => {
                let own: Vec<L::T> = model[a..b].iter().map(|v| L::T::mk(*v)).collect();
                let m = lab.probe(&own, &prog);
                if !m.is_empty() { return Err(format!("Rust slice of {} program {prog:?}: {m}", b - a)); }
            }
            _ => {
                let b2 = s.below(1 << 20);
                let mut own: Vec<L::T> = model[a..b].iter().map(|v| L::T::mk(*v)).collect();
                L::scribble(&mut lab, &mut own, b2);
                let got: Vec<u64> = own.iter().map(El::id).collect();
                let exp: Vec<u64> = (0..(b - a) as u64).map(|k| norm(b2 + k)).collect();
                if got != exp { return Err(format!("C++ writes through a mutable slice: {got:?}, expected {exp:?}")); }
                let p: *mut [L::T] = L::slice_mut(&mut lab, 0, a, b);
                L::scribble(&mut lab, unsafe { &mut *p }, b2);
                for k in a..b { model[k] = norm(b2 + (k - a) as u64); }
                if lab.ids(0) != model { return Err(format!("after writing through {a}..{b} the buffer is {:?}, expected {model:?}", lab.ids(0))); }
            }
        }
    }
    Ok(())
}
fn s_all(s: &mut Src) -> Outcome {
    let k = s.below(16);
    s.note(|| format!("element type #{k}"));
    match k {
        0 => slice_case::<ffi::VLab_u8>(s), 1 => slice_case::<ffi::VLab_u16>(s), 2 => slice_case::<ffi::VLab_u32>(s), 3 => slice_case::<ffi::VLab_u64>(s),
        4 => slice_case::<ffi::VLab_us>(s), 5 => slice_case::<ffi::VLab_i8>(s), 6 => slice_case::<ffi::VLab_i16>(s), 7 => slice_case::<ffi::VLab_i32>(s),
        8 => slice_case::<ffi::VLab_i64>(s), 9 => slice_case::<ffi::VLab_iz>(s), 10 => slice_case::<ffi::VLab_f32>(s), 11 => slice_case::<ffi::VLab_f64>(s),
        12 => slice_case::<ffi::VLab_bo>(s), 13 => slice_case::<ffi::VLab_st>(s), 14 => slice_case::<ffi::VLab_pod>(s), _ => slice_case::<ffi::VLab_el>(s),
    }
}
fn s_opaque(s: &mut Src) -> Outcome {
    let mut lab = ffi::new_opq();
    let n = s.us(20);
    let base = s.below(1000);
    let own: Vec<Opq> = (0..n as u64).map(|k| Opq::new(base + k)).collect();
    let a = s.us(n + 1);
    let b = a + s.us(n - a + 1);
    let prog: Vec<u8> = (0..2 * s.us(20)).map(|_| s.below(256) as u8).collect();
    s.note(|| format!("opaque len {n} slice {a}..{b} program {prog:?}"));
    if b - a >= 2 && prog.len() >= 6 { s.nontrivial(); }
    let m = lab.probe(&own[a..b], &prog);
    if !m.is_empty() { return Err(format!("opaque slice {a}..{b} program {prog:?}: {m}")); }
    lab.pin_mut().put(0, own);
    let got: Vec<u64> = lab.slice(0).iter().map(Opq::opq_id).collect();
    if got != (0..n as u64).map(|k| base + k).collect::<Vec<_>>() { return Err(format!("opaque slice from C++ is {got:?}")); }
    Ok(())
}

pub fn c04() -> Vec<Prop> {
    vec![
        Prop { name: "spans", quick: 400_000, thorough: 2_000_000, f: |s| balanced(s, s_all) },
        Prop { name: "opaque", quick: 100_000, thorough: 500_000, f: |s| balanced(s, s_opaque) },
    ]
}
