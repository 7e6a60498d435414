//! C06: CxxString; C07: CxxVector.
use crate::cxxstd_ffi::ffi;
use crate::leak::balanced;
use cxx::vector::VectorElement;
use cxx::{let_cxx_string, CxxString, CxxVector, UniquePtr};
use pbt::{gen_bytes, gen_text, Outcome, Prop, Src};
use std::collections::hash_map::DefaultHasher;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;

macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

// ---------------------------------------------------------------- C06

/// What Debug must print: Rust's escapes for the valid parts, \xNN for the rest.
fn debug_oracle(b: &[u8]) -> String {
    let mut out = String::from("\"");
    for c in b.utf8_chunks() {
        let d = format!("{:?}", c.valid());
        out += &d[1..d.len() - 1];
        for x in c.invalid() { let _ = write!(out, "\\x{x:02x}"); }
    }
    out.push('"');
    out
}

fn look(s: &CxxString, want: &[u8], what: &str) -> Outcome {
    ensure!(s.as_bytes() == want, "{what}: as_bytes() is {:?}, expected {want:?}", s.as_bytes());
    ensure!(s.len() == want.len() && s.is_empty() == want.is_empty(), "{what}: len() {}, is_empty() {}, expected length {}", s.len(), s.is_empty(), want.len());
    ensure!(ffi::str_bytes(s) == want, "{what}: C++ sees {:?}, expected {want:?}", ffi::str_bytes(s));
    ensure!(s.as_ptr() as usize == ffi::str_addr(s), "{what}: as_ptr() is not data()");
    let upto = want.iter().position(|b| *b == 0).unwrap_or(want.len());
    ensure!(s.as_c_str().to_bytes() == &want[..upto], "{what}: as_c_str() is {:?}", s.as_c_str());
    match (s.to_str(), std::str::from_utf8(want)) {
        (Ok(a), Ok(b)) => ensure!(a == b, "{what}: to_str() is {a:?}"),
        (Err(a), Err(b)) => ensure!(a == b, "{what}: to_str() error {a}, expected {b}"),
        (a, b) => return Err(format!("{what}: to_str() is {a:?}, expected {b:?}")),
    }
    let lossy = String::from_utf8_lossy(want);
    ensure!(s.to_string_lossy() == lossy, "{what}: to_string_lossy() is {:?}, expected {lossy:?}", s.to_string_lossy());
    ensure!(matches!(s.to_string_lossy(), std::borrow::Cow::Borrowed(_)) == std::str::from_utf8(want).is_ok(), "{what}: to_string_lossy() borrows wrongly");
    ensure!(s.to_string() == lossy, "{what}: Display gives {:?}, expected {lossy:?}", s.to_string());
    let d = debug_oracle(want);
    ensure!(format!("{s:?}") == d, "{what}: Debug gives {s:?}, expected {d}");
    Ok(())
}

fn hash(s: &CxxString) -> u64 {
    let mut h = DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

fn content(s: &mut Src) -> Outcome {
    let x = gen_bytes(s, 120);
    s.note(|| format!("{x:?}"));
    if !x.is_ascii() { s.nontrivial(); }
    s.key(&x);
    let a = ffi::str_make(&x);
    look(&a, &x, "string made in C++")?;
    let_cxx_string!(b = &x);
    look(&b, &x, "stack string")?;
    Ok(())
}

fn order(s: &mut Src) -> Outcome {
    let x = gen_bytes(s, 12);
    let y = match s.below(4) {
        0 => x.clone(),
        1 => { let mut y = x.clone(); let k = s.us(y.len() + 1); y.truncate(k); y }
        2 => { let mut y = x.clone(); if !y.is_empty() { let k = s.us(y.len()); y[k] = s.below(256) as u8; } y }
        _ => gen_bytes(s, 12),
    };
    s.note(|| format!("{x:?} vs {y:?}"));
    if x != y { s.nontrivial(); }
    s.key(&x);
    s.key(&y);
    let (a, b) = (ffi::str_make(&x), ffi::str_make(&y));
    let (a, b): (&CxxString, &CxxString) = (&a, &b);
    ensure!((a == b) == (x == y) && (a != b) == (x != y), "{x:?} == {y:?} gives {}", a == b);
    ensure!(ffi::str_eq(a, b) == (x == y), "C++ == disagrees");
    ensure!(a.cmp(b) == x.cmp(&y) && a.partial_cmp(b) == Some(x.cmp(&y)), "{x:?} cmp {y:?} gives {:?}/{:?}, expected {:?}", a.cmp(b), a.partial_cmp(b), x.cmp(&y));
    ensure!((a < b, a <= b, a > b, a >= b) == (x < y, x <= y, x > y, x >= y), "{x:?} vs {y:?}: comparison operators disagree");
    if x == y { ensure!(hash(a) == hash(b), "equal strings hash differently"); }
    // As map keys.
    let set: std::collections::HashSet<&CxxString> = [a, b].into_iter().collect();
    ensure!(set.len() == if x == y { 1 } else { 2 }, "HashSet of {x:?}, {y:?} has {} entries", set.len());
    if let Ok(t) = std::str::from_utf8(&y) {
        ensure!((*a == *t) == (x == y) && (*t == *a) == (x == y), "{x:?} == str {t:?} gives {}/{}", *a == *t, *t == *a);
    }
    Ok(())
}

fn history(s: &mut Src) -> Outcome {
    let mut up = ffi::str_make(b"");
    let mut owner = ffi::new_owner();
    let_cxx_string!(stack = "");
    let mut m: [Vec<u8>; 3] = [vec![], vec![], vec![]];
    let mut kinds = 0u32;
    for _ in 0..s.us(30) {
        let w = s.us(3);
        let op = s.below(13);
        let len = m[w].len();
        let mut p: Pin<&mut CxxString> = match w { 0 => up.pin_mut(), 1 => owner.pin_mut().edit(), _ => stack.as_mut() };
        kinds |= 1 << op;
        let what = format!("op {op} on string {w}");
        s.note(|| what.clone());
        match op {
            0 => { let t = gen_text(s, 30); p.push_str(&t); m[w].extend_from_slice(t.as_bytes()); }
            1 => { let t = gen_bytes(s, 30); p.push_bytes(&t); m[w].extend_from_slice(&t); }
            2 => { p.clear(); m[w].clear(); }
            3 => {
                let n = s.us(100);
                p.as_mut().reserve(n);
                ensure!(ffi::str_cap(&p) >= len + n, "{what}: reserve({n}) at length {len} gives capacity {}", ffi::str_cap(&p));
            }
            4 => { let t = gen_text(s, 10); std::fmt::Write::write_fmt(&mut p, format_args!("<{t}|{}>", len)).map_err(|e| e.to_string())?; m[w].extend_from_slice(format!("<{t}|{len}>").as_bytes()); }
            5 => {
                let t = gen_bytes(s, 30);
                let n = std::io::Write::write(&mut p, &t).map_err(|e| e.to_string())?;
                ensure!(n <= t.len() && (n > 0 || t.is_empty()), "{what}: write of {} bytes returned {n}", t.len());
                m[w].extend_from_slice(&t[..n]);
            }
            6 => { let t = gen_bytes(s, 30); std::io::Write::write_all(&mut p, &t).map_err(|e| e.to_string())?; p.flush().map_err(|e| e.to_string())?; m[w].extend_from_slice(&t); }
            7 => {
                if len > 0 {
                    let n = usize::MAX - s.us(len);
                    let r = catch_unwind(AssertUnwindSafe(|| p.as_mut().reserve(n)));
                    ensure!(r.is_err(), "{what}: reserve({n}) at length {len} did not panic");
                }
            }
            8 | 9 => { let t = gen_bytes(s, 30); let o = s.below(2) as u32; ffi::str_op(p, o, 0, &t); if o == 1 { m[w].clear(); } m[w].extend_from_slice(&t); }
            10 => {
                let n = s.us(len + 1);
                match s.below(3) {
                    0 => { ffi::str_op(p, 3, n, b""); m[w].truncate(n); }
                    1 => { let t = gen_bytes(s, 9); ffi::str_op(p, 4, n, &t); m[w].splice(n..n, t); }
                    _ => { ffi::str_op(p, 6, n, b""); m[w] = vec![0; n]; }
                }
            }
            11 => ffi::str_op(p, 5, 0, b""),
            _ => { let n = s.us(60); ffi::str_op(p, 2, n, b""); m[w].resize(n, b'r'); }
        }
        look(&up, &m[0], &format!("after {what}: UniquePtr string"))?;
        look(owner.view(), &m[1], &format!("after {what}: C++ member string"))?;
        look(&stack, &m[2], &format!("after {what}: stack string"))?;
    }
    if kinds.count_ones() >= 4 { s.nontrivial(); }
    Ok(())
}

struct Bomb;
impl AsRef<[u8]> for Bomb { fn as_ref(&self) -> &[u8] { panic!("as_ref") } }
struct Late(Vec<u8>);
impl AsRef<[u8]> for Late { fn as_ref(&self) -> &[u8] { &self.0 } }
#[inline(never)]
fn dirty_stack(fill: u8) -> u64 {
    // Leave recognisable garbage where the next frame's locals will be.
    let a = [fill; 4096];
    std::hint::black_box(&a).iter().map(|x| u64::from(*x)).sum()
}
#[inline(never)]
fn early_return(stop: bool, t: &[u8]) -> Result<usize, ()> {
    let_cxx_string!(s = if stop { return Err(()) } else { t });
    Ok(s.len())
}
#[inline(never)]
fn try_operator(v: Result<Vec<u8>, ()>) -> Result<Vec<u8>, ()> {
    let_cxx_string!(s = v?);
    Ok(s.as_bytes().to_vec())
}
#[inline(never)]
fn panicking(kind: u64, t: &[u8]) -> Vec<u8> {
    match kind {
        0 => { let_cxx_string!(s = if t.len() < 1000 { panic!("x") } else { t }); s.as_bytes().to_vec() }
        1 => { let_cxx_string!(s = Bomb); s.as_bytes().to_vec() }
        _ => {
            let_cxx_string!(s = t);
            if s.len() == t.len() { panic!("later") }
            vec![]
        }
    }
}
#[inline(never)]
fn looping(parts: &[Vec<u8>], stop: usize) -> Vec<u8> {
    let mut out = vec![];
    for (k, p) in parts.iter().enumerate() {
        let_cxx_string!(s = if k == stop { break } else if p.is_empty() { continue } else { p });
        out.extend_from_slice(s.as_bytes());
    }
    out
}

fn stack(s: &mut Src) -> Outcome {
    let t = gen_bytes(s, 60);
    let kind = s.below(9);
    s.note(|| format!("kind {kind}, value {t:?}"));
    if kind > 0 { s.nontrivial(); }
    dirty_stack(s.below(256) as u8);
    match kind {
        0 => { let_cxx_string!(v = Late(t.clone())); look(&v, &t, "stack string")?; }
        1 => { let r = early_return(true, &t); ensure!(r == Err(()), "early return"); }
        2 => { let r = early_return(false, &t); ensure!(r == Ok(t.len()), "length {r:?}"); }
        3 => ensure!(try_operator(Err(())) == Err(()), "? operator"),
        4 => ensure!(try_operator(Ok(t.clone())) == Ok(t.clone()), "? operator"),
        5 | 6 => { let k = s.below(3); ensure!(catch_unwind(|| panicking(k, &t)).is_err(), "panic did not propagate"); }
        7 => {
            let parts: Vec<Vec<u8>> = (0..s.us(5)).map(|_| gen_bytes(s, 30)).collect();
            let stop = s.us(6);
            let want: Vec<u8> = parts.iter().take(stop).flatten().copied().collect();
            let got = looping(&parts, stop);
            ensure!(got == want, "loop built {got:?}, expected {want:?}");
        }
        _ => {
            // Several at once, mutated and compared.
            let_cxx_string!(a = &t);
            let_cxx_string!(b = &t[..]);
            let_cxx_string!(c = "");
            ensure!(*a == *b, "two stack strings with the same value differ");
            c.as_mut().push_bytes(&t);
            b.as_mut().push_str("tail which is long enough to reallocate the buffer");
            look(&a, &t, "first")?;
            look(&c, &t, "third")?;
            ensure!(b.len() > t.len() && *a != *b, "second unchanged");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C07

pub trait CEl: VectorElement + Sized {
    fn val(&self) -> u64;
    fn set(this: Pin<&mut Self>, v: u64);
    fn norm(v: u64) -> u64;
}
pub trait CTriv: CEl {
    fn mk(v: u64) -> Self;
}
macro_rules! cel_num { ($($t:ty),*) => { $(
    impl CEl for $t {
        fn val(&self) -> u64 { *self as u64 }
        fn set(mut this: Pin<&mut Self>, v: u64) { *this = v as $t }
        fn norm(v: u64) -> u64 { v }
    }
    impl CTriv for $t { fn mk(v: u64) -> Self { v as $t } }
)* } }
cel_num!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, f32, f64);
impl CEl for CxxString {
    fn val(&self) -> u64 { self.to_str().unwrap().split(' ').next().unwrap().parse().unwrap() }
    fn set(mut this: Pin<&mut Self>, v: u64) { this.as_mut().clear(); this.push_str(&v.to_string()) }
    fn norm(v: u64) -> u64 { v }
}
macro_rules! cel_struct { ($t:ty, |$s:ident| $val:expr, |$v:ident| $mk:expr, $norm:expr) => {
    impl CEl for $t {
        fn val(&self) -> u64 { let $s = self; $val }
        fn set(this: Pin<&mut Self>, v: u64) { *unsafe { Pin::into_inner_unchecked(this) } = <$t as CTriv>::mk(v) }
        fn norm(v: u64) -> u64 { $norm(v) }
    }
    impl CTriv for $t { fn mk($v: u64) -> Self { $mk } }
} }
cel_struct!(ffi::P3, |s| u64::from(s.a) | u64::from(s.b) << 8 | u64::from(s.c) << 16, |v| ffi::P3 { a: v as u8, b: (v >> 8) as u8, c: (v >> 16) as u8 }, |v| v);
cel_struct!(ffi::P72, |s| if s.b == [s.a; 7] && s.c == s.a as u8 { s.a } else { u64::MAX }, |v| ffi::P72 { a: v, b: [v; 7], c: v as u8 }, |v| v);
cel_struct!(ffi::VS, |s| if s.name == s.a.to_string() && s.v == [s.a as u16, 2] { s.a } else { u64::MAX }, |v| ffi::VS { a: v, name: v.to_string(), v: vec![v as u16, 2] }, |v| v);
cel_struct!(ffi::En, |s| u64::from(s.repr), |v| [ffi::En::A, ffi::En::B, ffi::En::C, ffi::En::D][v as usize & 3], |v| v & 3);
cel_struct!(crate::track::Tr, |s| s.get(), |v| crate::track::Tr::new(v), |v| v);
macro_rules! cel_opaque { ($($t:ty),*) => { $( impl CEl for $t {
    fn val(&self) -> u64 { self.get() }
    fn set(this: Pin<&mut Self>, v: u64) { <$t>::set(this, v) }
    fn norm(v: u64) -> u64 { v }
} )* } }
cel_opaque!(ffi::It, ffi::Odd, ffi::Big);

/// Operations available only for element types Rust may hold by value.
pub struct Triv<T: VectorElement> {
    pub push: fn(Pin<&mut CxxVector<T>>, u64),
    pub pop: fn(Pin<&mut CxxVector<T>>) -> Option<u64>,
    pub slice: fn(&CxxVector<T>) -> &[T],
    pub mut_slice: fn(Pin<&mut CxxVector<T>>) -> &mut [T],
    pub extend: fn(Pin<&mut CxxVector<T>>, &[u64]),
}
pub trait CLab: cxx::memory::UniquePtrTarget + Sized {
    type T: CEl;
    fn new() -> UniquePtr<Self>;
    fn make(l: &mut UniquePtr<Self>) -> UniquePtr<CxxVector<Self::T>>;
    fn own(l: &mut UniquePtr<Self>) -> Pin<&mut CxxVector<Self::T>>;
    fn view(&self) -> &CxxVector<Self::T>;
    fn op(l: &mut UniquePtr<Self>, op: u32, v: Pin<&mut CxxVector<Self::T>>, n: usize, val: u64);
    fn ids(&self, v: &CxxVector<Self::T>) -> Vec<u64>;
    fn addr(&self, v: &CxxVector<Self::T>, pos: usize) -> usize;
    fn cap(&self, v: &CxxVector<Self::T>) -> usize;
    fn take_by_value(l: &mut UniquePtr<Self>, v: UniquePtr<CxxVector<Self::T>>) -> UniquePtr<CxxVector<Self::T>>;
    fn triv() -> Option<Triv<Self::T>>;
    fn debug(v: &CxxVector<Self::T>) -> Option<(String, String)>;
}
macro_rules! impl_clab {
    (@triv triv, $t:ty) => { Some(crate::cxxstd::Triv {
        push: |v, x| v.push(<$t as crate::cxxstd::CTriv>::mk(x)),
        pop: |v| v.pop().map(|t| crate::cxxstd::CEl::val(&t)),
        slice: |v| v.as_slice(),
        mut_slice: |v| v.as_mut_slice(),
        extend: |mut v, xs| for x in xs { v.as_mut().push(<$t as crate::cxxstd::CTriv>::mk(*x)) },
    }) };
    (@triv opaque, $t:ty) => { None };
    (@dbg dbg, $v:ident) => { Some((format!("{:?} {:#?}", $v, $v), { let l: Vec<_> = $v.iter().collect(); format!("{:?} {:#?}", l, l) })) };
    (@dbg nodbg, $v:ident) => { None };
    ($l:ty, $t:ty, $new:path, $tr:ident, $dbg:ident) => {
        impl crate::cxxstd::CLab for $l {
            type T = $t;
            fn new() -> cxx::UniquePtr<Self> { $new() }
            fn make(l: &mut cxx::UniquePtr<Self>) -> cxx::UniquePtr<cxx::CxxVector<$t>> { l.pin_mut().make() }
            fn own(l: &mut cxx::UniquePtr<Self>) -> std::pin::Pin<&mut cxx::CxxVector<$t>> { l.pin_mut().own() }
            fn view(&self) -> &cxx::CxxVector<$t> { <$l>::view(self) }
            fn op(l: &mut cxx::UniquePtr<Self>, op: u32, v: std::pin::Pin<&mut cxx::CxxVector<$t>>, n: usize, val: u64) { l.pin_mut().op(op, v, n, val) }
            fn ids(&self, v: &cxx::CxxVector<$t>) -> Vec<u64> { <$l>::ids(self, v) }
            fn addr(&self, v: &cxx::CxxVector<$t>, pos: usize) -> usize { <$l>::addr(self, v, pos) }
            fn cap(&self, v: &cxx::CxxVector<$t>) -> usize { <$l>::cap(self, v) }
            fn take_by_value(l: &mut cxx::UniquePtr<Self>, v: cxx::UniquePtr<cxx::CxxVector<$t>>) -> cxx::UniquePtr<cxx::CxxVector<$t>> { l.pin_mut().take_by_value(v) }
            fn triv() -> Option<crate::cxxstd::Triv<$t>> { crate::cxxstd::impl_clab!(@triv $tr, $t) }
            fn debug(_v: &cxx::CxxVector<$t>) -> Option<(String, String)> { crate::cxxstd::impl_clab!(@dbg $dbg, _v) }
        }
    };
}
pub(crate) use impl_clab;

fn examine<L: CLab>(lab: &UniquePtr<L>, v: &CxxVector<L::T>, m: &[u64], what: &str) -> Outcome {
    let n = m.len();
    ensure!(lab.ids(v) == m, "{what}: C++ sees {:?}, expected {m:?}", lab.ids(v));
    ensure!(v.len() == n && v.is_empty() == (n == 0), "{what}: len() {}, is_empty() {}, expected {n}", v.len(), v.is_empty());
    for k in 0..n {
        let e = v.get(k).ok_or_else(|| format!("{what}: get({k}) is None, length {n}"))?;
        ensure!(e as *const L::T as usize == lab.addr(v, k), "{what}: get({k}) denotes another element");
        ensure!(e.val() == m[k], "{what}: get({k}) is {}, expected {}", e.val(), m[k]);
        ensure!(std::ptr::eq(unsafe { v.get_unchecked(k) }, e), "{what}: get_unchecked({k}) denotes another element");
    }
    for k in [n, n + 1, n + 7, usize::MAX, usize::MAX / 2 + 1] {
        ensure!(v.get(k).is_none(), "{what}: get({k}) is Some at length {n}");
    }
    let got: Vec<u64> = v.iter().map(CEl::val).collect();
    ensure!(got == m, "{what}: iter() yields {got:?}, expected {m:?}");
    let mut count = 0;
    for e in v { ensure!(e.val() == m[count], "{what}: for loop"); count += 1; }
    ensure!(count == n, "{what}: for loop visits {count} of {n}");
    if let Some(t) = L::triv() {
        let s = (t.slice)(v);
        ensure!(s.len() == n, "{what}: as_slice() has length {}", s.len());
        for (k, e) in s.iter().enumerate() {
            ensure!(e as *const L::T as usize == lab.addr(v, k) && e.val() == m[k], "{what}: as_slice()[{k}] differs");
        }
        ensure!(s.as_ptr() as usize % std::mem::align_of::<L::T>() == 0 && !s.as_ptr().is_null(), "{what}: as_slice() pointer invalid");
    }
    if let Some((a, b)) = L::debug(v) { ensure!(a == b, "{what}: Debug gives {a}, expected {b}"); }
    Ok(())
}

/// Steps an iterator by a random program, comparing with slice::Iter.
fn walk<'a, T: CEl + 'a>(s: &mut Src, v: &'a CxxVector<T>, m: &[u64]) -> Outcome {
    let mut it = v.iter();
    let mut r = m.iter();
    for _ in 0..s.us(m.len() + 4) {
        ensure!(it.len() == r.len(), "iter().len() is {}, expected {}", it.len(), r.len());
        ensure!(it.size_hint() == r.size_hint(), "iter().size_hint() is {:?}, expected {:?}", it.size_hint(), r.size_hint());
        let (a, b) = match s.below(8) {
            0..=4 => (it.next(), r.next()),
            5 => { let k = s.us(4); (it.nth(k), r.nth(k)) }
            6 => { let k = s.us(3); (it.by_ref().skip(k).next(), r.by_ref().skip(k).next()) }
            _ => (it.by_ref().take(2).last(), r.by_ref().take(2).last()),
        };
        ensure!(a.map(CEl::val) == b.copied(), "iterator yields {:?}, expected {b:?}", a.map(CEl::val));
    }
    let (a, b): (Vec<u64>, Vec<u64>) = (it.map(CEl::val).collect(), r.copied().collect());
    ensure!(a == b, "rest of the iterator is {a:?}, expected {b:?}");
    Ok(())
}
fn walk_mut<T: CEl>(s: &mut Src, v: Pin<&mut CxxVector<T>>, m: &mut [u64], next: &mut u64) -> Outcome {
    let into = s.coin();
    let mut it = if into { v.into_iter() } else { v.iter_mut() };
    let mut r = m.iter_mut();
    let mut held: Vec<(Pin<&mut T>, &mut u64)> = vec![];
    for _ in 0..s.us(r.len() + 4) {
        ensure!(it.len() == r.len(), "iter_mut().len() is {}, expected {}", it.len(), r.len());
        ensure!(it.size_hint() == r.size_hint(), "iter_mut().size_hint() is {:?}, expected {:?}", it.size_hint(), r.size_hint());
        let (a, b) = if s.chance(1, 5) { let k = s.us(3); (it.nth(k), r.nth(k)) } else { (it.next(), r.next()) };
        match (a, b) {
            (Some(a), Some(b)) => { ensure!(a.val() == *b, "iter_mut yields {}, expected {b}", a.val()); held.push((a, b)); }
            (None, None) => {}
            (a, b) => return Err(format!("iter_mut yields {:?}, expected {b:?}", a.map(|x| x.val()))),
        }
    }
    // The elements handed out may all be used together, after stepping on.
    for (mut a, b) in held.into_iter().rev() {
        ensure!(a.val() == *b, "element changed while held: {} expected {b}", a.val());
        if s.coin() { T::set(a.as_mut(), *next); *b = T::norm(*next); *next = *next % 120 + 1; }
    }
    Ok(())
}

fn vector_history<L: CLab>(s: &mut Src) -> Outcome {
    let live0 = ffi::live_items();
    let mut lab = L::new();
    let mut v: Vec<UniquePtr<CxxVector<L::T>>> = vec![L::make(&mut lab), CxxVector::new()];
    let mut m: Vec<Vec<u64>> = vec![vec![]; 3]; // 0,1 Rust-held; 2 C++-owned
    let triv = L::triv();
    let norm = <L::T as CEl>::norm;
    let mut next = 1u64;
    let mut kinds = 0u32;
    for _ in 0..s.us(30) {
        let w = s.us(3);
        let op = s.below(20);
        let n = m[w].len();
        kinds |= 1 << op;
        let what = format!("op {op} on vector {w} of length {n}, next={next}");
        s.note(|| what.clone());
        // Work on a vector owned elsewhere through a detached pin.
        let p: *mut CxxVector<L::T> = if w < 2 { unsafe { Pin::into_inner_unchecked(v[w].pin_mut()) as *mut _ } } else { unsafe { Pin::into_inner_unchecked(L::own(&mut lab)) as *mut _ } };
        macro_rules! pin { () => { unsafe { Pin::new_unchecked(&mut *p) } } }
        match (op, &triv) {
            (0..=4, Some(t)) => { (t.push)(pin!(), next); m[w].push(norm(next)); next = next % 120 + 1; }
            (5 | 6, Some(t)) => {
                let got = (t.pop)(pin!());
                let want = m[w].pop();
                ensure!(got == want, "{what}: pop() is {got:?}, expected {want:?}");
            }
            (0..=6, None) | (7 | 8, _) => { L::op(&mut lab, 0, pin!(), 0, next); m[w].push(norm(next)); next = next % 120 + 1; }
            (9, _) => { if n > 0 { L::op(&mut lab, 1, pin!(), 0, 0); m[w].pop(); } }
            (10, _) => { let k = s.us(n + 1); L::op(&mut lab, 2, pin!(), k, next); m[w].insert(k, norm(next)); next = next % 120 + 1; }
            (11, _) => { if n > 0 { let k = s.us(n); L::op(&mut lab, 3, pin!(), k, 0); m[w].remove(k); } }
            (12, _) => {
                let o = *s.pick(&[4u32, 6, 8, 5]);
                L::op(&mut lab, o, pin!(), n + 5, 0);
                if o == 5 { m[w].clear(); }
            }
            (13, _) => { if w != 2 { L::op(&mut lab, 7, pin!(), 0, 0); m.swap(w, 2); } }
            (14, _) => {
                let k = s.us(n + 3);
                match pin!().index_mut(k) {
                    Some(e) => { ensure!(k < n, "{what}: index_mut({k}) is Some"); <L::T as CEl>::set(e, next); m[w][k] = norm(next); next = next % 120 + 1; }
                    None => ensure!(k >= n, "{what}: index_mut({k}) is None"),
                }
                if k < n {
                    let e = unsafe { pin!().index_unchecked_mut(k) };
                    <L::T as CEl>::set(e, next);
                    m[w][k] = norm(next);
                    next = next % 120 + 1;
                }
            }
            (15, _) => walk(s, unsafe { &*p }, &m[w]).map_err(|e| format!("{what}: {e}"))?,
            (16, _) => walk_mut(s, pin!(), &mut m[w], &mut next).map_err(|e| format!("{what}: {e}"))?,
            (17, Some(t)) => {
                let sl = (t.mut_slice)(pin!());
                ensure!(sl.len() == n, "{what}: as_mut_slice() has length {}", sl.len());
                sl.reverse();
                m[w].reverse();
                if n >= 2 { sl.swap(0, 1); m[w].swap(0, 1); }
            }
            (18, Some(t)) => {
                let xs: Vec<u64> = (0..s.us(6)).map(|k| (next + k as u64) % 120 + 1).collect();
                (t.extend)(pin!(), &xs);
                m[w].extend(xs.iter().map(|x| norm(*x)));
            }
            (19, _) => {
                if w < 2 {
                    let old = std::mem::replace(&mut v[w], UniquePtr::null());
                    v[w] = match s.below(3) {
                        0 => L::take_by_value(&mut lab, old),
                        1 => { drop(old); m[w].clear(); CxxVector::new() }
                        _ => { let raw = old.into_raw(); unsafe { UniquePtr::from_raw(raw) } }
                    };
                }
            }
            _ => {}
        }
        for k in 0..3 {
            let q = if k < 2 { v[k].as_ref().unwrap() } else { lab.view() };
            examine(&lab, q, &m[k], &format!("after {what}: vector {k}"))?;
        }
        if std::any::type_name::<L::T>().ends_with("::It") {
            let want = m.iter().map(Vec::len).sum::<usize>() as i64;
            ensure!(ffi::live_items() - live0 == want, "after {what}: {} live elements, expected {want}", ffi::live_items() - live0);
        }
    }
    if kinds.count_ones() >= 5 { s.nontrivial(); }
    drop(v);
    drop(lab);
    ensure!(ffi::live_items() == live0, "elements remain alive at the end");
    Ok(())
}
fn primitives(s: &mut Src) -> Outcome {
    match s.indexed(12) {
        0 => vector_history::<ffi::CLab_u8>(s),
        1 => vector_history::<ffi::CLab_u16>(s),
        2 => vector_history::<ffi::CLab_u32>(s),
        3 => vector_history::<ffi::CLab_u64>(s),
        4 => vector_history::<ffi::CLab_usize>(s),
        5 => vector_history::<ffi::CLab_i8>(s),
        6 => vector_history::<ffi::CLab_i16>(s),
        7 => vector_history::<ffi::CLab_i32>(s),
        8 => vector_history::<ffi::CLab_i64>(s),
        9 => vector_history::<ffi::CLab_isize>(s),
        10 => vector_history::<ffi::CLab_f32>(s),
        _ => vector_history::<ffi::CLab_f64>(s),
    }
}
fn by_value(s: &mut Src) -> Outcome {
    match s.indexed(5) {
        0 => vector_history::<ffi::CLab_p3>(s),
        1 => vector_history::<ffi::CLab_p72>(s),
        2 => vector_history::<ffi::CLab_vs>(s),
        3 => vector_history::<ffi::CLab_en>(s),
        _ => vector_history::<ffi::CLab_tr>(s),
    }
}
fn opaque(s: &mut Src) -> Outcome {
    match s.indexed(3) {
        0 => vector_history::<ffi::CLab_it>(s),
        1 => vector_history::<ffi::CLab_odd>(s),
        _ => vector_history::<ffi::CLab_big>(s),
    }
}

macro_rules! case {
    ($n:expr, $q:expr, $t:expr, $f:expr) => { Prop { name: $n, quick: $q, thorough: $t, f: |s| balanced(s, $f) } };
}
pub fn c06() -> Vec<Prop> {
    vec![
        case!("content", 400_000, 4_000_000, content),
        case!("order", 400_000, 4_000_000, order),
        case!("history", 40_000, 1_000_000, history),
        case!("stack_string", 400_000, 1_000_000, stack),
    ]
}
pub fn c07() -> Vec<Prop> {
    vec![
        case!("primitives", 60_000, 1_000_000, primitives),
        case!("by_value_elements", 40_000, 500_000, by_value),
        case!("strings", 16_000, 200_000, |s| vector_history::<ffi::CLab_str>(s)),
        case!("opaque_elements", 40_000, 400_000, opaque),
    ]
}
