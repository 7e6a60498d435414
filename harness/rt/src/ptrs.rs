//! C08: UniquePtr; C09: SharedPtr and WeakPtr.
use crate::leak::balanced;
use crate::ptrs_ffi::ffi;
use cxx::memory::{SharedPtrTarget, UniquePtrTarget, WeakPtrTarget};
use cxx::{CxxString, SharedPtr, UniquePtr, WeakPtr};
use pbt::{gen_text, Outcome, Prop, Src};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::fmt::{self, Debug, Display};
use std::hash::{Hash, Hasher};
use std::io::{self, IoSlice, Read, Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;

pub fn ps(v: u64) -> ffi::PS {
    ffi::PS { a: v << 8, b: format!("{v} payload of a certain length"), pad: 7 }
}
impl Display for ffi::PS {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.pad(&format!("<{}>", self.a))
    }
}

macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

pub trait ULab: UniquePtrTarget + Sized {
    type T: UniquePtrTarget;
    fn new() -> UniquePtr<Self>;
    fn make(l: &mut UniquePtr<Self>, v: u64) -> UniquePtr<Self::T>;
    fn null(l: &mut UniquePtr<Self>) -> UniquePtr<Self::T>;
    fn raw(l: &mut UniquePtr<Self>, v: u64) -> *mut Self::T;
    fn put(l: &mut UniquePtr<Self>, i: usize, p: UniquePtr<Self::T>);
    fn take(l: &mut UniquePtr<Self>, i: usize) -> UniquePtr<Self::T>;
    fn peek(&self, i: usize) -> &UniquePtr<Self::T>;
    fn poke(l: &mut UniquePtr<Self>, i: usize) -> &mut UniquePtr<Self::T>;
    fn id(&self, i: usize) -> u64;
    fn id_of(&self, v: &Self::T) -> u64;
    fn bump_of(l: &mut UniquePtr<Self>, v: Pin<&mut Self::T>);
    fn addr(&self, p: &UniquePtr<Self::T>) -> usize;
    fn meddle(l: &mut UniquePtr<Self>, p: &mut UniquePtr<Self::T>, kind: u32, v: u64);
    fn pass(l: &mut UniquePtr<Self>, p: UniquePtr<Self::T>, kind: u32) -> Result<UniquePtr<Self::T>, cxx::Exception>;
    fn fresh(v: u64) -> Option<UniquePtr<Self::T>>;
}
macro_rules! impl_ulab {
    ($l:ty, $t:ty, $new:path, |$v:ident| $arg:expr, |$w:ident| $fresh:expr) => {
        impl crate::ptrs::ULab for $l {
            type T = $t;
            fn new() -> UniquePtr<Self> { $new() }
            fn make(l: &mut UniquePtr<Self>, v: u64) -> UniquePtr<$t> { l.pin_mut().make(v) }
            fn null(l: &mut UniquePtr<Self>) -> UniquePtr<$t> { l.pin_mut().null() }
            fn raw(l: &mut UniquePtr<Self>, v: u64) -> *mut $t { l.pin_mut().raw(v) }
            fn put(l: &mut UniquePtr<Self>, i: usize, p: UniquePtr<$t>) { l.pin_mut().put(i, p) }
            fn take(l: &mut UniquePtr<Self>, i: usize) -> UniquePtr<$t> { l.pin_mut().take(i) }
            fn peek(&self, i: usize) -> &UniquePtr<$t> { <$l>::peek(self, i) }
            fn poke(l: &mut UniquePtr<Self>, i: usize) -> &mut UniquePtr<$t> { l.pin_mut().poke(i) }
            fn id(&self, i: usize) -> u64 { <$l>::id(self, i) }
            fn id_of(&self, v: &$t) -> u64 { <$l>::id_of(self, v) }
            fn bump_of(l: &mut UniquePtr<Self>, $v: Pin<&mut $t>) { l.pin_mut().bump_of($arg) }
            fn addr(&self, p: &UniquePtr<$t>) -> usize { <$l>::addr(self, p) }
            fn meddle(l: &mut UniquePtr<Self>, p: &mut UniquePtr<$t>, kind: u32, v: u64) { l.pin_mut().meddle(p, kind, v) }
            fn pass(l: &mut UniquePtr<Self>, p: UniquePtr<$t>, kind: u32) -> Result<UniquePtr<$t>, cxx::Exception> { l.pin_mut().pass(p, kind) }
            #[allow(unused_variables)]
            fn fresh($w: u64) -> Option<UniquePtr<$t>> { $fresh }
        }
    };
}
pub(crate) use impl_ulab;

type M = Option<u64>; // payload: id << 8 | bumps

/// Everything a UniquePtr says about itself agrees with the model.
fn look<L: ULab>(lab: &UniquePtr<L>, p: &UniquePtr<L::T>, m: M, what: &str) -> Outcome {
    ensure!(p.is_null() == m.is_none(), "{what}: is_null() is {}, model {m:?}", p.is_null());
    ensure!(p.as_ref().is_some() == m.is_some(), "{what}: as_ref() is_some {}, model {m:?}", p.as_ref().is_some());
    let addr = lab.addr(p);
    ensure!(p.as_ptr() as usize == addr, "{what}: as_ptr() is {:p}, C++ sees {addr:#x}", p.as_ptr());
    ensure!(p.as_mut_ptr() as usize == addr, "{what}: as_mut_ptr() is {:p}, C++ sees {addr:#x}", p.as_mut_ptr());
    if let (Some(r), Some(v)) = (p.as_ref(), m) {
        ensure!(r as *const L::T as usize == addr, "{what}: as_ref() denotes another object");
        let got = lab.id_of(r);
        ensure!(got == v, "{what}: points to an object with value {got:#x}, expected {v:#x}");
        ensure!(std::ptr::eq(&**p, r), "{what}: deref denotes another object");
    }
    Ok(())
}

fn null_panics(f: impl FnOnce(), what: &str, name: &str) -> Outcome {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(()) => Err(format!("{what} of a null {name} did not panic")),
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().unwrap_or_default();
            ensure!(m.contains("null") && m.contains(name), "{what} of a null {name} panicked with {m:?}");
            Ok(())
        }
    }
}

fn unique_history<L: ULab>(s: &mut Src, is_obj: bool) -> Outcome {
    let base = ffi::live_objs();
    let mut lab = L::new();
    let mut rust: Vec<UniquePtr<L::T>> = (0..3).map(|_| UniquePtr::null()).collect();
    let mut rm: Vec<M> = vec![None; 3];
    let mut cm: Vec<M> = vec![None; 3];
    let mut raws: Vec<(*mut L::T, u64)> = vec![];
    let mut next = 1u64;
    let mut kinds = 0u64;
    for _ in 0..s.us(40) {
        let op = s.below(24);
        let i = s.us(3);
        let j = s.us(3);
        let v = next << 8;
        let what = format!("op {op}(i={i}, j={j}, next={next})");
        s.note(|| what.clone());
        kinds |= 1 << op;
        match op {
            0 => { rust[i] = UniquePtr::null(); rm[i] = None; }
            1 | 2 => { rust[i] = L::make(&mut lab, next); rm[i] = Some(v); next += 1; }
            3 => { rust[i] = L::null(&mut lab); rm[i] = None; }
            4 => {
                if let Some(p) = L::fresh(next) { rust[i] = p; rm[i] = Some(v); next += 1; }
            }
            5 => { let p = L::raw(&mut lab, next); rust[i] = unsafe { UniquePtr::from_raw(p) }; rm[i] = Some(v); next += 1; }
            6 => {
                let p = std::mem::replace(&mut rust[i], UniquePtr::null()).into_raw();
                ensure!(p.is_null() == rm[i].is_none(), "{what}: into_raw() gave {p:p}, model {:?}", rm[i]);
                match rm[i].take() {
                    Some(m) => raws.push((p, m)),
                    None => { let q: UniquePtr<L::T> = unsafe { UniquePtr::from_raw(p) }; ensure!(q.is_null(), "from_raw(null) is not null"); }
                }
            }
            7 => {
                if let Some((p, m)) = raws.pop() {
                    if s.coin() { rust[i] = unsafe { UniquePtr::from_raw(p) }; rm[i] = Some(m); } else { raws.push((p, m)); }
                }
            }
            8 | 9 => { L::put(&mut lab, i, std::mem::replace(&mut rust[j], UniquePtr::null())); cm[i] = rm[j].take(); }
            10 | 11 => { rust[i] = L::take(&mut lab, j); rm[i] = cm[j].take(); }
            12 => { rust.swap(i, j); rm.swap(i, j); }
            13 => {
                match rust[i].as_mut() {
                    Some(p) => { ensure!(rm[i].is_some(), "{what}: as_mut of null"); L::bump_of(&mut lab, p); rm[i] = rm[i].map(|x| x + 1); }
                    None => ensure!(rm[i].is_none(), "{what}: as_mut() is None, model {:?}", rm[i]),
                }
            }
            14 => {
                if rm[i].is_some() { L::bump_of(&mut lab, rust[i].pin_mut()); rm[i] = rm[i].map(|x| x + 1); }
                else {
                    null_panics(|| { rust[i].pin_mut(); }, "pin_mut", "UniquePtr<")?;
                    null_panics(|| { let _ = &*rust[i]; }, "deref", "UniquePtr<")?;
                }
            }
            15 => { // C++ changes a Rust-owned unique_ptr in place
                let kind = s.below(6) as u32;
                s.note(|| format!("  meddle kind {kind}"));
                L::meddle(&mut lab, &mut rust[i], kind, next);
                match kind { 0 | 2 => rm[i] = None, 1 => { rm[i] = Some(v); next += 1; } 4 => std::mem::swap(&mut rm[i], &mut cm[0]), _ => {} }
            }
            16 => { // Rust changes a C++-owned one in place
                std::mem::swap(L::poke(&mut lab, i), &mut rust[j]);
                std::mem::swap(&mut cm[i], &mut rm[j]);
            }
            17 => { *L::poke(&mut lab, i) = UniquePtr::null(); cm[i] = None; }
            18 | 19 => {
                let kind = s.below(3) as u32;
                let r = L::pass(&mut lab, std::mem::replace(&mut rust[i], UniquePtr::null()), kind);
                ensure!(r.is_err() == (kind == 1), "{what}: pass({kind}) returned error {}", r.is_err());
                let m = rm[i].take();
                if kind == 2 { cm[1] = None; }
                if let Ok(p) = r { rust[i] = p; rm[i] = m; }
            }
            20 => { let b = Box::new(std::mem::replace(&mut rust[i], UniquePtr::null())); let m = rm[i].take(); rust[j] = *b; rm[j] = m; }
            21 => { // unwinding drops it
                let p = std::mem::replace(&mut rust[i], UniquePtr::null());
                rm[i] = None;
                let _ = catch_unwind(AssertUnwindSafe(move || { let _keep = p; panic!("x") }));
            }
            22 => { let q = L::peek(&lab, i); look(&lab, q, cm[i], &what)?; }
            _ => { drop(std::mem::replace(&mut rust[i], UniquePtr::null())); rm[i] = None; }
        }
        for k in 0..3 {
            look(&lab, &rust[k], rm[k], &format!("after {what}: Rust pointer {k}"))?;
            look(&lab, L::peek(&lab, k), cm[k], &format!("after {what}: C++ pointer {k}"))?;
            let got = lab.id(k);
            ensure!(got == cm[k].unwrap_or(0), "after {what}: C++ pointer {k} has value {got:#x}, expected {:?}", cm[k]);
        }
        if is_obj {
            let want: u64 = rm.iter().chain(&cm).flatten().chain(raws.iter().map(|r| &r.1)).map(|v| ((v >> 8) << 16) + 1).sum();
            let got = ffi::live_objs().wrapping_sub(base);
            ensure!(got == want, "after {what}: {} live objects, expected {} (fingerprints {got:#x}/{want:#x})", got & 0xffff, want & 0xffff);
        }
    }
    for (p, _) in raws { drop(unsafe { UniquePtr::from_raw(p) }); }
    drop(rust);
    drop(lab);
    if is_obj { ensure!(ffi::live_objs() == base, "objects remain alive at the end"); }
    if kinds.count_ones() >= 6 { s.nontrivial(); }
    Ok(())
}

fn h<T: Hash>(t: &T) -> u64 {
    let mut x = DefaultHasher::new();
    t.hash(&mut x);
    x.finish()
}

/// Comparison, hashing and formatting of a pointer against those of its target.
fn fwd<P: Debug + Display + PartialEq + PartialOrd + Hash, T: Debug + Display + PartialEq + PartialOrd + Hash>(a: &P, b: &P, x: Option<&T>, y: Option<&T>, ord: Option<Ordering>) -> Outcome {
    ensure!((a == b) == (x == y), "pointers to {x:?} and {y:?}: == gives {}", a == b);
    ensure!((a != b) == (x != y), "pointers to {x:?} and {y:?}: != gives {}", a != b);
    ensure!(a.partial_cmp(b) == x.partial_cmp(&y), "pointers to {x:?} and {y:?}: partial_cmp gives {:?}, targets {:?}", a.partial_cmp(b), x.partial_cmp(&y));
    ensure!((a < b, a <= b, a > b, a >= b) == (x < y, x <= y, x > y, x >= y), "pointers to {x:?} and {y:?}: comparison operators disagree");
    if let Some(o) = ord { ensure!(Some(o) == x.partial_cmp(&y), "pointers to {x:?} and {y:?}: cmp gives {o:?}"); }
    if a == b { ensure!(h(a) == h(b), "equal pointers hash differently"); }
    for (p, t) in [(a, x), (b, y)] {
        let (d, dd, w, alt) = (format!("{p}"), format!("{p:?}"), format!("{p:>40}"), format!("{p:#?}"));
        match t {
            None => ensure!(d == "nullptr" && dd == "nullptr", "null pointer formats as {d:?}/{dd:?}"),
            Some(t) => {
                ensure!(d == format!("{t}") && dd == format!("{t:?}"), "pointer formats as {d:?}/{dd:?}, target {t:?}");
                ensure!(w == format!("{t:>40}") && alt == format!("{t:#?}"), "pointer ignores format options: {w:?}/{alt:?}");
            }
        }
    }
    Ok(())
}

fn unique_traits(s: &mut Src) -> Outcome {
    if s.coin() {
        let mk = |s: &mut Src| -> Option<ffi::PS> { if s.chance(1, 4) { None } else { Some(ffi::PS { a: s.below(3), b: gen_text(s, 2), pad: s.below(2) as u8 }) } };
        let (x, y) = (mk(s), mk(s));
        let wrap = |t: &Option<ffi::PS>| match t {
            None => UniquePtr::null(),
            Some(t) => UniquePtr::new(ffi::PS { a: t.a, b: t.b.clone(), pad: t.pad }),
        };
        let (a, b) = (wrap(&x), wrap(&y));
        s.note(|| format!("{x:?} vs {y:?}"));
        if x.is_some() && y.is_some() { s.nontrivial(); }
        fwd(&a, &b, x.as_ref(), y.as_ref(), Some(a.cmp(&b)))?;
        // DerefMut for Unpin targets.
        let mut a = a;
        if x.is_some() {
            a.a = 77;
            ensure!(a.as_ref().unwrap().a == 77, "deref_mut wrote elsewhere");
        } else {
            null_panics(|| a.a = 1, "deref_mut", "UniquePtr<")?;
        }
    } else {
        let mut lab = ffi::new_ulab_str();
        let mk = |s: &mut Src, lab: &mut UniquePtr<ffi::ULab_str>| if s.chance(1, 4) { UniquePtr::null() } else { let v = s.below(3); lab.pin_mut().make(v) };
        let (a, b) = (mk(s, &mut lab), mk(s, &mut lab));
        if !a.is_null() && !b.is_null() { s.nontrivial(); }
        fwd::<UniquePtr<CxxString>, CxxString>(&a, &b, a.as_ref(), b.as_ref(), Some(a.cmp(&b)))?;
    }
    Ok(())
}

// A stream whose every trait method is distinguishable in its trace.
fn b(s: &[u8]) -> String { s.iter().map(|x| format!("{x:02x}")).collect() }
impl Read for Pin<&mut ffi::Stream> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> { self.as_mut().note(&format!("read {}", buf.len())); if let Some(x) = buf.first_mut() { *x = 1; } Ok(buf.len().min(1)) }
    fn read_to_end(&mut self, buf: &mut Vec<u8>) -> io::Result<usize> { self.as_mut().note(&format!("read_to_end {}", b(buf))); buf.push(2); Ok(1) }
    fn read_to_string(&mut self, buf: &mut String) -> io::Result<usize> { self.as_mut().note(&format!("read_to_string {buf}")); buf.push('z'); Ok(3) }
    fn read_exact(&mut self, buf: &mut [u8]) -> io::Result<()> { self.as_mut().note(&format!("read_exact {}", buf.len())); for x in buf.iter_mut() { *x = 9; } if buf.len() > 3 { Err(io::Error::new(io::ErrorKind::UnexpectedEof, "short")) } else { Ok(()) } }
}
impl Seek for Pin<&mut ffi::Stream> {
    fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> { self.as_mut().note(&format!("seek {pos:?}")); match pos { SeekFrom::End(x) if x < 0 => Err(io::Error::new(io::ErrorKind::InvalidInput, "neg")), SeekFrom::Start(n) => Ok(n), _ => Ok(5) } }
    fn rewind(&mut self) -> io::Result<()> { self.as_mut().note("rewind"); Ok(()) }
    fn stream_position(&mut self) -> io::Result<u64> { self.as_mut().note("stream_position"); Ok(41) }
    fn seek_relative(&mut self, o: i64) -> io::Result<()> { self.as_mut().note(&format!("seek_relative {o}")); Ok(()) }
}
impl Write for Pin<&mut ffi::Stream> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> { self.as_mut().note(&format!("write {}", b(buf))); Ok(buf.len() / 2) }
    fn write_vectored(&mut self, bufs: &[IoSlice]) -> io::Result<usize> { self.as_mut().note(&format!("write_vectored {}", bufs.iter().map(|x| b(x)).collect::<Vec<_>>().join(","))); Ok(bufs.len()) }
    fn flush(&mut self) -> io::Result<()> { self.as_mut().note("flush"); Err(io::Error::other("flush")) }
    fn write_all(&mut self, buf: &[u8]) -> io::Result<()> { self.as_mut().note(&format!("write_all {}", b(buf))); Ok(()) }
    fn write_fmt(&mut self, f: fmt::Arguments) -> io::Result<()> { self.as_mut().note(&format!("write_fmt {f}")); Ok(()) }
}
fn drive<X: Read + Seek + Write>(s: &mut Src, x: &mut X) -> String {
    let mut out = String::new();
    for _ in 0..s.us(8) {
        let n = s.us(6);
        let data: Vec<u8> = (0..n).map(|k| k as u8 ^ 0x5a).collect();
        let mut buf = vec![0u8; n];
        let k = s.below(13);
        let r = match k {
            0 => format!("{:?} {buf:?}", x.read(&mut buf).map_err(|e| e.to_string())),
            1 => { let r = x.read_to_end(&mut buf).map_err(|e| e.to_string()); format!("{r:?} {buf:?}") }
            2 => { let mut t = "ab".repeat(n); let r = x.read_to_string(&mut t).map_err(|e| e.to_string()); format!("{r:?} {t}") }
            3 => { let r = x.read_exact(&mut buf).map_err(|e| e.to_string()); format!("{r:?} {buf:?}") }
            4 => format!("{:?}", x.seek(match n { 0 => SeekFrom::End(-1), 1 | 2 => SeekFrom::Current(n as i64), 3 => SeekFrom::End(4), _ => SeekFrom::Start(n as u64) }).map_err(|e| e.to_string())),
            5 => format!("{:?}", x.rewind().map_err(|e| e.to_string())),
            6 => format!("{:?}", x.stream_position().map_err(|e| e.to_string())),
            7 => format!("{:?}", x.seek_relative(n as i64 - 2).map_err(|e| e.to_string())),
            8 => format!("{:?}", x.write(&data).map_err(|e| e.to_string())),
            9 => { let parts: Vec<IoSlice> = data.chunks(2).map(IoSlice::new).collect(); format!("{:?}", x.write_vectored(&parts).map_err(|e| e.to_string())) }
            10 => format!("{:?}", x.flush().map_err(|e| e.to_string())),
            11 => format!("{:?}", x.write_all(&data).map_err(|e| e.to_string())),
            _ => format!("{:?}", write!(x, "{n}-{:?}", data).map_err(|e| e.to_string())),
        };
        out += &format!("[{k}] {r}\n");
    }
    out
}
fn unique_io(s: &mut Src) -> Outcome {
    // Differential: the same program through the UniquePtr and through the pin.
    let mut direct = ffi::new_stream();
    let mut through = ffi::new_stream();
    let a = drive(s, &mut direct.pin_mut());
    let mut again = Src::replay(s.choices().to_vec());
    let c = drive(&mut again, &mut through);
    s.note(|| a.clone());
    if a.lines().count() >= 3 { s.nontrivial(); }
    ensure!(a == c, "I/O through UniquePtr gives\n{c}\ndirectly\n{a}");
    let (t, u) = (direct.trace(), through.trace());
    ensure!(t == u, "I/O through UniquePtr calls {u:?}, directly {t:?}");
    if s.chance(1, 8) {
        let mut n: UniquePtr<ffi::Stream> = UniquePtr::null();
        null_panics(|| { let _ = n.read(&mut [0]); }, "read", "UniquePtr<")?;
        null_panics(|| { let _ = n.flush(); }, "flush", "UniquePtr<")?;
        null_panics(|| { let _ = n.rewind(); }, "rewind", "UniquePtr<")?;
    }
    Ok(())
}

// ---------------------------------------------------------------- SharedPtr

pub trait SLab: UniquePtrTarget + Sized {
    type T: SharedPtrTarget + WeakPtrTarget;
    fn new() -> UniquePtr<Self>;
    fn make(l: &mut UniquePtr<Self>, v: u64) -> SharedPtr<Self::T>;
    fn null(l: &mut UniquePtr<Self>) -> SharedPtr<Self::T>;
    fn wnull(l: &mut UniquePtr<Self>) -> WeakPtr<Self::T>;
    fn put(l: &mut UniquePtr<Self>, i: usize, p: SharedPtr<Self::T>);
    fn take(l: &mut UniquePtr<Self>, i: usize, copy: bool) -> SharedPtr<Self::T>;
    fn wput(l: &mut UniquePtr<Self>, i: usize, p: WeakPtr<Self::T>);
    fn wtake(l: &mut UniquePtr<Self>, i: usize, copy: bool) -> WeakPtr<Self::T>;
    fn peek(&self, i: usize) -> &SharedPtr<Self::T>;
    fn poke(l: &mut UniquePtr<Self>, i: usize) -> &mut SharedPtr<Self::T>;
    fn wpeek(&self, i: usize) -> &WeakPtr<Self::T>;
    fn wpoke(l: &mut UniquePtr<Self>, i: usize) -> &mut WeakPtr<Self::T>;
    fn val(&self, v: &Self::T) -> u64;
    fn op(l: &mut UniquePtr<Self>, op: u32, i: usize, j: usize);
    fn addr(&self, p: &SharedPtr<Self::T>) -> usize;
    fn count(&self, p: &SharedPtr<Self::T>) -> i64;
    fn wcount(&self, p: &WeakPtr<Self::T>) -> i64;
    fn fresh(v: u64) -> Option<SharedPtr<Self::T>>;
}
macro_rules! impl_slab {
    ($l:ty, $t:ty, $new:path, |$w:ident| $fresh:expr) => {
        impl crate::ptrs::SLab for $l {
            type T = $t;
            fn new() -> UniquePtr<Self> { $new() }
            fn make(l: &mut UniquePtr<Self>, v: u64) -> SharedPtr<$t> { l.pin_mut().make(v) }
            fn null(l: &mut UniquePtr<Self>) -> SharedPtr<$t> { l.pin_mut().null() }
            fn wnull(l: &mut UniquePtr<Self>) -> WeakPtr<$t> { l.pin_mut().wnull() }
            fn put(l: &mut UniquePtr<Self>, i: usize, p: SharedPtr<$t>) { l.pin_mut().put(i, p) }
            fn take(l: &mut UniquePtr<Self>, i: usize, copy: bool) -> SharedPtr<$t> { l.pin_mut().take(i, copy) }
            fn wput(l: &mut UniquePtr<Self>, i: usize, p: WeakPtr<$t>) { l.pin_mut().wput(i, p) }
            fn wtake(l: &mut UniquePtr<Self>, i: usize, copy: bool) -> WeakPtr<$t> { l.pin_mut().wtake(i, copy) }
            fn peek(&self, i: usize) -> &SharedPtr<$t> { <$l>::peek(self, i) }
            fn poke(l: &mut UniquePtr<Self>, i: usize) -> &mut SharedPtr<$t> { l.pin_mut().poke(i) }
            fn wpeek(&self, i: usize) -> &WeakPtr<$t> { <$l>::wpeek(self, i) }
            fn wpoke(l: &mut UniquePtr<Self>, i: usize) -> &mut WeakPtr<$t> { l.pin_mut().wpoke(i) }
            fn val(&self, v: &$t) -> u64 { <$l>::val(self, v) }
            fn op(l: &mut UniquePtr<Self>, op: u32, i: usize, j: usize) { l.pin_mut().op(op, i, j) }
            fn addr(&self, p: &SharedPtr<$t>) -> usize { <$l>::addr(self, p) }
            fn count(&self, p: &SharedPtr<$t>) -> i64 { <$l>::count(self, p) }
            fn wcount(&self, p: &WeakPtr<$t>) -> i64 { <$l>::wcount(self, p) }
            #[allow(unused_variables)]
            fn fresh($w: u64) -> Option<SharedPtr<$t>> { $fresh }
        }
    };
}
pub(crate) use impl_slab;

fn shared_history<L: SLab>(s: &mut Src, kind: u8) -> Outcome {
    // kind: 0 opaque object (liveness observable), 1 other class types, 2 primitives
    let base = ffi::live_objs();
    let mut lab = L::new();
    const N: usize = 3;
    let mut rs: Vec<SharedPtr<L::T>> = (0..N).map(|_| SharedPtr::null()).collect();
    let mut rw: Vec<WeakPtr<L::T>> = (0..N).map(|_| WeakPtr::null()).collect();
    // Model: [0..N) Rust, [N..2N) C++; index into `vals`.
    let mut ms: Vec<Option<usize>> = vec![None; 2 * N];
    let mut mw: Vec<Option<usize>> = vec![None; 2 * N];
    let mut vals: Vec<u64> = vec![];
    let mut kinds = 0u64;
    for _ in 0..s.us(40) {
        let op = s.below(34);
        let i = s.us(N);
        let j = s.us(N);
        let id = if kind == 2 { s.below(128) } else { vals.len() as u64 + 1 };
        let v = id;
        let strong = |ms: &[Option<usize>], b: Option<usize>| b.map_or(0, |b| ms.iter().filter(|m| **m == Some(b)).count());
        let what = format!("op {op}(i={i}, j={j}, v={v})");
        s.note(|| what.clone());
        kinds |= 1 << op;
        match op {
            0 => { rs[i] = SharedPtr::null(); ms[i] = None; }
            1 => { rw[i] = WeakPtr::null(); mw[i] = None; }
            2 => { rs[i] = L::null(&mut lab); ms[i] = None; }
            3 => { rw[i] = L::wnull(&mut lab); mw[i] = None; }
            4 | 5 | 6 => { rs[i] = L::make(&mut lab, v); ms[i] = Some(vals.len()); vals.push(v); }
            7 | 8 => { if let Some(p) = L::fresh(v) { rs[i] = p; ms[i] = Some(vals.len()); vals.push(v); } }
            9 | 10 => { rs[i] = rs[j].clone(); ms[i] = ms[j]; }
            11 | 12 => { rw[i] = rs[j].downgrade(); mw[i] = ms[j]; }
            13 => { rw[i] = rw[j].clone(); mw[i] = mw[j]; }
            14 | 15 => {
                let p = rw[j].upgrade();
                let alive = strong(&ms, mw[j]) > 0;
                ensure!(p.is_null() == !alive, "{what}: upgrade() null {}, but {} strong pointers exist", p.is_null(), strong(&ms, mw[j]));
                ms[i] = if alive { mw[j] } else { None };
                rs[i] = p;
            }
            16 | 17 => { L::put(&mut lab, i, rs[j].clone()); ms[N + i] = ms[j]; }
            18 => { L::put(&mut lab, i, std::mem::replace(&mut rs[j], SharedPtr::null())); ms[N + i] = ms[j].take(); }
            19 => { let c = s.coin(); rs[i] = L::take(&mut lab, j, c); ms[i] = ms[N + j]; if !c { ms[N + j] = None; } }
            20 => { L::wput(&mut lab, i, rw[j].clone()); mw[N + i] = mw[j]; }
            21 => { L::wput(&mut lab, i, std::mem::replace(&mut rw[j], WeakPtr::null())); mw[N + i] = mw[j].take(); }
            22 => { let c = s.coin(); rw[i] = L::wtake(&mut lab, j, c); mw[i] = mw[N + j]; if !c { mw[N + j] = None; } }
            23 => { std::mem::swap(L::poke(&mut lab, i), &mut rs[j]); ms.swap(N + i, j); }
            24 => { std::mem::swap(L::wpoke(&mut lab, i), &mut rw[j]); mw.swap(N + i, j); }
            25 => { *L::poke(&mut lab, i) = rs[j].clone(); ms[N + i] = ms[j]; }
            26 => { *L::wpoke(&mut lab, i) = rs[j].downgrade(); mw[N + i] = ms[j]; }
            27 => { rs.swap(i, j); ms.swap(i, j); }
            28 => {
                let p = rs[i].clone();
                let _ = catch_unwind(AssertUnwindSafe(move || { let _keep = p; panic!("x") }));
            }
            29 => { if ms[i].is_none() { null_panics(|| { let _ = &*rs[i]; }, "deref", "SharedPtr<")?; } }
            _ => {
                let o = s.below(12) as u32;
                s.note(|| format!("  C++ op {o}"));
                let lock = |ms: &[Option<usize>], b: Option<usize>| if strong(ms, b) > 0 { b } else { None };
                let (a, c) = (N + i, N + j);
                match o {
                    0 => ms[a] = None,
                    1 => mw[a] = None,
                    2 => ms[a] = ms[c],
                    3 => mw[a] = mw[c],
                    4 | 9 => mw[a] = ms[c],
                    5 | 10 => { let b = lock(&ms, mw[c]); ms[a] = b; }
                    6 => ms.swap(a, c),
                    7 => mw.swap(a, c),
                    8 => ms[a] = ms[c],
                    _ => { let b = lock(&ms, mw[c]); mw[c] = None; ms[a] = b; }
                }
                L::op(&mut lab, o, i, j);
            }
        }
        for k in 0..2 * N {
            let (p, w, side) = if k < N { (&rs[k], &rw[k], "Rust") } else { (L::peek(&lab, k - N), L::wpeek(&lab, k - N), "C++") };
            let m = ms[k];
            ensure!(p.is_null() == m.is_none(), "after {what}: {side} shared {k}: is_null() is {}, model {m:?}", p.is_null());
            let (c, n) = (lab.count(p), strong(&ms, m) as i64);
            ensure!(c == n, "after {what}: {side} shared {k}: use_count {c}, expected {n}");
            match (p.as_ref(), m) {
                (None, None) => {}
                (Some(r), Some(m)) => {
                    ensure!(r as *const L::T as usize == lab.addr(p), "after {what}: {side} shared {k}: as_ref() denotes another object than get()");
                    ensure!(std::ptr::eq(&**p, r), "after {what}: deref denotes another object");
                    let got = lab.val(r);
                    let want = match kind { 2 => lab.norm(vals[m]), _ => vals[m] << 8 };
                    ensure!(got == want, "after {what}: {side} shared {k}: value {got:#x}, expected {want:#x}");
                    for q in 0..k {
                        if ms[q].is_some() {
                            let o = if q < N { &rs[q] } else { L::peek(&lab, q - N) };
                            ensure!((lab.addr(o) == lab.addr(p)) == (ms[q] == Some(m)), "after {what}: shared {q} and {k} alias wrongly");
                        }
                    }
                }
                (r, m) => return Err(format!("after {what}: {side} shared {k}: as_ref() is_some {}, model {m:?}", r.is_some())),
            }
            let (c, n) = (lab.wcount(w), strong(&ms, mw[k]) as i64);
            ensure!(c == n, "after {what}: {side} weak {k}: use_count {c}, expected {n}");
        }
        if kind == 0 {
            let mut live: Vec<usize> = ms.iter().flatten().copied().collect();
            live.sort_unstable();
            live.dedup();
            let want: u64 = live.iter().map(|b| (vals[*b] << 16) + 1).sum();
            let got = ffi::live_objs().wrapping_sub(base);
            ensure!(got == want, "after {what}: {} live objects, expected {}", got & 0xffff, want & 0xffff);
        }
    }
    drop((rs, rw));
    drop(lab);
    if kind == 0 { ensure!(ffi::live_objs() == base, "objects remain alive at the end"); }
    if kinds.count_ones() >= 6 { s.nontrivial(); }
    Ok(())
}
trait Mask { fn norm(&self, v: u64) -> u64; }
impl<L: SLab> Mask for UniquePtr<L> {
    /// The payload a primitive keeps (bool keeps only whether it is zero).
    fn norm(&self, v: u64) -> u64 {
        if std::any::type_name::<L::T>() == "bool" { u64::from(v != 0) } else { v }
    }
}

fn shared_prims(s: &mut Src) -> Outcome {
    match s.indexed(13) {
        0 => shared_history::<ffi::SLab_bool>(s, 2),
        1 => shared_history::<ffi::SLab_u8>(s, 2),
        2 => shared_history::<ffi::SLab_u16>(s, 2),
        3 => shared_history::<ffi::SLab_u32>(s, 2),
        4 => shared_history::<ffi::SLab_u64>(s, 2),
        5 => shared_history::<ffi::SLab_usize>(s, 2),
        6 => shared_history::<ffi::SLab_i8>(s, 2),
        7 => shared_history::<ffi::SLab_i16>(s, 2),
        8 => shared_history::<ffi::SLab_i32>(s, 2),
        9 => shared_history::<ffi::SLab_i64>(s, 2),
        10 => shared_history::<ffi::SLab_isize>(s, 2),
        11 => shared_history::<ffi::SLab_f32>(s, 2),
        _ => shared_history::<ffi::SLab_f64>(s, 2),
    }
}

/// Aliasing shared_ptrs: the pointer and the owned object are independent.
fn aliasing(s: &mut Src) -> Outcome {
    let mut owner = SharedPtr::new(ps(s.below(100)));
    let mut lab = ffi::new_slab_u64();
    let null = s.coin();
    let a = ffi::alias_u64(&owner, null);
    let n = s.us(4);
    s.note(|| format!("alias of a field, null={null}, {n} clones"));
    s.nontrivial();
    let clones: Vec<SharedPtr<u64>> = (0..n).map(|_| a.clone()).collect();
    let w = a.downgrade();
    for c in clones.iter().chain([&a]) {
        ensure!(c.is_null() == null, "alias is_null() {}", c.is_null());
        ensure!(c.as_ref().is_none() == null, "alias as_ref() wrong");
        if let Some(r) = c.as_ref() { ensure!(std::ptr::eq(r, &owner.a), "alias denotes another object"); }
        ensure!(lab.count(c) == n as i64 + 2, "alias use_count {}", lab.count(c));
    }
    let addr = lab.addr(&a);
    owner = SharedPtr::null(); // the aliases keep the struct alive
    ensure!(owner.is_null(), "null");
    ensure!(lab.count(&a) == n as i64 + 1, "alias use_count {} after dropping the owner", lab.count(&a));
    if let Some(r) = a.as_ref() { ensure!(*r % 256 == 0 && addr == r as *const u64 as usize, "alias changed"); }
    let up = w.upgrade();
    ensure!(lab.count(&up) == n as i64 + 2 && up.is_null() == null, "upgraded alias: count {}, null {}", lab.count(&up), up.is_null());
    SLab::put(&mut lab, 0, up);
    drop((a, clones));
    ensure!(lab.wcount(&w) == 1, "C++ holds the last alias but the count is {}", lab.wcount(&w));
    drop(lab);
    ensure!(w.upgrade().is_null(), "upgrade after the last strong pointer died");
    Ok(())
}

fn shared_traits(s: &mut Src) -> Outcome {
    if s.coin() {
        let mk = |s: &mut Src| -> Option<ffi::PS> { if s.chance(1, 4) { None } else { Some(ffi::PS { a: s.below(3), b: gen_text(s, 2), pad: s.below(2) as u8 }) } };
        let (x, y) = (mk(s), mk(s));
        let wrap = |t: &Option<ffi::PS>| match t {
            None => SharedPtr::null(),
            Some(t) => SharedPtr::new(ffi::PS { a: t.a, b: t.b.clone(), pad: t.pad }),
        };
        let (a, b) = (wrap(&x), wrap(&y));
        s.note(|| format!("{x:?} vs {y:?}"));
        if x.is_some() && y.is_some() { s.nontrivial(); }
        fwd(&a, &b, x.as_ref(), y.as_ref(), Some(a.cmp(&b)))?;
    } else {
        // Partially ordered targets.
        let x = s.f64();
        let y = if s.coin() { x } else { s.f64() };
        let (a, b) = (SharedPtr::new(x), if s.chance(1, 8) { SharedPtr::null() } else { SharedPtr::new(y) });
        s.note(|| format!("{x:?} vs {y:?}"));
        s.nontrivial();
        let (p, q) = (a.as_ref(), b.as_ref());
        ensure!((a == b) == (p == q) && (a != b) == (p != q), "pointers to {p:?}, {q:?}: equality differs");
        ensure!(a.partial_cmp(&b) == p.partial_cmp(&q), "pointers to {p:?}, {q:?}: partial_cmp differs");
        ensure!((a < b, a <= b, a > b, a >= b) == (p < q, p <= q, p > q, p >= q), "pointers to {p:?}, {q:?}: operators differ");
        ensure!(format!("{a} {a:?} {a:+.3}") == format!("{x} {x:?} {x:+.3}"), "pointer to {x:?} formats as {a:?}");
    }
    let w: WeakPtr<ffi::PS> = WeakPtr::null();
    ensure!(w.upgrade().is_null(), "null weak pointer upgrades");
    Ok(())
}

struct Par(SharedPtr<ffi::Obj>, WeakPtr<ffi::Obj>);
unsafe impl Send for Par {}
/// Reference counts under concurrent clone/drop/upgrade from both languages.
fn threads(s: &mut Src) -> Outcome {
    let base = ffi::live_objs();
    let mut lab = ffi::new_slab_obj();
    let p = lab.pin_mut().make(5);
    let w = p.downgrade();
    let nt = s.urange(2, 5);
    let plans: Vec<Vec<u64>> = (0..nt).map(|_| { let n = s.urange(1, 12); (0..n).map(|_| s.below(6)).collect() }).collect();
    s.note(|| format!("{plans:?}"));
    s.nontrivial();
    let hs: Vec<_> = plans.into_iter().map(|plan| {
        let mine = Par(p.clone(), w.clone());
        std::thread::spawn(move || {
            let mine = mine;
            let Par(ref p, ref w) = mine;
            let mut ok = true;
            let mut keep = vec![];
            for k in plan {
                match k {
                    0 => keep.push(p.clone()),
                    1 => { keep.pop(); }
                    2 => ok &= ffi::churn(p, w, 20),
                    3 => { for _ in 0..20 { let u = w.upgrade(); ok &= !u.is_null() && u.id() == 5; } }
                    4 => { for _ in 0..20 { let d = p.downgrade(); ok &= !d.clone().upgrade().is_null(); } }
                    _ => { for _ in 0..20 { drop(p.clone()); } }
                }
            }
            ok
        })
    }).collect();
    let mut ok = true;
    for h in hs { ok &= h.join().unwrap_or(false); }
    ensure!(ok, "an upgrade failed although a strong pointer was alive");
    ensure!(lab.count(&p) == 1, "use_count {} after all threads finished, expected 1", lab.count(&p));
    drop(p);
    ensure!(w.upgrade().is_null() && ffi::live_objs() == base, "object not destroyed after the last strong pointer");
    Ok(())
}

macro_rules! case {
    ($n:expr, $q:expr, $t:expr, $f:expr) => { Prop { name: $n, quick: $q, thorough: $t, f: |s| balanced(s, $f) } };
}
pub fn c08() -> Vec<Prop> {
    vec![
        case!("opaque", 80_000, 800_000, |s| unique_history::<ffi::ULab_obj>(s, true)),
        case!("shared_struct", 48_000, 400_000, |s| unique_history::<ffi::ULab_ps>(s, false)),
        case!("cxx_string", 32_000, 300_000, |s| unique_history::<ffi::ULab_str>(s, false)),
        case!("vector_of_u64", 24_000, 200_000, |s| unique_history::<ffi::ULab_vu>(s, false)),
        case!("vector_of_struct", 24_000, 200_000, |s| unique_history::<ffi::ULab_vp>(s, false)),
        case!("vector_of_string", 24_000, 200_000, |s| unique_history::<ffi::ULab_vs>(s, false)),
        case!("traits", 80_000, 500_000, unique_traits),
        case!("io", 120_000, 500_000, unique_io),
    ]
}
pub fn c09() -> Vec<Prop> {
    vec![
        case!("opaque", 48_000, 400_000, |s| shared_history::<ffi::SLab_obj>(s, 0)),
        case!("shared_struct", 24_000, 200_000, |s| shared_history::<ffi::SLab_ps>(s, 1)),
        case!("cxx_string", 24_000, 200_000, |s| shared_history::<ffi::SLab_str>(s, 1)),
        case!("primitives", 40_000, 300_000, shared_prims),
        case!("aliasing", 16_000, 100_000, aliasing),
        case!("traits", 80_000, 500_000, shared_traits),
        Prop { name: "threads", quick: 1_000, thorough: 20_000, f: threads },
    ]
}
