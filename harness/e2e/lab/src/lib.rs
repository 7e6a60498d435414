//! Runtime of the generated programs: values from seeds, digests, the event
//! logs of callers (A) and callees (B), and leak accounting.
#![allow(static_mut_refs, clippy::all)]

use cxx::memory::{SharedPtrTarget, UniquePtrTarget, WeakPtrTarget};
use cxx::vector::VectorElement;
use cxx::{CxxString, CxxVector, SharedPtr, UniquePtr, WeakPtr};
use std::alloc::{GlobalAlloc, Layout, System};
use std::os::raw::{c_char, c_void};
use std::pin::Pin;

pub use cxx;

// ---- accounting ----

static mut ALLOCS: i64 = 0;
static mut LIVE: i64 = 0;
static mut DEPTH: i64 = 0;
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        ALLOCS += 1;
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        ALLOCS -= 1;
        System.dealloc(p, l)
    }
}
#[global_allocator]
static GLOBAL: Counting = Counting;

#[no_mangle]
pub extern "C" fn lab_alloc(d: i64) {
    unsafe { ALLOCS += d }
}
#[no_mangle]
pub extern "C" fn lab_live(d: i64) {
    unsafe { LIVE += d }
}
#[no_mangle]
pub extern "C" fn lab_depth(d: i64) -> i64 {
    unsafe {
        DEPTH += d;
        DEPTH
    }
}

/// Counts the instances of the type containing it.
pub struct Live(Box<u64>);
impl Live {
    pub fn new(v: u64) -> Live {
        lab_live(1);
        Live(Box::new(v))
    }
    pub fn get(&self) -> u64 {
        *self.0
    }
}
impl Drop for Live {
    fn drop(&mut self) {
        lab_live(-1);
        *self.0 = 0xDEAD;
    }
}

// ---- events ----

const MAX: usize = 1 << 16;
static mut A: [(u32, u64); MAX] = [(0, 0); MAX];
static mut B: [(u32, u64); MAX] = [(0, 0); MAX];
static mut NA: usize = 0;
static mut NB: usize = 0;
static mut CALLS: usize = 0;
static mut STATE: u64 = 0;

#[no_mangle]
pub extern "C" fn lab_a(tag: u32, v: u64) {
    unsafe {
        if NA < MAX {
            A[NA] = (tag, v);
            NA += 1;
        }
    }
}
#[no_mangle]
pub extern "C" fn lab_b(tag: u32, v: u64) {
    unsafe {
        if NB < MAX {
            B[NB] = (tag, v);
            NB += 1;
        }
    }
}
pub fn a(tag: u32, v: u64) {
    lab_a(tag, v)
}
pub fn b(tag: u32, v: u64) {
    lab_b(tag, v)
}
#[no_mangle]
pub extern "C" fn lab_next() -> u64 {
    unsafe {
        STATE = mix(STATE, 0x1234_5678_9abc);
        STATE
    }
}
/// A callee begins.
#[no_mangle]
pub extern "C" fn lab_enter(k: u32) -> u64 {
    unsafe { CALLS += 1 }
    b(k << 8, 0);
    lab_next()
}
pub fn enter(k: u32) -> u64 {
    lab_enter(k)
}

static mut ARENA: Vec<(*mut c_void, unsafe extern "C" fn(*mut c_void))> = Vec::new();

#[no_mangle]
pub extern "C" fn lab_keep(p: *mut c_void, f: unsafe extern "C" fn(*mut c_void)) {
    unsafe { ARENA.push((p, f)) }
}

pub fn keep<T: 'static>(t: T) -> &'static mut T {
    unsafe extern "C" fn free<T>(p: *mut c_void) {
        drop(Box::from_raw(p.cast::<T>()))
    }
    let p = Box::into_raw(Box::new(t));
    lab_keep(p.cast(), free::<T>);
    unsafe { &mut *p }
}

/// Runs each drive for several seeds and exits at the first discrepancy.
pub fn run(drives: &[(u32, fn(u64))], rounds: u64, seed: u64) {
    unsafe {
        ARENA.reserve(MAX);
        // Whatever is allocated once, by printing for instance.
        println!("start");
        for round in 0..rounds {
            for (k, f) in drives {
                STATE = mix(mix(seed, round), *k as u64);
                (NA, NB, LIVE, DEPTH) = (0, 0, 0, 0);
                let before = ALLOCS;
                f(lab_next());
                while let Some((p, free)) = ARENA.pop() {
                    free(p);
                }
                let (na, nb, live, allocs) = (NA, NB, LIVE, ALLOCS - before);
                for i in 0..na.max(nb) {
                    let x = (i < na).then(|| A[i]);
                    let y = (i < nb).then(|| B[i]);
                    if x != y {
                        println!("FAIL {k} round {round}: event {i}: caller saw {}, callee saw {}", show(x), show(y));
                        std::process::exit(7);
                    }
                }
                if live != 0 || allocs != 0 {
                    println!("FAIL {k} round {round}: {live} objects and {allocs} allocations remain");
                    std::process::exit(7);
                }
            }
        }
        println!("calls {CALLS}");
    }
}

fn show(e: Option<(u32, u64)>) -> String {
    match e {
        None => "nothing".to_owned(),
        Some((t, v)) => {
            let what = match t & 255 {
                0 => "call".to_owned(),
                0x80 => "return value".to_owned(),
                0x81 => "error".to_owned(),
                s if s >= 0x40 => format!("arg {} after", s - 0x40),
                s => format!("arg {}", s - 1),
            };
            format!("#{} {what} {v:x}", t >> 8)
        }
    }
}

// ---- seeds and digests ----

pub fn mix(h: u64, v: u64) -> u64 {
    let x = (h ^ v.wrapping_mul(0x9E37_79B9_7F4A_7C15)).wrapping_mul(0xD6E8_FEB8_6659_FD93);
    x ^ (x >> 29)
}
pub fn fails(s: u64) -> bool {
    mix(s, 77) % 3 == 0
}
fn bytes(b: &[u8]) -> u64 {
    let mut h = b.len() as u64;
    for x in b {
        h = mix(h, *x as u64);
    }
    h
}
fn addr<T: ?Sized>(p: *const T) -> u64 {
    p.cast::<u8>() as usize as u64
}

pub trait Dig {
    fn dig(&self) -> u64;
}
pub trait Mk: Sized {
    fn mk(seed: u64) -> Self;
}
pub trait Stored: 'static {
    fn stored(seed: u64) -> &'static mut Self;
}
pub trait Set {
    fn set(self: Pin<&mut Self>, seed: u64);
}
impl<T: Mk + 'static> Stored for T {
    fn stored(seed: u64) -> &'static mut T {
        keep(T::mk(seed))
    }
}
impl<T: Mk> Set for T {
    fn set(self: Pin<&mut Self>, seed: u64) {
        unsafe { *self.get_unchecked_mut() = T::mk(seed) }
    }
}
pub fn set<T: Set + ?Sized>(t: &mut T, seed: u64) {
    unsafe { Pin::new_unchecked(t) }.set(seed)
}
pub fn set_slice<T: Set>(t: &mut [T], seed: u64) {
    for (i, e) in t.iter_mut().enumerate() {
        set(e, mix(seed, i as u64));
    }
}

/// How many elements a container gets.
fn len(seed: u64) -> usize {
    let max = [4, 3, 2, 0][unsafe { DEPTH }.clamp(0, 3) as usize];
    (mix(seed, 5) % (max + 1)) as usize
}
fn null(seed: u64) -> bool {
    unsafe { DEPTH > 2 || mix(seed, 6) % 4 == 0 }
}
pub struct Depth(());
impl Depth {
    pub fn new() -> Depth {
        lab_depth(1);
        Depth(())
    }
}
impl Drop for Depth {
    fn drop(&mut self) {
        lab_depth(-1);
    }
}

macro_rules! ints {
    ($($t:ty)*) => {$(
        impl Mk for $t { fn mk(seed: u64) -> $t {
            match mix(seed, 1) % 6 { 0 => <$t>::MIN, 1 => <$t>::MAX, 2 => 0, _ => mix(seed, 2) as $t }
        } }
        impl Dig for $t { fn dig(&self) -> u64 { mix(3, *self as i64 as u64) } }
    )*};
}
ints!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize);
impl Mk for bool {
    fn mk(seed: u64) -> bool {
        mix(seed, 2) & 1 == 1
    }
}
impl Dig for bool {
    fn dig(&self) -> u64 {
        // Not assuming that it is a valid bool.
        mix(3, unsafe { *(self as *const bool).cast::<u8>() } as u64)
    }
}
impl Mk for f32 {
    fn mk(seed: u64) -> f32 {
        match mix(seed, 1) % 8 { 0 => f32::NAN, 1 => -0.0, 2 => f32::INFINITY, 3 => f32::MIN_POSITIVE / 2.0, _ => mix(seed, 2) as i64 as f32 / 3.0 }
    }
}
impl Dig for f32 {
    fn dig(&self) -> u64 {
        mix(3, self.to_bits() as u64)
    }
}
impl Mk for f64 {
    fn mk(seed: u64) -> f64 {
        match mix(seed, 1) % 8 { 0 => f64::NAN, 1 => -0.0, 2 => f64::NEG_INFINITY, 3 => f64::MIN_POSITIVE / 2.0, _ => mix(seed, 2) as i64 as f64 / 3.0 }
    }
}
impl Dig for f64 {
    fn dig(&self) -> u64 {
        mix(3, self.to_bits())
    }
}

pub fn text(seed: u64) -> String {
    const P: [char; 10] = ['a', 'Z', '0', ' ', '\n', '\u{7f}', 'ü', 'ß', '語', '🦀'];
    let n = match mix(seed, 1) % 4 { 0 => 0, 1 => mix(seed, 2) % 5, _ => mix(seed, 2) % 40 };
    (0..n).map(|i| P[(mix(seed, 10 + i) % 10) as usize]).collect()
}
impl Mk for String {
    fn mk(seed: u64) -> String {
        text(seed)
    }
}
impl Dig for String {
    fn dig(&self) -> u64 {
        bytes(self.as_bytes())
    }
}
impl Dig for str {
    fn dig(&self) -> u64 {
        bytes(self.as_bytes())
    }
}
impl<'a> Mk for &'a str {
    fn mk(seed: u64) -> &'a str {
        keep(text(seed)).as_str()
    }
}
impl<'a> Dig for &'a str {
    fn dig(&self) -> u64 {
        mix(if self.is_empty() { 0 } else { addr(self.as_ptr()) }, bytes(self.as_bytes()))
    }
}
impl Dig for CxxString {
    fn dig(&self) -> u64 {
        bytes(self.as_bytes())
    }
}

extern "C" {
    fn lab_new_string(seed: u64) -> *mut CxxString;
    fn lab_free_string(p: *mut c_void);
    fn lab_shared_string(p: *mut c_void, seed: u64);
    fn lab_vec_string(seed: u64) -> *mut CxxVector<CxxString>;
    fn lab_vecset_string(v: *mut c_void, seed: u64);
}
impl Stored for CxxString {
    fn stored(seed: u64) -> &'static mut CxxString {
        unsafe {
            let p = lab_new_string(seed);
            lab_keep(p.cast(), lab_free_string);
            &mut *p
        }
    }
}
impl Set for CxxString {
    fn set(mut self: Pin<&mut Self>, seed: u64) {
        self.as_mut().clear();
        self.push_str(&text(seed));
    }
}

/// Targets of UniquePtr which Rust cannot create on its own.
pub trait NewU: UniquePtrTarget + Sized {
    fn unique(seed: u64) -> UniquePtr<Self>;
}
pub trait NewS: SharedPtrTarget + Sized {
    fn shared(seed: u64) -> SharedPtr<Self>;
}
pub trait NewV: VectorElement {
    fn vec(seed: u64) -> *mut CxxVector<Self>;
    fn vecset(v: Pin<&mut CxxVector<Self>>, seed: u64);
}
impl NewU for CxxString {
    fn unique(seed: u64) -> UniquePtr<CxxString> {
        unsafe { UniquePtr::from_raw(lab_new_string(seed)) }
    }
}
impl NewS for CxxString {
    fn shared(seed: u64) -> SharedPtr<CxxString> {
        unsafe {
            let mut p = std::mem::MaybeUninit::<SharedPtr<CxxString>>::uninit();
            lab_shared_string(p.as_mut_ptr().cast(), seed);
            p.assume_init()
        }
    }
}
impl NewV for CxxString {
    fn vec(seed: u64) -> *mut CxxVector<CxxString> {
        unsafe { lab_vec_string(seed) }
    }
    fn vecset(v: Pin<&mut CxxVector<CxxString>>, seed: u64) {
        unsafe { lab_vecset_string(v.get_unchecked_mut() as *mut _ as *mut c_void, seed) }
    }
}
macro_rules! prim_targets {
    ($($t:ident)*) => {$(
        impl NewS for $t { fn shared(seed: u64) -> SharedPtr<$t> { SharedPtr::new(<$t>::mk(seed)) } }
        impl NewV for $t {
            fn vec(seed: u64) -> *mut CxxVector<$t> {
                let mut v = CxxVector::<$t>::new();
                for i in 0..len(seed) { v.pin_mut().push(<$t>::mk(mix(seed, 40 + i as u64))); }
                v.into_raw()
            }
            fn vecset(mut v: Pin<&mut CxxVector<$t>>, seed: u64) {
                for mut e in v.as_mut().iter_mut() { *e = <$t>::mk(mix(seed, 3)); }
                v.push(<$t>::mk(seed));
            }
        }
    )*};
}
prim_targets!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize f32 f64);
impl NewS for bool {
    fn shared(seed: u64) -> SharedPtr<bool> {
        SharedPtr::new(bool::mk(seed))
    }
}
impl<T: NewV> NewU for CxxVector<T> {
    fn unique(seed: u64) -> UniquePtr<Self> {
        unsafe { UniquePtr::from_raw(T::vec(seed)) }
    }
}
impl<T: NewV + 'static> Stored for CxxVector<T> {
    fn stored(seed: u64) -> &'static mut Self {
        unsafe extern "C" fn free<T: NewV>(p: *mut c_void) {
            drop(UniquePtr::from_raw(p.cast::<CxxVector<T>>()))
        }
        let p = T::vec(seed);
        lab_keep(p.cast(), free::<T>);
        unsafe { &mut *p }
    }
}
impl<T: NewV> Set for CxxVector<T> {
    fn set(self: Pin<&mut Self>, seed: u64) {
        T::vecset(self, seed)
    }
}
impl<T: VectorElement + Dig> Dig for CxxVector<T> {
    fn dig(&self) -> u64 {
        let mut h = mix(self.len() as u64, if self.is_empty() { 0 } else { addr(self.get(0).unwrap()) });
        for e in self {
            h = mix(h, e.dig());
        }
        h
    }
}
impl<T: NewU> Mk for UniquePtr<T> {
    fn mk(seed: u64) -> Self {
        if null(seed) { UniquePtr::null() } else { T::unique(mix(seed, 7)) }
    }
}
impl<T: UniquePtrTarget + Dig> Dig for UniquePtr<T> {
    fn dig(&self) -> u64 {
        self.as_ref().map_or(9, |t| mix(addr(t), t.dig()))
    }
}
impl<T: NewS> Mk for SharedPtr<T> {
    fn mk(seed: u64) -> Self {
        if null(seed) { SharedPtr::null() } else { T::shared(mix(seed, 7)) }
    }
}
impl<T: SharedPtrTarget + Dig> Dig for SharedPtr<T> {
    fn dig(&self) -> u64 {
        self.as_ref().map_or(9, |t| mix(addr(t), t.dig()))
    }
}
impl<T: NewS + WeakPtrTarget + 'static> Mk for WeakPtr<T> {
    fn mk(seed: u64) -> Self {
        match mix(seed, 8) % 4 {
            0 => WeakPtr::null(),
            // Dangling.
            1 => SharedPtr::downgrade(&SharedPtr::<T>::mk(seed)),
            _ => SharedPtr::downgrade(keep(SharedPtr::<T>::mk(seed))),
        }
    }
}
impl<T: SharedPtrTarget + WeakPtrTarget + Dig> Dig for WeakPtr<T> {
    fn dig(&self) -> u64 {
        self.upgrade().dig()
    }
}
impl<T: Mk> Mk for Box<T> {
    fn mk(seed: u64) -> Self {
        Box::new(T::mk(mix(seed, 7)))
    }
}
impl<T: Dig> Dig for Box<T> {
    fn dig(&self) -> u64 {
        mix(addr(&**self), (**self).dig())
    }
}
impl<T: Mk> Mk for Vec<T> {
    fn mk(seed: u64) -> Self {
        let mut v = Vec::new();
        v.reserve((mix(seed, 4) % 4) as usize);
        v.extend((0..len(seed)).map(|i| T::mk(mix(seed, 40 + i as u64))));
        v
    }
}
fn dig_slice<T: Dig>(s: &[T]) -> u64 {
    let mut h = mix(s.len() as u64, if s.is_empty() { 0 } else { addr(s.as_ptr()) });
    for e in s {
        h = mix(h, e.dig());
    }
    h
}
impl<T: Dig> Dig for Vec<T> {
    fn dig(&self) -> u64 {
        dig_slice(self)
    }
}
impl<T: Dig> Dig for [T] {
    fn dig(&self) -> u64 {
        dig_slice(self)
    }
}
impl<T: Mk, const N: usize> Mk for [T; N] {
    fn mk(seed: u64) -> Self {
        std::array::from_fn(|i| T::mk(mix(seed, 40 + i as u64)))
    }
}
impl<T: Dig, const N: usize> Dig for [T; N] {
    fn dig(&self) -> u64 {
        let mut h = N as u64;
        for e in self {
            h = mix(h, e.dig());
        }
        h
    }
}
impl<'a, T: Stored> Mk for &'a T {
    fn mk(seed: u64) -> &'a T {
        T::stored(seed)
    }
}
impl<'a, T: Stored> Mk for &'a mut T {
    fn mk(seed: u64) -> &'a mut T {
        T::stored(seed)
    }
}
impl<'a, T: Stored> Mk for Pin<&'a mut T> {
    fn mk(seed: u64) -> Pin<&'a mut T> {
        unsafe { Pin::new_unchecked(T::stored(seed)) }
    }
}
impl<'a, T: Mk + 'static> Mk for &'a [T] {
    fn mk(seed: u64) -> &'a [T] {
        keep(Vec::<T>::mk(seed))
    }
}
impl<'a, T: Mk + 'static> Mk for &'a mut [T] {
    fn mk(seed: u64) -> &'a mut [T] {
        keep(Vec::<T>::mk(seed))
    }
}
impl<'a, T: Dig> Dig for &'a T {
    fn dig(&self) -> u64 {
        mix(addr(*self), (**self).dig())
    }
}
impl<'a, T: Dig> Dig for &'a mut T {
    fn dig(&self) -> u64 {
        mix(addr(&**self), (**self).dig())
    }
}
impl<'a, T: Dig> Dig for Pin<&'a mut T> {
    fn dig(&self) -> u64 {
        mix(addr(&**self), (**self).dig())
    }
}
impl<'a, T: Dig> Dig for &'a [T] {
    fn dig(&self) -> u64 {
        dig_slice(self)
    }
}
impl<'a, T: Dig> Dig for &'a mut [T] {
    fn dig(&self) -> u64 {
        dig_slice(self)
    }
}
impl<T> Mk for *const T {
    fn mk(seed: u64) -> Self {
        (mix(seed, 3) as usize & if mix(seed, 4) % 3 == 0 { 0 } else { !15 }) as *const T
    }
}
impl<T> Mk for *mut T {
    fn mk(seed: u64) -> Self {
        <*const T>::mk(seed) as *mut T
    }
}
impl<T> Dig for *const T {
    fn dig(&self) -> u64 {
        *self as usize as u64
    }
}
impl<T> Dig for *mut T {
    fn dig(&self) -> u64 {
        *self as usize as u64
    }
}

pub fn mk<T: Mk>(seed: u64) -> T {
    T::mk(seed)
}
pub fn dig<T: Dig + ?Sized>(t: &T) -> u64 {
    t.dig()
}

pub struct Error(pub String);
impl Error {
    pub fn new(seed: u64) -> Error {
        Error(text(mix(seed, 91)))
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}

pub fn chars(_: c_char) {}
