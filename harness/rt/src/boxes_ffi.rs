//! Generated by dev/mkbox.py.
use crate::boxes::{R, Z, Al};
#[cxx::bridge(namespace = "lab")]
pub mod ffi {
    struct S { val: u64, t: Tr, name: String }
    struct Hold { b: Box<R>, s: Box<S>, n: u8 }
    unsafe extern "C++" {
        include!("rt/cpp/boxes.h");
        type Tr = crate::track::Tr;
        fn arm_copy(n: i64);
        fn hold_round(h: Hold, bump: bool) -> Hold;
        type BLabR;
        fn new_blab_R() -> UniquePtr<BLabR>;
        fn op(self: Pin<&mut BLabR>, op: u32, i: usize, j: usize, val: u64) -> i32;
        fn put(self: Pin<&mut BLabR>, b: Box<R>);
        fn take(self: Pin<&mut BLabR>, i: usize) -> Box<R>;
        fn peek(self: &BLabR, i: usize) -> &R;
        fn poke(self: Pin<&mut BLabR>, i: usize) -> &mut R;
        fn peek_box(self: &BLabR, i: usize) -> &Box<R>;
        fn poke_box(self: Pin<&mut BLabR>, i: usize) -> &mut Box<R>;
        fn id(self: &BLabR, i: usize) -> u64;
        type BLabZ;
        fn new_blab_Z() -> UniquePtr<BLabZ>;
        fn op(self: Pin<&mut BLabZ>, op: u32, i: usize, j: usize, val: u64) -> i32;
        fn put(self: Pin<&mut BLabZ>, b: Box<Z>);
        fn take(self: Pin<&mut BLabZ>, i: usize) -> Box<Z>;
        fn peek(self: &BLabZ, i: usize) -> &Z;
        fn poke(self: Pin<&mut BLabZ>, i: usize) -> &mut Z;
        fn peek_box(self: &BLabZ, i: usize) -> &Box<Z>;
        fn poke_box(self: Pin<&mut BLabZ>, i: usize) -> &mut Box<Z>;
        fn id(self: &BLabZ, i: usize) -> u64;
        type BLabAl;
        fn new_blab_Al() -> UniquePtr<BLabAl>;
        fn op(self: Pin<&mut BLabAl>, op: u32, i: usize, j: usize, val: u64) -> i32;
        fn put(self: Pin<&mut BLabAl>, b: Box<Al>);
        fn take(self: Pin<&mut BLabAl>, i: usize) -> Box<Al>;
        fn peek(self: &BLabAl, i: usize) -> &Al;
        fn poke(self: Pin<&mut BLabAl>, i: usize) -> &mut Al;
        fn peek_box(self: &BLabAl, i: usize) -> &Box<Al>;
        fn poke_box(self: Pin<&mut BLabAl>, i: usize) -> &mut Box<Al>;
        fn id(self: &BLabAl, i: usize) -> u64;
        type BLabS;
        fn new_blab_S() -> UniquePtr<BLabS>;
        fn op(self: Pin<&mut BLabS>, op: u32, i: usize, j: usize, val: u64) -> i32;
        fn put(self: Pin<&mut BLabS>, b: Box<S>);
        fn take(self: Pin<&mut BLabS>, i: usize) -> Box<S>;
        fn peek(self: &BLabS, i: usize) -> &S;
        fn poke(self: Pin<&mut BLabS>, i: usize) -> &mut S;
        fn peek_box(self: &BLabS, i: usize) -> &Box<S>;
        fn poke_box(self: Pin<&mut BLabS>, i: usize) -> &mut Box<S>;
        fn id(self: &BLabS, i: usize) -> u64;
    }
    extern "Rust" {
        type R;
        type Z;
        type Al;
        fn obj_id(self: &R) -> u64;
        fn obj_bump(self: &mut R);
        fn rust_round_R(b: Box<R>) -> Box<R>;
        fn rust_fail_R(b: Box<R>) -> Result<Box<R>>;
        fn rust_replace_R(b: &mut Box<R>, val: u64);
        fn rust_read_R(b: &Box<R>) -> u64;
        fn obj_id(self: &Z) -> u64;
        fn obj_bump(self: &mut Z);
        fn rust_round_Z(b: Box<Z>) -> Box<Z>;
        fn rust_fail_Z(b: Box<Z>) -> Result<Box<Z>>;
        fn rust_replace_Z(b: &mut Box<Z>, val: u64);
        fn rust_read_Z(b: &Box<Z>) -> u64;
        fn obj_id(self: &Al) -> u64;
        fn obj_bump(self: &mut Al);
        fn rust_round_Al(b: Box<Al>) -> Box<Al>;
        fn rust_fail_Al(b: Box<Al>) -> Result<Box<Al>>;
        fn rust_replace_Al(b: &mut Box<Al>, val: u64);
        fn rust_read_Al(b: &Box<Al>) -> u64;
        fn obj_id(self: &S) -> u64;
        fn obj_bump(self: &mut S);
        fn rust_round_S(b: Box<S>) -> Box<S>;
        fn rust_fail_S(b: Box<S>) -> Result<Box<S>>;
        fn rust_replace_S(b: &mut Box<S>, val: u64);
        fn rust_read_S(b: &Box<S>) -> u64;
    }
}

use ffi::S;
pub fn rust_round_R(b: Box<R>) -> Box<R> { b }
pub fn rust_fail_R(b: Box<R>) -> Result<Box<R>, String> { drop(b); Err("no".into()) }
pub fn rust_replace_R(b: &mut Box<R>, val: u64) { *b = Box::new(crate::boxes::Ob::mk(val)) }
pub fn rust_read_R(b: &Box<R>) -> u64 { b.obj_id() }
crate::boxes::impl_blab!(ffi::BLabR, R, ffi::new_blab_R);

pub fn rust_round_Z(b: Box<Z>) -> Box<Z> { b }
pub fn rust_fail_Z(b: Box<Z>) -> Result<Box<Z>, String> { drop(b); Err("no".into()) }
pub fn rust_replace_Z(b: &mut Box<Z>, val: u64) { *b = Box::new(crate::boxes::Ob::mk(val)) }
pub fn rust_read_Z(b: &Box<Z>) -> u64 { b.obj_id() }
crate::boxes::impl_blab!(ffi::BLabZ, Z, ffi::new_blab_Z);

pub fn rust_round_Al(b: Box<Al>) -> Box<Al> { b }
pub fn rust_fail_Al(b: Box<Al>) -> Result<Box<Al>, String> { drop(b); Err("no".into()) }
pub fn rust_replace_Al(b: &mut Box<Al>, val: u64) { *b = Box::new(crate::boxes::Ob::mk(val)) }
pub fn rust_read_Al(b: &Box<Al>) -> u64 { b.obj_id() }
crate::boxes::impl_blab!(ffi::BLabAl, Al, ffi::new_blab_Al);

pub fn rust_round_S(b: Box<S>) -> Box<S> { b }
pub fn rust_fail_S(b: Box<S>) -> Result<Box<S>, String> { drop(b); Err("no".into()) }
pub fn rust_replace_S(b: &mut Box<S>, val: u64) { *b = Box::new(crate::boxes::Ob::mk(val)) }
pub fn rust_read_S(b: &Box<S>) -> u64 { b.obj_id() }
crate::boxes::impl_blab!(ffi::BLabS, S, ffi::new_blab_S);

