//! Generated by dev/mkcv.py.
#[cxx::bridge(namespace = "lab")]
pub mod ffi {
    #[derive(Debug)]
    struct P3 { a: u8, b: u8, c: u8 }
    #[derive(Debug)]
    struct P72 { a: u64, b: [u64; 7], c: u8 }
    #[derive(Debug)]
    struct VS { a: u64, name: String, v: Vec<u16> }
    #[derive(Debug)]
    #[repr(u16)]
    enum En { A = 0, B = 1, C = 2, D = 3 }
    unsafe extern "C++" {
        include!("rt/cpp/cxxstd.h");
        type Tr = crate::track::Tr;
        type It;
        type Odd;
        type Big;
        fn get(self: &It) -> u64;
        fn set(self: Pin<&mut It>, v: u64);
        fn get(self: &Odd) -> u64;
        fn set(self: Pin<&mut Odd>, v: u64);
        fn get(self: &Big) -> u64;
        fn set(self: Pin<&mut Big>, v: u64);
        fn live_items() -> i64;
        fn str_make(b: &[u8]) -> UniquePtr<CxxString>;
        fn str_bytes(s: &CxxString) -> Vec<u8>;
        fn str_cap(s: &CxxString) -> usize;
        fn str_addr(s: &CxxString) -> usize;
        fn str_op(s: Pin<&mut CxxString>, op: u32, n: usize, b: &[u8]);
        fn str_eq(a: &CxxString, b: &CxxString) -> bool;
        type SOwner;
        fn new_owner() -> UniquePtr<SOwner>;
        fn view(self: &SOwner) -> &CxxString;
        fn edit(self: Pin<&mut SOwner>) -> Pin<&mut CxxString>;
        type CLab_u8;
        fn new_clab_u8() -> UniquePtr<CLab_u8>;
        fn make(self: Pin<&mut CLab_u8>) -> UniquePtr<CxxVector<u8>>;
        fn own(self: Pin<&mut CLab_u8>) -> Pin<&mut CxxVector<u8>>;
        fn view(self: &CLab_u8) -> &CxxVector<u8>;
        fn op(self: Pin<&mut CLab_u8>, op: u32, v: Pin<&mut CxxVector<u8>>, n: usize, val: u64);
        fn ids(self: &CLab_u8, v: &CxxVector<u8>) -> Vec<u64>;
        fn addr(self: &CLab_u8, v: &CxxVector<u8>, pos: usize) -> usize;
        fn cap(self: &CLab_u8, v: &CxxVector<u8>) -> usize;
        fn take_by_value(self: Pin<&mut CLab_u8>, v: UniquePtr<CxxVector<u8>>) -> UniquePtr<CxxVector<u8>>;
        type CLab_u16;
        fn new_clab_u16() -> UniquePtr<CLab_u16>;
        fn make(self: Pin<&mut CLab_u16>) -> UniquePtr<CxxVector<u16>>;
        fn own(self: Pin<&mut CLab_u16>) -> Pin<&mut CxxVector<u16>>;
        fn view(self: &CLab_u16) -> &CxxVector<u16>;
        fn op(self: Pin<&mut CLab_u16>, op: u32, v: Pin<&mut CxxVector<u16>>, n: usize, val: u64);
        fn ids(self: &CLab_u16, v: &CxxVector<u16>) -> Vec<u64>;
        fn addr(self: &CLab_u16, v: &CxxVector<u16>, pos: usize) -> usize;
        fn cap(self: &CLab_u16, v: &CxxVector<u16>) -> usize;
        fn take_by_value(self: Pin<&mut CLab_u16>, v: UniquePtr<CxxVector<u16>>) -> UniquePtr<CxxVector<u16>>;
        type CLab_u32;
        fn new_clab_u32() -> UniquePtr<CLab_u32>;
        fn make(self: Pin<&mut CLab_u32>) -> UniquePtr<CxxVector<u32>>;
        fn own(self: Pin<&mut CLab_u32>) -> Pin<&mut CxxVector<u32>>;
        fn view(self: &CLab_u32) -> &CxxVector<u32>;
        fn op(self: Pin<&mut CLab_u32>, op: u32, v: Pin<&mut CxxVector<u32>>, n: usize, val: u64);
        fn ids(self: &CLab_u32, v: &CxxVector<u32>) -> Vec<u64>;
        fn addr(self: &CLab_u32, v: &CxxVector<u32>, pos: usize) -> usize;
        fn cap(self: &CLab_u32, v: &CxxVector<u32>) -> usize;
        fn take_by_value(self: Pin<&mut CLab_u32>, v: UniquePtr<CxxVector<u32>>) -> UniquePtr<CxxVector<u32>>;
        type CLab_u64;
        fn new_clab_u64() -> UniquePtr<CLab_u64>;
        fn make(self: Pin<&mut CLab_u64>) -> UniquePtr<CxxVector<u64>>;
        fn own(self: Pin<&mut CLab_u64>) -> Pin<&mut CxxVector<u64>>;
        fn view(self: &CLab_u64) -> &CxxVector<u64>;
        fn op(self: Pin<&mut CLab_u64>, op: u32, v: Pin<&mut CxxVector<u64>>, n: usize, val: u64);
        fn ids(self: &CLab_u64, v: &CxxVector<u64>) -> Vec<u64>;
        fn addr(self: &CLab_u64, v: &CxxVector<u64>, pos: usize) -> usize;
        fn cap(self: &CLab_u64, v: &CxxVector<u64>) -> usize;
        fn take_by_value(self: Pin<&mut CLab_u64>, v: UniquePtr<CxxVector<u64>>) -> UniquePtr<CxxVector<u64>>;
        type CLab_usize;
        fn new_clab_usize() -> UniquePtr<CLab_usize>;
        fn make(self: Pin<&mut CLab_usize>) -> UniquePtr<CxxVector<usize>>;
        fn own(self: Pin<&mut CLab_usize>) -> Pin<&mut CxxVector<usize>>;
        fn view(self: &CLab_usize) -> &CxxVector<usize>;
        fn op(self: Pin<&mut CLab_usize>, op: u32, v: Pin<&mut CxxVector<usize>>, n: usize, val: u64);
        fn ids(self: &CLab_usize, v: &CxxVector<usize>) -> Vec<u64>;
        fn addr(self: &CLab_usize, v: &CxxVector<usize>, pos: usize) -> usize;
        fn cap(self: &CLab_usize, v: &CxxVector<usize>) -> usize;
        fn take_by_value(self: Pin<&mut CLab_usize>, v: UniquePtr<CxxVector<usize>>) -> UniquePtr<CxxVector<usize>>;
        type CLab_i8;
        fn new_clab_i8() -> UniquePtr<CLab_i8>;
        fn make(self: Pin<&mut CLab_i8>) -> UniquePtr<CxxVector<i8>>;
        fn own(self: Pin<&mut CLab_i8>) -> Pin<&mut CxxVector<i8>>;
        fn view(self: &CLab_i8) -> &CxxVector<i8>;
        fn op(self: Pin<&mut CLab_i8>, op: u32, v: Pin<&mut CxxVector<i8>>, n: usize, val: u64);
        fn ids(self: &CLab_i8, v: &CxxVector<i8>) -> Vec<u64>;
        fn addr(self: &CLab_i8, v: &CxxVector<i8>, pos: usize) -> usize;
        fn cap(self: &CLab_i8, v: &CxxVector<i8>) -> usize;
        fn take_by_value(self: Pin<&mut CLab_i8>, v: UniquePtr<CxxVector<i8>>) -> UniquePtr<CxxVector<i8>>;
        type CLab_i16;
        fn new_clab_i16() -> UniquePtr<CLab_i16>;
        fn make(self: Pin<&mut CLab_i16>) -> UniquePtr<CxxVector<i16>>;
        fn own(self: Pin<&mut CLab_i16>) -> Pin<&mut CxxVector<i16>>;
        fn view(self: &CLab_i16) -> &CxxVector<i16>;
        fn op(self: Pin<&mut CLab_i16>, op: u32, v: Pin<&mut CxxVector<i16>>, n: usize, val: u64);
        fn ids(self: &CLab_i16, v: &CxxVector<i16>) -> Vec<u64>;
        fn addr(self: &CLab_i16, v: &CxxVector<i16>, pos: usize) -> usize;
        fn cap(self: &CLab_i16, v: &CxxVector<i16>) -> usize;
        fn take_by_value(self: Pin<&mut CLab_i16>, v: UniquePtr<CxxVector<i16>>) -> UniquePtr<CxxVector<i16>>;
        type CLab_i32;
        fn new_clab_i32() -> UniquePtr<CLab_i32>;
        fn make(self: Pin<&mut CLab_i32>) -> UniquePtr<CxxVector<i32>>;
        fn own(self: Pin<&mut CLab_i32>) -> Pin<&mut CxxVector<i32>>;
        fn view(self: &CLab_i32) -> &CxxVector<i32>;
        fn op(self: Pin<&mut CLab_i32>, op: u32, v: Pin<&mut CxxVector<i32>>, n: usize, val: u64);
        fn ids(self: &CLab_i32, v: &CxxVector<i32>) -> Vec<u64>;
        fn addr(self: &CLab_i32, v: &CxxVector<i32>, pos: usize) -> usize;
        fn cap(self: &CLab_i32, v: &CxxVector<i32>) -> usize;
        fn take_by_value(self: Pin<&mut CLab_i32>, v: UniquePtr<CxxVector<i32>>) -> UniquePtr<CxxVector<i32>>;
        type CLab_i64;
        fn new_clab_i64() -> UniquePtr<CLab_i64>;
        fn make(self: Pin<&mut CLab_i64>) -> UniquePtr<CxxVector<i64>>;
        fn own(self: Pin<&mut CLab_i64>) -> Pin<&mut CxxVector<i64>>;
        fn view(self: &CLab_i64) -> &CxxVector<i64>;
        fn op(self: Pin<&mut CLab_i64>, op: u32, v: Pin<&mut CxxVector<i64>>, n: usize, val: u64);
        fn ids(self: &CLab_i64, v: &CxxVector<i64>) -> Vec<u64>;
        fn addr(self: &CLab_i64, v: &CxxVector<i64>, pos: usize) -> usize;
        fn cap(self: &CLab_i64, v: &CxxVector<i64>) -> usize;
        fn take_by_value(self: Pin<&mut CLab_i64>, v: UniquePtr<CxxVector<i64>>) -> UniquePtr<CxxVector<i64>>;
        type CLab_isize;
        fn new_clab_isize() -> UniquePtr<CLab_isize>;
        fn make(self: Pin<&mut CLab_isize>) -> UniquePtr<CxxVector<isize>>;
        fn own(self: Pin<&mut CLab_isize>) -> Pin<&mut CxxVector<isize>>;
        fn view(self: &CLab_isize) -> &CxxVector<isize>;
        fn op(self: Pin<&mut CLab_isize>, op: u32, v: Pin<&mut CxxVector<isize>>, n: usize, val: u64);
        fn ids(self: &CLab_isize, v: &CxxVector<isize>) -> Vec<u64>;
        fn addr(self: &CLab_isize, v: &CxxVector<isize>, pos: usize) -> usize;
        fn cap(self: &CLab_isize, v: &CxxVector<isize>) -> usize;
        fn take_by_value(self: Pin<&mut CLab_isize>, v: UniquePtr<CxxVector<isize>>) -> UniquePtr<CxxVector<isize>>;
        type CLab_f32;
        fn new_clab_f32() -> UniquePtr<CLab_f32>;
        fn make(self: Pin<&mut CLab_f32>) -> UniquePtr<CxxVector<f32>>;
        fn own(self: Pin<&mut CLab_f32>) -> Pin<&mut CxxVector<f32>>;
        fn view(self: &CLab_f32) -> &CxxVector<f32>;
        fn op(self: Pin<&mut CLab_f32>, op: u32, v: Pin<&mut CxxVector<f32>>, n: usize, val: u64);
        fn ids(self: &CLab_f32, v: &CxxVector<f32>) -> Vec<u64>;
        fn addr(self: &CLab_f32, v: &CxxVector<f32>, pos: usize) -> usize;
        fn cap(self: &CLab_f32, v: &CxxVector<f32>) -> usize;
        fn take_by_value(self: Pin<&mut CLab_f32>, v: UniquePtr<CxxVector<f32>>) -> UniquePtr<CxxVector<f32>>;
        type CLab_f64;
        fn new_clab_f64() -> UniquePtr<CLab_f64>;
        fn make(self: Pin<&mut CLab_f64>) -> UniquePtr<CxxVector<f64>>;
        fn own(self: Pin<&mut CLab_f64>) -> Pin<&mut CxxVector<f64>>;
        fn view(self: &CLab_f64) -> &CxxVector<f64>;
        fn op(self: Pin<&mut CLab_f64>, op: u32, v: Pin<&mut CxxVector<f64>>, n: usize, val: u64);
        fn ids(self: &CLab_f64, v: &CxxVector<f64>) -> Vec<u64>;
        fn addr(self: &CLab_f64, v: &CxxVector<f64>, pos: usize) -> usize;
        fn cap(self: &CLab_f64, v: &CxxVector<f64>) -> usize;
        fn take_by_value(self: Pin<&mut CLab_f64>, v: UniquePtr<CxxVector<f64>>) -> UniquePtr<CxxVector<f64>>;
        type CLab_str;
        fn new_clab_str() -> UniquePtr<CLab_str>;
        fn make(self: Pin<&mut CLab_str>) -> UniquePtr<CxxVector<CxxString>>;
        fn own(self: Pin<&mut CLab_str>) -> Pin<&mut CxxVector<CxxString>>;
        fn view(self: &CLab_str) -> &CxxVector<CxxString>;
        fn op(self: Pin<&mut CLab_str>, op: u32, v: Pin<&mut CxxVector<CxxString>>, n: usize, val: u64);
        fn ids(self: &CLab_str, v: &CxxVector<CxxString>) -> Vec<u64>;
        fn addr(self: &CLab_str, v: &CxxVector<CxxString>, pos: usize) -> usize;
        fn cap(self: &CLab_str, v: &CxxVector<CxxString>) -> usize;
        fn take_by_value(self: Pin<&mut CLab_str>, v: UniquePtr<CxxVector<CxxString>>) -> UniquePtr<CxxVector<CxxString>>;
        type CLab_p3;
        fn new_clab_p3() -> UniquePtr<CLab_p3>;
        fn make(self: Pin<&mut CLab_p3>) -> UniquePtr<CxxVector<P3>>;
        fn own(self: Pin<&mut CLab_p3>) -> Pin<&mut CxxVector<P3>>;
        fn view(self: &CLab_p3) -> &CxxVector<P3>;
        fn op(self: Pin<&mut CLab_p3>, op: u32, v: Pin<&mut CxxVector<P3>>, n: usize, val: u64);
        fn ids(self: &CLab_p3, v: &CxxVector<P3>) -> Vec<u64>;
        fn addr(self: &CLab_p3, v: &CxxVector<P3>, pos: usize) -> usize;
        fn cap(self: &CLab_p3, v: &CxxVector<P3>) -> usize;
        fn take_by_value(self: Pin<&mut CLab_p3>, v: UniquePtr<CxxVector<P3>>) -> UniquePtr<CxxVector<P3>>;
        type CLab_p72;
        fn new_clab_p72() -> UniquePtr<CLab_p72>;
        fn make(self: Pin<&mut CLab_p72>) -> UniquePtr<CxxVector<P72>>;
        fn own(self: Pin<&mut CLab_p72>) -> Pin<&mut CxxVector<P72>>;
        fn view(self: &CLab_p72) -> &CxxVector<P72>;
        fn op(self: Pin<&mut CLab_p72>, op: u32, v: Pin<&mut CxxVector<P72>>, n: usize, val: u64);
        fn ids(self: &CLab_p72, v: &CxxVector<P72>) -> Vec<u64>;
        fn addr(self: &CLab_p72, v: &CxxVector<P72>, pos: usize) -> usize;
        fn cap(self: &CLab_p72, v: &CxxVector<P72>) -> usize;
        fn take_by_value(self: Pin<&mut CLab_p72>, v: UniquePtr<CxxVector<P72>>) -> UniquePtr<CxxVector<P72>>;
        type CLab_vs;
        fn new_clab_vs() -> UniquePtr<CLab_vs>;
        fn make(self: Pin<&mut CLab_vs>) -> UniquePtr<CxxVector<VS>>;
        fn own(self: Pin<&mut CLab_vs>) -> Pin<&mut CxxVector<VS>>;
        fn view(self: &CLab_vs) -> &CxxVector<VS>;
        fn op(self: Pin<&mut CLab_vs>, op: u32, v: Pin<&mut CxxVector<VS>>, n: usize, val: u64);
        fn ids(self: &CLab_vs, v: &CxxVector<VS>) -> Vec<u64>;
        fn addr(self: &CLab_vs, v: &CxxVector<VS>, pos: usize) -> usize;
        fn cap(self: &CLab_vs, v: &CxxVector<VS>) -> usize;
        fn take_by_value(self: Pin<&mut CLab_vs>, v: UniquePtr<CxxVector<VS>>) -> UniquePtr<CxxVector<VS>>;
        type CLab_en;
        fn new_clab_en() -> UniquePtr<CLab_en>;
        fn make(self: Pin<&mut CLab_en>) -> UniquePtr<CxxVector<En>>;
        fn own(self: Pin<&mut CLab_en>) -> Pin<&mut CxxVector<En>>;
        fn view(self: &CLab_en) -> &CxxVector<En>;
        fn op(self: Pin<&mut CLab_en>, op: u32, v: Pin<&mut CxxVector<En>>, n: usize, val: u64);
        fn ids(self: &CLab_en, v: &CxxVector<En>) -> Vec<u64>;
        fn addr(self: &CLab_en, v: &CxxVector<En>, pos: usize) -> usize;
        fn cap(self: &CLab_en, v: &CxxVector<En>) -> usize;
        fn take_by_value(self: Pin<&mut CLab_en>, v: UniquePtr<CxxVector<En>>) -> UniquePtr<CxxVector<En>>;
        type CLab_tr;
        fn new_clab_tr() -> UniquePtr<CLab_tr>;
        fn make(self: Pin<&mut CLab_tr>) -> UniquePtr<CxxVector<Tr>>;
        fn own(self: Pin<&mut CLab_tr>) -> Pin<&mut CxxVector<Tr>>;
        fn view(self: &CLab_tr) -> &CxxVector<Tr>;
        fn op(self: Pin<&mut CLab_tr>, op: u32, v: Pin<&mut CxxVector<Tr>>, n: usize, val: u64);
        fn ids(self: &CLab_tr, v: &CxxVector<Tr>) -> Vec<u64>;
        fn addr(self: &CLab_tr, v: &CxxVector<Tr>, pos: usize) -> usize;
        fn cap(self: &CLab_tr, v: &CxxVector<Tr>) -> usize;
        fn take_by_value(self: Pin<&mut CLab_tr>, v: UniquePtr<CxxVector<Tr>>) -> UniquePtr<CxxVector<Tr>>;
        type CLab_it;
        fn new_clab_it() -> UniquePtr<CLab_it>;
        fn make(self: Pin<&mut CLab_it>) -> UniquePtr<CxxVector<It>>;
        fn own(self: Pin<&mut CLab_it>) -> Pin<&mut CxxVector<It>>;
        fn view(self: &CLab_it) -> &CxxVector<It>;
        fn op(self: Pin<&mut CLab_it>, op: u32, v: Pin<&mut CxxVector<It>>, n: usize, val: u64);
        fn ids(self: &CLab_it, v: &CxxVector<It>) -> Vec<u64>;
        fn addr(self: &CLab_it, v: &CxxVector<It>, pos: usize) -> usize;
        fn cap(self: &CLab_it, v: &CxxVector<It>) -> usize;
        fn take_by_value(self: Pin<&mut CLab_it>, v: UniquePtr<CxxVector<It>>) -> UniquePtr<CxxVector<It>>;
        type CLab_odd;
        fn new_clab_odd() -> UniquePtr<CLab_odd>;
        fn make(self: Pin<&mut CLab_odd>) -> UniquePtr<CxxVector<Odd>>;
        fn own(self: Pin<&mut CLab_odd>) -> Pin<&mut CxxVector<Odd>>;
        fn view(self: &CLab_odd) -> &CxxVector<Odd>;
        fn op(self: Pin<&mut CLab_odd>, op: u32, v: Pin<&mut CxxVector<Odd>>, n: usize, val: u64);
        fn ids(self: &CLab_odd, v: &CxxVector<Odd>) -> Vec<u64>;
        fn addr(self: &CLab_odd, v: &CxxVector<Odd>, pos: usize) -> usize;
        fn cap(self: &CLab_odd, v: &CxxVector<Odd>) -> usize;
        fn take_by_value(self: Pin<&mut CLab_odd>, v: UniquePtr<CxxVector<Odd>>) -> UniquePtr<CxxVector<Odd>>;
        type CLab_big;
        fn new_clab_big() -> UniquePtr<CLab_big>;
        fn make(self: Pin<&mut CLab_big>) -> UniquePtr<CxxVector<Big>>;
        fn own(self: Pin<&mut CLab_big>) -> Pin<&mut CxxVector<Big>>;
        fn view(self: &CLab_big) -> &CxxVector<Big>;
        fn op(self: Pin<&mut CLab_big>, op: u32, v: Pin<&mut CxxVector<Big>>, n: usize, val: u64);
        fn ids(self: &CLab_big, v: &CxxVector<Big>) -> Vec<u64>;
        fn addr(self: &CLab_big, v: &CxxVector<Big>, pos: usize) -> usize;
        fn cap(self: &CLab_big, v: &CxxVector<Big>) -> usize;
        fn take_by_value(self: Pin<&mut CLab_big>, v: UniquePtr<CxxVector<Big>>) -> UniquePtr<CxxVector<Big>>;
    }
    impl CxxVector<Tr> {}
}
use ffi::*;
use cxx::CxxString;
crate::cxxstd::impl_clab!(CLab_u8, u8, new_clab_u8, triv, dbg);
crate::cxxstd::impl_clab!(CLab_u16, u16, new_clab_u16, triv, dbg);
crate::cxxstd::impl_clab!(CLab_u32, u32, new_clab_u32, triv, dbg);
crate::cxxstd::impl_clab!(CLab_u64, u64, new_clab_u64, triv, dbg);
crate::cxxstd::impl_clab!(CLab_usize, usize, new_clab_usize, triv, dbg);
crate::cxxstd::impl_clab!(CLab_i8, i8, new_clab_i8, triv, dbg);
crate::cxxstd::impl_clab!(CLab_i16, i16, new_clab_i16, triv, dbg);
crate::cxxstd::impl_clab!(CLab_i32, i32, new_clab_i32, triv, dbg);
crate::cxxstd::impl_clab!(CLab_i64, i64, new_clab_i64, triv, dbg);
crate::cxxstd::impl_clab!(CLab_isize, isize, new_clab_isize, triv, dbg);
crate::cxxstd::impl_clab!(CLab_f32, f32, new_clab_f32, triv, dbg);
crate::cxxstd::impl_clab!(CLab_f64, f64, new_clab_f64, triv, dbg);
crate::cxxstd::impl_clab!(CLab_str, CxxString, new_clab_str, opaque, dbg);
crate::cxxstd::impl_clab!(CLab_p3, P3, new_clab_p3, triv, dbg);
crate::cxxstd::impl_clab!(CLab_p72, P72, new_clab_p72, triv, dbg);
crate::cxxstd::impl_clab!(CLab_vs, VS, new_clab_vs, triv, dbg);
crate::cxxstd::impl_clab!(CLab_en, En, new_clab_en, triv, dbg);
crate::cxxstd::impl_clab!(CLab_tr, Tr, new_clab_tr, triv, nodbg);
crate::cxxstd::impl_clab!(CLab_it, It, new_clab_it, opaque, nodbg);
crate::cxxstd::impl_clab!(CLab_odd, Odd, new_clab_odd, opaque, nodbg);
crate::cxxstd::impl_clab!(CLab_big, Big, new_clab_big, opaque, nodbg);
