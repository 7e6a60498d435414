//! Generated by dev/mkvec.py.
#[cxx::bridge(namespace = "lab")]
pub mod ffi {
    #[derive(Clone, Copy, Debug, PartialEq)]
    struct Pod { a: u8, b: u32, c: u16 }
    #[derive(Clone, Debug, PartialEq)]
    struct Elem { id: u64, name: String, more: Vec<u16> }
    struct Th { id: u64, t: Thrower }
    unsafe extern "C++" {
        include!("rt/cpp/vecs.h");
        type Thrower = crate::vecs::Thrower;
        fn arm_throw(n: i64);
        type VLab_u8;
        fn new_u8() -> UniquePtr<VLab_u8>;
        fn op(self: Pin<&mut VLab_u8>, op: u32, i: usize, j: usize, n: usize, val: u64) -> i32;
        fn ids(self: &VLab_u8, i: usize) -> Vec<u64>;
        fn observe(self: &VLab_u8, i: usize) -> String;
        fn get(self: &VLab_u8, i: usize) -> &Vec<u8>;
        fn vec_mut(self: Pin<&mut VLab_u8>, i: usize) -> &mut Vec<u8>;
        fn put(self: Pin<&mut VLab_u8>, i: usize, v: Vec<u8>);
        fn take(self: Pin<&mut VLab_u8>, i: usize) -> Vec<u8>;
        fn slice(self: &VLab_u8, i: usize, from: usize, to: usize) -> &[u8];
        fn slice_mut(self: Pin<&mut VLab_u8>, i: usize, from: usize, to: usize) -> &mut [u8];
        fn probe(self: &VLab_u8, s: &[u8], prog: &[u8]) -> String;
        fn scribble(self: Pin<&mut VLab_u8>, s: &mut [u8], base: u64);
        type VLab_u16;
        fn new_u16() -> UniquePtr<VLab_u16>;
        fn op(self: Pin<&mut VLab_u16>, op: u32, i: usize, j: usize, n: usize, val: u64) -> i32;
        fn ids(self: &VLab_u16, i: usize) -> Vec<u64>;
        fn observe(self: &VLab_u16, i: usize) -> String;
        fn get(self: &VLab_u16, i: usize) -> &Vec<u16>;
        fn vec_mut(self: Pin<&mut VLab_u16>, i: usize) -> &mut Vec<u16>;
        fn put(self: Pin<&mut VLab_u16>, i: usize, v: Vec<u16>);
        fn take(self: Pin<&mut VLab_u16>, i: usize) -> Vec<u16>;
        fn slice(self: &VLab_u16, i: usize, from: usize, to: usize) -> &[u16];
        fn slice_mut(self: Pin<&mut VLab_u16>, i: usize, from: usize, to: usize) -> &mut [u16];
        fn probe(self: &VLab_u16, s: &[u16], prog: &[u8]) -> String;
        fn scribble(self: Pin<&mut VLab_u16>, s: &mut [u16], base: u64);
        type VLab_u32;
        fn new_u32() -> UniquePtr<VLab_u32>;
        fn op(self: Pin<&mut VLab_u32>, op: u32, i: usize, j: usize, n: usize, val: u64) -> i32;
        fn ids(self: &VLab_u32, i: usize) -> Vec<u64>;
        fn observe(self: &VLab_u32, i: usize) -> String;
        fn get(self: &VLab_u32, i: usize) -> &Vec<u32>;
        fn vec_mut(self: Pin<&mut VLab_u32>, i: usize) -> &mut Vec<u32>;
        fn put(self: Pin<&mut VLab_u32>, i: usize, v: Vec<u32>);
        fn take(self: Pin<&mut VLab_u32>, i: usize) -> Vec<u32>;
        fn slice(self: &VLab_u32, i: usize, from: usize, to: usize) -> &[u32];
        fn slice_mut(self: Pin<&mut VLab_u32>, i: usize, from: usize, to: usize) -> &mut [u32];
        fn probe(self: &VLab_u32, s: &[u32], prog: &[u8]) -> String;
        fn scribble(self: Pin<&mut VLab_u32>, s: &mut [u32], base: u64);
        type VLab_u64;
        fn new_u64() -> UniquePtr<VLab_u64>;
        fn op(self: Pin<&mut VLab_u64>, op: u32, i: usize, j: usize, n: usize, val: u64) -> i32;
        fn ids(self: &VLab_u64, i: usize) -> Vec<u64>;
        fn observe(self: &VLab_u64, i: usize) -> String;
        fn get(self: &VLab_u64, i: usize) -> &Vec<u64>;
        fn vec_mut(self: Pin<&mut VLab_u64>, i: usize) -> &mut Vec<u64>;
        fn put(self: Pin<&mut VLab_u64>, i: usize, v: Vec<u64>);
        fn take(self: Pin<&mut VLab_u64>, i: usize) -> Vec<u64>;
        fn slice(self: &VLab_u64, i: usize, from: usize, to: usize) -> &[u64];
        fn slice_mut(self: Pin<&mut VLab_u64>, i: usize, from: usize, to: usize) -> &mut [u64];
        fn probe(self: &VLab_u64, s: &[u64], prog: &[u8]) -> String;
        fn scribble(self: Pin<&mut VLab_u64>, s: &mut [u64], base: u64);
        type VLab_us;
        fn new_us() -> UniquePtr<VLab_us>;
        fn op(self: Pin<&mut VLab_us>, op: u32, i: usize, j: usize, n: usize, val: u64) -> i32;
        fn ids(self: &VLab_us, i: usize) -> Vec<u64>;
        fn observe(self: &VLab_us, i: usize) -> String;
        fn get(self: &VLab_us, i: usize) -> &Vec<usize>;
        fn vec_mut(self: Pin<&mut VLab_us>, i: usize) -> &mut Vec<usize>;
        fn put(self: Pin<&mut VLab_us>, i: usize, v: Vec<usize>);
        fn take(self: Pin<&mut VLab_us>, i: usize) -> Vec<usize>;
        fn slice(self: &VLab_us, i: usize, from: usize, to: usize) -> &[usize];
        fn slice_mut(self: Pin<&mut VLab_us>, i: usize, from: usize, to: usize) -> &mut [usize];
        fn probe(self: &VLab_us, s: &[usize], prog: &[u8]) -> String;
        fn scribble(self: Pin<&mut VLab_us>, s: &mut [usize], base: u64);
        type VLab_i8;
        fn new_i8() -> UniquePtr<VLab_i8>;
        fn op(self: Pin<&mut VLab_i8>, op: u32, i: usize, j: usize, n: usize, val: u64) -> i32;
        fn ids(self: &VLab_i8, i: usize) -> Vec<u64>;
        fn observe(self: &VLab_i8, i: usize) -> String;
        fn get(self: &VLab_i8, i: usize) -> &Vec<i8>;
        fn vec_mut(self: Pin<&mut VLab_i8>, i: usize) -> &mut Vec<i8>;
        fn put(self: Pin<&mut VLab_i8>, i: usize, v: Vec<i8>);
        fn take(self: Pin<&mut VLab_i8>, i: usize) -> Vec<i8>;
        fn slice(self: &VLab_i8, i: usize, from: usize, to: usize) -> &[i8];
        fn slice_mut(self: Pin<&mut VLab_i8>, i: usize, from: usize, to: usize) -> &mut [i8];
        fn probe(self: &VLab_i8, s: &[i8], prog: &[u8]) -> String;
        fn scribble(self: Pin<&mut VLab_i8>, s: &mut [i8], base: u64);
        type VLab_i16;
        fn new_i16() -> UniquePtr<VLab_i16>;
        fn op(self: Pin<&mut VLab_i16>, op: u32, i: usize, j: usize, n: usize, val: u64) -> i32;
        fn ids(self: &VLab_i16, i: usize) -> Vec<u64>;
        fn observe(self: &VLab_i16, i: usize) -> String;
        fn get(self: &VLab_i16, i: usize) -> &Vec<i16>;
        fn vec_mut(self: Pin<&mut VLab_i16>, i: usize) -> &mut Vec<i16>;
        fn put(self: Pin<&mut VLab_i16>, i: usize, v: Vec<i16>);
        fn take(self: Pin<&mut VLab_i16>, i: usize) -> Vec<i16>;
        fn slice(self: &VLab_i16, i: usize, from: usize, to: usize) -> &[i16];
        fn slice_mut(self: Pin<&mut VLab_i16>, i: usize, from: usize, to: usize) -> &mut [i16];
        fn probe(self: &VLab_i16, s: &[i16], prog: &[u8]) -> String;
        fn scribble(self: Pin<&mut VLab_i16>, s: &mut [i16], base: u64);
        type VLab_i32;
        fn new_i32() -> UniquePtr<VLab_i32>;
        fn op(self: Pin<&mut VLab_i32>, op: u32, i: usize, j: usize, n: usize, val: u64) -> i32;
        fn ids(self: &VLab_i32, i: usize) -> Vec<u64>;
        fn observe(self: &VLab_i32, i: usize) -> String;
        fn get(self: &VLab_i32, i: usize) -> &Vec<i32>;
        fn vec_mut(self: Pin<&mut VLab_i32>, i: usize) -> &mut Vec<i32>;
        fn put(self: Pin<&mut VLab_i32>, i: usize, v: Vec<i32>);
        fn take(self: Pin<&mut VLab_i32>, i: usize) -> Vec<i32>;
        fn slice(self: &VLab_i32, i: usize, from: usize, to: usize) -> &[i32];
        fn slice_mut(self: Pin<&mut VLab_i32>, i: usize, from: usize, to: usize) -> &mut [i32];
        fn probe(self: &VLab_i32, s: &[i32], prog: &[u8]) -> String;
        fn scribble(self: Pin<&mut VLab_i32>, s: &mut [i32], base: u64);
        type VLab_i64;
        fn new_i64() -> UniquePtr<VLab_i64>;
        fn op(self: Pin<&mut VLab_i64>, op: u32, i: usize, j: usize, n: usize, val: u64) -> i32;
        fn ids(self: &VLab_i64, i: usize) -> Vec<u64>;
        fn observe(self: &VLab_i64, i: usize) -> String;
        fn get(self: &VLab_i64, i: usize) -> &Vec<i64>;
        fn vec_mut(self: Pin<&mut VLab_i64>, i: usize) -> &mut Vec<i64>;
        fn put(self: Pin<&mut VLab_i64>, i: usize, v: Vec<i64>);
        fn take(self: Pin<&mut VLab_i64>, i: usize) -> Vec<i64>;
        fn slice(self: &VLab_i64, i: usize, from: usize, to: usize) -> &[i64];
        fn slice_mut(self: Pin<&mut VLab_i64>, i: usize, from: usize, to: usize) -> &mut [i64];
        fn probe(self: &VLab_i64, s: &[i64], prog: &[u8]) -> String;
        fn scribble(self: Pin<&mut VLab_i64>, s: &mut [i64], base: u64);
        type VLab_iz;
        fn new_iz() -> UniquePtr<VLab_iz>;
        fn op(self: Pin<&mut VLab_iz>, op: u32, i: usize, j: usize, n: usize, val: u64) -> i32;
        fn ids(self: &VLab_iz, i: usize) -> Vec<u64>;
        fn observe(self: &VLab_iz, i: usize) -> String;
        fn get(self: &VLab_iz, i: usize) -> &Vec<isize>;
        fn vec_mut(self: Pin<&mut VLab_iz>, i: usize) -> &mut Vec<isize>;
        fn put(self: Pin<&mut VLab_iz>, i: usize, v: Vec<isize>);
        fn take(self: Pin<&mut VLab_iz>, i: usize) -> Vec<isize>;
        fn slice(self: &VLab_iz, i: usize, from: usize, to: usize) -> &[isize];
        fn slice_mut(self: Pin<&mut VLab_iz>, i: usize, from: usize, to: usize) -> &mut [isize];
        fn probe(self: &VLab_iz, s: &[isize], prog: &[u8]) -> String;
        fn scribble(self: Pin<&mut VLab_iz>, s: &mut [isize], base: u64);
        type VLab_f32;
        fn new_f32() -> UniquePtr<VLab_f32>;
        fn op(self: Pin<&mut VLab_f32>, op: u32, i: usize, j: usize, n: usize, val: u64) -> i32;
        fn ids(self: &VLab_f32, i: usize) -> Vec<u64>;
        fn observe(self: &VLab_f32, i: usize) -> String;
        fn get(self: &VLab_f32, i: usize) -> &Vec<f32>;
        fn vec_mut(self: Pin<&mut VLab_f32>, i: usize) -> &mut Vec<f32>;
        fn put(self: Pin<&mut VLab_f32>, i: usize, v: Vec<f32>);
        fn take(self: Pin<&mut VLab_f32>, i: usize) -> Vec<f32>;
        fn slice(self: &VLab_f32, i: usize, from: usize, to: usize) -> &[f32];
        fn slice_mut(self: Pin<&mut VLab_f32>, i: usize, from: usize, to: usize) -> &mut [f32];
        fn probe(self: &VLab_f32, s: &[f32], prog: &[u8]) -> String;
        fn scribble(self: Pin<&mut VLab_f32>, s: &mut [f32], base: u64);
        type VLab_f64;
        fn new_f64() -> UniquePtr<VLab_f64>;
        fn op(self: Pin<&mut VLab_f64>, op: u32, i: usize, j: usize, n: usize, val: u64) -> i32;
        fn ids(self: &VLab_f64, i: usize) -> Vec<u64>;
        fn observe(self: &VLab_f64, i: usize) -> String;
        fn get(self: &VLab_f64, i: usize) -> &Vec<f64>;
        fn vec_mut(self: Pin<&mut VLab_f64>, i: usize) -> &mut Vec<f64>;
        fn put(self: Pin<&mut VLab_f64>, i: usize, v: Vec<f64>);
        fn take(self: Pin<&mut VLab_f64>, i: usize) -> Vec<f64>;
        fn slice(self: &VLab_f64, i: usize, from: usize, to: usize) -> &[f64];
        fn slice_mut(self: Pin<&mut VLab_f64>, i: usize, from: usize, to: usize) -> &mut [f64];
        fn probe(self: &VLab_f64, s: &[f64], prog: &[u8]) -> String;
        fn scribble(self: Pin<&mut VLab_f64>, s: &mut [f64], base: u64);
        type VLab_bo;
        fn new_bo() -> UniquePtr<VLab_bo>;
        fn op(self: Pin<&mut VLab_bo>, op: u32, i: usize, j: usize, n: usize, val: u64) -> i32;
        fn ids(self: &VLab_bo, i: usize) -> Vec<u64>;
        fn observe(self: &VLab_bo, i: usize) -> String;
        fn get(self: &VLab_bo, i: usize) -> &Vec<bool>;
        fn vec_mut(self: Pin<&mut VLab_bo>, i: usize) -> &mut Vec<bool>;
        fn put(self: Pin<&mut VLab_bo>, i: usize, v: Vec<bool>);
        fn take(self: Pin<&mut VLab_bo>, i: usize) -> Vec<bool>;
        fn slice(self: &VLab_bo, i: usize, from: usize, to: usize) -> &[bool];
        fn slice_mut(self: Pin<&mut VLab_bo>, i: usize, from: usize, to: usize) -> &mut [bool];
        fn probe(self: &VLab_bo, s: &[bool], prog: &[u8]) -> String;
        fn scribble(self: Pin<&mut VLab_bo>, s: &mut [bool], base: u64);
        type VLab_st;
        fn new_st() -> UniquePtr<VLab_st>;
        fn op(self: Pin<&mut VLab_st>, op: u32, i: usize, j: usize, n: usize, val: u64) -> i32;
        fn ids(self: &VLab_st, i: usize) -> Vec<u64>;
        fn observe(self: &VLab_st, i: usize) -> String;
        fn get(self: &VLab_st, i: usize) -> &Vec<String>;
        fn vec_mut(self: Pin<&mut VLab_st>, i: usize) -> &mut Vec<String>;
        fn put(self: Pin<&mut VLab_st>, i: usize, v: Vec<String>);
        fn take(self: Pin<&mut VLab_st>, i: usize) -> Vec<String>;
        fn slice(self: &VLab_st, i: usize, from: usize, to: usize) -> &[String];
        fn slice_mut(self: Pin<&mut VLab_st>, i: usize, from: usize, to: usize) -> &mut [String];
        fn probe(self: &VLab_st, s: &[String], prog: &[u8]) -> String;
        fn scribble(self: Pin<&mut VLab_st>, s: &mut [String], base: u64);
        type VLab_pod;
        fn new_pod() -> UniquePtr<VLab_pod>;
        fn op(self: Pin<&mut VLab_pod>, op: u32, i: usize, j: usize, n: usize, val: u64) -> i32;
        fn ids(self: &VLab_pod, i: usize) -> Vec<u64>;
        fn observe(self: &VLab_pod, i: usize) -> String;
        fn get(self: &VLab_pod, i: usize) -> &Vec<Pod>;
        fn vec_mut(self: Pin<&mut VLab_pod>, i: usize) -> &mut Vec<Pod>;
        fn put(self: Pin<&mut VLab_pod>, i: usize, v: Vec<Pod>);
        fn take(self: Pin<&mut VLab_pod>, i: usize) -> Vec<Pod>;
        fn slice(self: &VLab_pod, i: usize, from: usize, to: usize) -> &[Pod];
        fn slice_mut(self: Pin<&mut VLab_pod>, i: usize, from: usize, to: usize) -> &mut [Pod];
        fn probe(self: &VLab_pod, s: &[Pod], prog: &[u8]) -> String;
        fn scribble(self: Pin<&mut VLab_pod>, s: &mut [Pod], base: u64);
        type VLab_el;
        fn new_el() -> UniquePtr<VLab_el>;
        fn op(self: Pin<&mut VLab_el>, op: u32, i: usize, j: usize, n: usize, val: u64) -> i32;
        fn ids(self: &VLab_el, i: usize) -> Vec<u64>;
        fn observe(self: &VLab_el, i: usize) -> String;
        fn get(self: &VLab_el, i: usize) -> &Vec<Elem>;
        fn vec_mut(self: Pin<&mut VLab_el>, i: usize) -> &mut Vec<Elem>;
        fn put(self: Pin<&mut VLab_el>, i: usize, v: Vec<Elem>);
        fn take(self: Pin<&mut VLab_el>, i: usize) -> Vec<Elem>;
        fn slice(self: &VLab_el, i: usize, from: usize, to: usize) -> &[Elem];
        fn slice_mut(self: Pin<&mut VLab_el>, i: usize, from: usize, to: usize) -> &mut [Elem];
        fn probe(self: &VLab_el, s: &[Elem], prog: &[u8]) -> String;
        fn scribble(self: Pin<&mut VLab_el>, s: &mut [Elem], base: u64);
        type VLab_th;
        fn new_th() -> UniquePtr<VLab_th>;
        fn op(self: Pin<&mut VLab_th>, op: u32, i: usize, j: usize, n: usize, val: u64) -> i32;
        fn ids(self: &VLab_th, i: usize) -> Vec<u64>;
        fn observe(self: &VLab_th, i: usize) -> String;
        fn get(self: &VLab_th, i: usize) -> &Vec<Th>;
        fn vec_mut(self: Pin<&mut VLab_th>, i: usize) -> &mut Vec<Th>;
        fn put(self: Pin<&mut VLab_th>, i: usize, v: Vec<Th>);
        fn take(self: Pin<&mut VLab_th>, i: usize) -> Vec<Th>;
        fn slice(self: &VLab_th, i: usize, from: usize, to: usize) -> &[Th];
        fn slice_mut(self: Pin<&mut VLab_th>, i: usize, from: usize, to: usize) -> &mut [Th];
        fn probe(self: &VLab_th, s: &[Th], prog: &[u8]) -> String;
        fn scribble(self: Pin<&mut VLab_th>, s: &mut [Th], base: u64);
        type OLab;
        fn new_opq() -> UniquePtr<OLab>;
        fn op(self: Pin<&mut OLab>, op: u32, i: usize, j: usize, n: usize) -> i32;
        fn put(self: Pin<&mut OLab>, i: usize, v: Vec<Opq>);
        fn take(self: Pin<&mut OLab>, i: usize) -> Vec<Opq>;
        fn get(self: &OLab, i: usize) -> &Vec<Opq>;
        fn vec_mut(self: Pin<&mut OLab>, i: usize) -> &mut Vec<Opq>;
        fn ids(self: &OLab, i: usize) -> Vec<u64>;
        fn observe(self: &OLab, i: usize) -> String;
        fn probe(self: &OLab, s: &[Opq], prog: &[u8]) -> String;
        fn slice(self: &OLab, i: usize) -> &[Opq];
        fn bump(self: Pin<&mut OLab>, s: &mut [Opq]);
    }
    extern "Rust" {
        type Opq;
        fn opq_id(self: &Opq) -> u64;
        fn opq_bump(self: &mut Opq);
        fn rust_opq_vec_id(v: Vec<Opq>) -> Vec<Opq>;
        fn rust_opq_push(v: &mut Vec<Opq>, val: u64);
        fn rust_opq_slice_ids(s: &[Opq]) -> Vec<u64>;
        fn rust_opq_subslice(s: &[Opq], from: usize, to: usize) -> &[Opq];
        fn rust_push_u8(v: &mut Vec<u8>, val: u64);
        fn rust_vec_id_u8(v: Vec<u8>) -> Vec<u8>;
        fn rust_slice_ids_u8(s: &[u8]) -> Vec<u64>;
        fn rust_subslice_u8(s: &[u8], from: usize, to: usize) -> &[u8];
        fn rust_scribble_u8(s: &mut [u8], base: u64);
        fn rust_push_u16(v: &mut Vec<u16>, val: u64);
        fn rust_vec_id_u16(v: Vec<u16>) -> Vec<u16>;
        fn rust_slice_ids_u16(s: &[u16]) -> Vec<u64>;
        fn rust_subslice_u16(s: &[u16], from: usize, to: usize) -> &[u16];
        fn rust_scribble_u16(s: &mut [u16], base: u64);
        fn rust_push_u32(v: &mut Vec<u32>, val: u64);
        fn rust_vec_id_u32(v: Vec<u32>) -> Vec<u32>;
        fn rust_slice_ids_u32(s: &[u32]) -> Vec<u64>;
        fn rust_subslice_u32(s: &[u32], from: usize, to: usize) -> &[u32];
        fn rust_scribble_u32(s: &mut [u32], base: u64);
        fn rust_push_u64(v: &mut Vec<u64>, val: u64);
        fn rust_vec_id_u64(v: Vec<u64>) -> Vec<u64>;
        fn rust_slice_ids_u64(s: &[u64]) -> Vec<u64>;
        fn rust_subslice_u64(s: &[u64], from: usize, to: usize) -> &[u64];
        fn rust_scribble_u64(s: &mut [u64], base: u64);
        fn rust_push_us(v: &mut Vec<usize>, val: u64);
        fn rust_vec_id_us(v: Vec<usize>) -> Vec<usize>;
        fn rust_slice_ids_us(s: &[usize]) -> Vec<u64>;
        fn rust_subslice_us(s: &[usize], from: usize, to: usize) -> &[usize];
        fn rust_scribble_us(s: &mut [usize], base: u64);
        fn rust_push_i8(v: &mut Vec<i8>, val: u64);
        fn rust_vec_id_i8(v: Vec<i8>) -> Vec<i8>;
        fn rust_slice_ids_i8(s: &[i8]) -> Vec<u64>;
        fn rust_subslice_i8(s: &[i8], from: usize, to: usize) -> &[i8];
        fn rust_scribble_i8(s: &mut [i8], base: u64);
        fn rust_push_i16(v: &mut Vec<i16>, val: u64);
        fn rust_vec_id_i16(v: Vec<i16>) -> Vec<i16>;
        fn rust_slice_ids_i16(s: &[i16]) -> Vec<u64>;
        fn rust_subslice_i16(s: &[i16], from: usize, to: usize) -> &[i16];
        fn rust_scribble_i16(s: &mut [i16], base: u64);
        fn rust_push_i32(v: &mut Vec<i32>, val: u64);
        fn rust_vec_id_i32(v: Vec<i32>) -> Vec<i32>;
        fn rust_slice_ids_i32(s: &[i32]) -> Vec<u64>;
        fn rust_subslice_i32(s: &[i32], from: usize, to: usize) -> &[i32];
        fn rust_scribble_i32(s: &mut [i32], base: u64);
        fn rust_push_i64(v: &mut Vec<i64>, val: u64);
        fn rust_vec_id_i64(v: Vec<i64>) -> Vec<i64>;
        fn rust_slice_ids_i64(s: &[i64]) -> Vec<u64>;
        fn rust_subslice_i64(s: &[i64], from: usize, to: usize) -> &[i64];
        fn rust_scribble_i64(s: &mut [i64], base: u64);
        fn rust_push_iz(v: &mut Vec<isize>, val: u64);
        fn rust_vec_id_iz(v: Vec<isize>) -> Vec<isize>;
        fn rust_slice_ids_iz(s: &[isize]) -> Vec<u64>;
        fn rust_subslice_iz(s: &[isize], from: usize, to: usize) -> &[isize];
        fn rust_scribble_iz(s: &mut [isize], base: u64);
        fn rust_push_f32(v: &mut Vec<f32>, val: u64);
        fn rust_vec_id_f32(v: Vec<f32>) -> Vec<f32>;
        fn rust_slice_ids_f32(s: &[f32]) -> Vec<u64>;
        fn rust_subslice_f32(s: &[f32], from: usize, to: usize) -> &[f32];
        fn rust_scribble_f32(s: &mut [f32], base: u64);
        fn rust_push_f64(v: &mut Vec<f64>, val: u64);
        fn rust_vec_id_f64(v: Vec<f64>) -> Vec<f64>;
        fn rust_slice_ids_f64(s: &[f64]) -> Vec<u64>;
        fn rust_subslice_f64(s: &[f64], from: usize, to: usize) -> &[f64];
        fn rust_scribble_f64(s: &mut [f64], base: u64);
        fn rust_push_bo(v: &mut Vec<bool>, val: u64);
        fn rust_vec_id_bo(v: Vec<bool>) -> Vec<bool>;
        fn rust_slice_ids_bo(s: &[bool]) -> Vec<u64>;
        fn rust_subslice_bo(s: &[bool], from: usize, to: usize) -> &[bool];
        fn rust_scribble_bo(s: &mut [bool], base: u64);
        fn rust_push_st(v: &mut Vec<String>, val: u64);
        fn rust_vec_id_st(v: Vec<String>) -> Vec<String>;
        fn rust_slice_ids_st(s: &[String]) -> Vec<u64>;
        fn rust_subslice_st(s: &[String], from: usize, to: usize) -> &[String];
        fn rust_scribble_st(s: &mut [String], base: u64);
        fn rust_push_pod(v: &mut Vec<Pod>, val: u64);
        fn rust_vec_id_pod(v: Vec<Pod>) -> Vec<Pod>;
        fn rust_slice_ids_pod(s: &[Pod]) -> Vec<u64>;
        fn rust_subslice_pod(s: &[Pod], from: usize, to: usize) -> &[Pod];
        fn rust_scribble_pod(s: &mut [Pod], base: u64);
        fn rust_push_el(v: &mut Vec<Elem>, val: u64);
        fn rust_vec_id_el(v: Vec<Elem>) -> Vec<Elem>;
        fn rust_slice_ids_el(s: &[Elem]) -> Vec<u64>;
        fn rust_subslice_el(s: &[Elem], from: usize, to: usize) -> &[Elem];
        fn rust_scribble_el(s: &mut [Elem], base: u64);
        fn rust_push_th(v: &mut Vec<Th>, val: u64);
        fn rust_vec_id_th(v: Vec<Th>) -> Vec<Th>;
        fn rust_slice_ids_th(s: &[Th]) -> Vec<u64>;
        fn rust_subslice_th(s: &[Th], from: usize, to: usize) -> &[Th];
        fn rust_scribble_th(s: &mut [Th], base: u64);
    }
}

use crate::vecs::{El, Opq};
pub fn rust_opq_vec_id(v: Vec<Opq>) -> Vec<Opq> { v }
pub fn rust_opq_push(v: &mut Vec<Opq>, val: u64) { v.push(Opq::new(val)) }
pub fn rust_opq_slice_ids(s: &[Opq]) -> Vec<u64> { s.iter().map(|o| o.opq_id()).collect() }
pub fn rust_opq_subslice(s: &[Opq], from: usize, to: usize) -> &[Opq] { &s[from..to] }

pub fn rust_push_u8(v: &mut Vec<u8>, val: u64) { v.push(<u8 as El>::mk(val)) }
pub fn rust_vec_id_u8(v: Vec<u8>) -> Vec<u8> { v }
pub fn rust_slice_ids_u8(s: &[u8]) -> Vec<u64> { s.iter().map(El::id).collect() }
pub fn rust_subslice_u8(s: &[u8], from: usize, to: usize) -> &[u8] { &s[from..to] }
pub fn rust_scribble_u8(s: &mut [u8], base: u64) { for (k, e) in s.iter_mut().enumerate() { *e = El::mk(base + k as u64) } }
crate::vecs::impl_lab!(ffi::VLab_u8, u8, ffi::new_u8);

pub fn rust_push_u16(v: &mut Vec<u16>, val: u64) { v.push(<u16 as El>::mk(val)) }
pub fn rust_vec_id_u16(v: Vec<u16>) -> Vec<u16> { v }
pub fn rust_slice_ids_u16(s: &[u16]) -> Vec<u64> { s.iter().map(El::id).collect() }
pub fn rust_subslice_u16(s: &[u16], from: usize, to: usize) -> &[u16] { &s[from..to] }
pub fn rust_scribble_u16(s: &mut [u16], base: u64) { for (k, e) in s.iter_mut().enumerate() { *e = El::mk(base + k as u64) } }
crate::vecs::impl_lab!(ffi::VLab_u16, u16, ffi::new_u16);

pub fn rust_push_u32(v: &mut Vec<u32>, val: u64) { v.push(<u32 as El>::mk(val)) }
pub fn rust_vec_id_u32(v: Vec<u32>) -> Vec<u32> { v }
pub fn rust_slice_ids_u32(s: &[u32]) -> Vec<u64> { s.iter().map(El::id).collect() }
pub fn rust_subslice_u32(s: &[u32], from: usize, to: usize) -> &[u32] { &s[from..to] }
pub fn rust_scribble_u32(s: &mut [u32], base: u64) { for (k, e) in s.iter_mut().enumerate() { *e = El::mk(base + k as u64) } }
crate::vecs::impl_lab!(ffi::VLab_u32, u32, ffi::new_u32);

pub fn rust_push_u64(v: &mut Vec<u64>, val: u64) { v.push(<u64 as El>::mk(val)) }
pub fn rust_vec_id_u64(v: Vec<u64>) -> Vec<u64> { v }
pub fn rust_slice_ids_u64(s: &[u64]) -> Vec<u64> { s.iter().map(El::id).collect() }
pub fn rust_subslice_u64(s: &[u64], from: usize, to: usize) -> &[u64] { &s[from..to] }
pub fn rust_scribble_u64(s: &mut [u64], base: u64) { for (k, e) in s.iter_mut().enumerate() { *e = El::mk(base + k as u64) } }
crate::vecs::impl_lab!(ffi::VLab_u64, u64, ffi::new_u64);

pub fn rust_push_us(v: &mut Vec<usize>, val: u64) { v.push(<usize as El>::mk(val)) }
pub fn rust_vec_id_us(v: Vec<usize>) -> Vec<usize> { v }
pub fn rust_slice_ids_us(s: &[usize]) -> Vec<u64> { s.iter().map(El::id).collect() }
pub fn rust_subslice_us(s: &[usize], from: usize, to: usize) -> &[usize] { &s[from..to] }
pub fn rust_scribble_us(s: &mut [usize], base: u64) { for (k, e) in s.iter_mut().enumerate() { *e = El::mk(base + k as u64) } }
crate::vecs::impl_lab!(ffi::VLab_us, usize, ffi::new_us);

pub fn rust_push_i8(v: &mut Vec<i8>, val: u64) { v.push(<i8 as El>::mk(val)) }
pub fn rust_vec_id_i8(v: Vec<i8>) -> Vec<i8> { v }
pub fn rust_slice_ids_i8(s: &[i8]) -> Vec<u64> { s.iter().map(El::id).collect() }
pub fn rust_subslice_i8(s: &[i8], from: usize, to: usize) -> &[i8] { &s[from..to] }
pub fn rust_scribble_i8(s: &mut [i8], base: u64) { for (k, e) in s.iter_mut().enumerate() { *e = El::mk(base + k as u64) } }
crate::vecs::impl_lab!(ffi::VLab_i8, i8, ffi::new_i8);

pub fn rust_push_i16(v: &mut Vec<i16>, val: u64) { v.push(<i16 as El>::mk(val)) }
pub fn rust_vec_id_i16(v: Vec<i16>) -> Vec<i16> { v }
pub fn rust_slice_ids_i16(s: &[i16]) -> Vec<u64> { s.iter().map(El::id).collect() }
pub fn rust_subslice_i16(s: &[i16], from: usize, to: usize) -> &[i16] { &s[from..to] }
pub fn rust_scribble_i16(s: &mut [i16], base: u64) { for (k, e) in s.iter_mut().enumerate() { *e = El::mk(base + k as u64) } }
crate::vecs::impl_lab!(ffi::VLab_i16, i16, ffi::new_i16);

pub fn rust_push_i32(v: &mut Vec<i32>, val: u64) { v.push(<i32 as El>::mk(val)) }
pub fn rust_vec_id_i32(v: Vec<i32>) -> Vec<i32> { v }
pub fn rust_slice_ids_i32(s: &[i32]) -> Vec<u64> { s.iter().map(El::id).collect() }
pub fn rust_subslice_i32(s: &[i32], from: usize, to: usize) -> &[i32] { &s[from..to] }
pub fn rust_scribble_i32(s: &mut [i32], base: u64) { for (k, e) in s.iter_mut().enumerate() { *e = El::mk(base + k as u64) } }
crate::vecs::impl_lab!(ffi::VLab_i32, i32, ffi::new_i32);

pub fn rust_push_i64(v: &mut Vec<i64>, val: u64) { v.push(<i64 as El>::mk(val)) }
pub fn rust_vec_id_i64(v: Vec<i64>) -> Vec<i64> { v }
pub fn rust_slice_ids_i64(s: &[i64]) -> Vec<u64> { s.iter().map(El::id).collect() }
pub fn rust_subslice_i64(s: &[i64], from: usize, to: usize) -> &[i64] { &s[from..to] }
pub fn rust_scribble_i64(s: &mut [i64], base: u64) { for (k, e) in s.iter_mut().enumerate() { *e = El::mk(base + k as u64) } }
crate::vecs::impl_lab!(ffi::VLab_i64, i64, ffi::new_i64);

pub fn rust_push_iz(v: &mut Vec<isize>, val: u64) { v.push(<isize as El>::mk(val)) }
pub fn rust_vec_id_iz(v: Vec<isize>) -> Vec<isize> { v }
pub fn rust_slice_ids_iz(s: &[isize]) -> Vec<u64> { s.iter().map(El::id).collect() }
pub fn rust_subslice_iz(s: &[isize], from: usize, to: usize) -> &[isize] { &s[from..to] }
pub fn rust_scribble_iz(s: &mut [isize], base: u64) { for (k, e) in s.iter_mut().enumerate() { *e = El::mk(base + k as u64) } }
crate::vecs::impl_lab!(ffi::VLab_iz, isize, ffi::new_iz);

pub fn rust_push_f32(v: &mut Vec<f32>, val: u64) { v.push(<f32 as El>::mk(val)) }
pub fn rust_vec_id_f32(v: Vec<f32>) -> Vec<f32> { v }
pub fn rust_slice_ids_f32(s: &[f32]) -> Vec<u64> { s.iter().map(El::id).collect() }
pub fn rust_subslice_f32(s: &[f32], from: usize, to: usize) -> &[f32] { &s[from..to] }
pub fn rust_scribble_f32(s: &mut [f32], base: u64) { for (k, e) in s.iter_mut().enumerate() { *e = El::mk(base + k as u64) } }
crate::vecs::impl_lab!(ffi::VLab_f32, f32, ffi::new_f32);

pub fn rust_push_f64(v: &mut Vec<f64>, val: u64) { v.push(<f64 as El>::mk(val)) }
pub fn rust_vec_id_f64(v: Vec<f64>) -> Vec<f64> { v }
pub fn rust_slice_ids_f64(s: &[f64]) -> Vec<u64> { s.iter().map(El::id).collect() }
pub fn rust_subslice_f64(s: &[f64], from: usize, to: usize) -> &[f64] { &s[from..to] }
pub fn rust_scribble_f64(s: &mut [f64], base: u64) { for (k, e) in s.iter_mut().enumerate() { *e = El::mk(base + k as u64) } }
crate::vecs::impl_lab!(ffi::VLab_f64, f64, ffi::new_f64);

pub fn rust_push_bo(v: &mut Vec<bool>, val: u64) { v.push(<bool as El>::mk(val)) }
pub fn rust_vec_id_bo(v: Vec<bool>) -> Vec<bool> { v }
pub fn rust_slice_ids_bo(s: &[bool]) -> Vec<u64> { s.iter().map(El::id).collect() }
pub fn rust_subslice_bo(s: &[bool], from: usize, to: usize) -> &[bool] { &s[from..to] }
pub fn rust_scribble_bo(s: &mut [bool], base: u64) { for (k, e) in s.iter_mut().enumerate() { *e = El::mk(base + k as u64) } }
crate::vecs::impl_lab!(ffi::VLab_bo, bool, ffi::new_bo);

pub fn rust_push_st(v: &mut Vec<String>, val: u64) { v.push(<String as El>::mk(val)) }
pub fn rust_vec_id_st(v: Vec<String>) -> Vec<String> { v }
pub fn rust_slice_ids_st(s: &[String]) -> Vec<u64> { s.iter().map(El::id).collect() }
pub fn rust_subslice_st(s: &[String], from: usize, to: usize) -> &[String] { &s[from..to] }
pub fn rust_scribble_st(s: &mut [String], base: u64) { for (k, e) in s.iter_mut().enumerate() { *e = El::mk(base + k as u64) } }
crate::vecs::impl_lab!(ffi::VLab_st, String, ffi::new_st);

pub fn rust_push_pod(v: &mut Vec<self::ffi::Pod>, val: u64) { v.push(<self::ffi::Pod as El>::mk(val)) }
pub fn rust_vec_id_pod(v: Vec<ffi::Pod>) -> Vec<ffi::Pod> { v }
pub fn rust_slice_ids_pod(s: &[ffi::Pod]) -> Vec<u64> { s.iter().map(El::id).collect() }
pub fn rust_subslice_pod(s: &[ffi::Pod], from: usize, to: usize) -> &[ffi::Pod] { &s[from..to] }
pub fn rust_scribble_pod(s: &mut [ffi::Pod], base: u64) { for (k, e) in s.iter_mut().enumerate() { *e = El::mk(base + k as u64) } }
crate::vecs::impl_lab!(ffi::VLab_pod, ffi::Pod, ffi::new_pod);

pub fn rust_push_el(v: &mut Vec<self::ffi::Elem>, val: u64) { v.push(<self::ffi::Elem as El>::mk(val)) }
pub fn rust_vec_id_el(v: Vec<ffi::Elem>) -> Vec<ffi::Elem> { v }
pub fn rust_slice_ids_el(s: &[ffi::Elem]) -> Vec<u64> { s.iter().map(El::id).collect() }
pub fn rust_subslice_el(s: &[ffi::Elem], from: usize, to: usize) -> &[ffi::Elem] { &s[from..to] }
pub fn rust_scribble_el(s: &mut [ffi::Elem], base: u64) { for (k, e) in s.iter_mut().enumerate() { *e = El::mk(base + k as u64) } }
crate::vecs::impl_lab!(ffi::VLab_el, ffi::Elem, ffi::new_el);

pub fn rust_push_th(v: &mut Vec<self::ffi::Th>, val: u64) { v.push(<self::ffi::Th as El>::mk(val)) }
pub fn rust_vec_id_th(v: Vec<ffi::Th>) -> Vec<ffi::Th> { v }
pub fn rust_slice_ids_th(s: &[ffi::Th]) -> Vec<u64> { s.iter().map(El::id).collect() }
pub fn rust_subslice_th(s: &[ffi::Th], from: usize, to: usize) -> &[ffi::Th] { &s[from..to] }
pub fn rust_scribble_th(s: &mut [ffi::Th], base: u64) { for (k, e) in s.iter_mut().enumerate() { *e = El::mk(base + k as u64) } }
crate::vecs::impl_lab!(ffi::VLab_th, ffi::Th, ffi::new_th);

