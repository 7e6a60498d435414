//! Generated by dev/mkptr.py.
#[cxx::bridge(namespace = "lab")]
pub mod ffi {
    #[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
    struct PS { a: u64, b: String, pad: u8 }
    unsafe extern "C++" {
        include!("rt/cpp/ptrs.h");
        type Obj;
        fn id(self: &Obj) -> u64;
        fn hits(self: &Obj) -> u64;
        fn hit(self: Pin<&mut Obj>);
        fn live_objs() -> u64;
        fn alias_u64(p: &SharedPtr<PS>, null: bool) -> SharedPtr<u64>;
        fn churn(p: &SharedPtr<Obj>, w: &WeakPtr<Obj>, n: usize) -> bool;
        type Stream;
        fn new_stream() -> UniquePtr<Stream>;
        fn note(self: Pin<&mut Stream>, what: &str);
        fn trace(self: &Stream) -> String;
        type ULab_obj;
        fn new_ulab_obj() -> UniquePtr<ULab_obj>;
        fn make(self: Pin<&mut ULab_obj>, v: u64) -> UniquePtr<Obj>;
        fn null(self: Pin<&mut ULab_obj>) -> UniquePtr<Obj>;
        fn raw(self: Pin<&mut ULab_obj>, v: u64) -> *mut Obj;
        fn put(self: Pin<&mut ULab_obj>, i: usize, p: UniquePtr<Obj>);
        fn take(self: Pin<&mut ULab_obj>, i: usize) -> UniquePtr<Obj>;
        fn peek(self: &ULab_obj, i: usize) -> &UniquePtr<Obj>;
        fn poke(self: Pin<&mut ULab_obj>, i: usize) -> &mut UniquePtr<Obj>;
        fn id(self: &ULab_obj, i: usize) -> u64;
        fn id_of(self: &ULab_obj, v: &Obj) -> u64;
        fn bump_of(self: Pin<&mut ULab_obj>, v: Pin<&mut Obj>);
        fn addr(self: &ULab_obj, p: &UniquePtr<Obj>) -> usize;
        fn meddle(self: Pin<&mut ULab_obj>, p: &mut UniquePtr<Obj>, kind: u32, v: u64);
        fn pass(self: Pin<&mut ULab_obj>, p: UniquePtr<Obj>, kind: u32) -> Result<UniquePtr<Obj>>;
        type ULab_ps;
        fn new_ulab_ps() -> UniquePtr<ULab_ps>;
        fn make(self: Pin<&mut ULab_ps>, v: u64) -> UniquePtr<PS>;
        fn null(self: Pin<&mut ULab_ps>) -> UniquePtr<PS>;
        fn raw(self: Pin<&mut ULab_ps>, v: u64) -> *mut PS;
        fn put(self: Pin<&mut ULab_ps>, i: usize, p: UniquePtr<PS>);
        fn take(self: Pin<&mut ULab_ps>, i: usize) -> UniquePtr<PS>;
        fn peek(self: &ULab_ps, i: usize) -> &UniquePtr<PS>;
        fn poke(self: Pin<&mut ULab_ps>, i: usize) -> &mut UniquePtr<PS>;
        fn id(self: &ULab_ps, i: usize) -> u64;
        fn id_of(self: &ULab_ps, v: &PS) -> u64;
        fn bump_of(self: Pin<&mut ULab_ps>, v: &mut PS);
        fn addr(self: &ULab_ps, p: &UniquePtr<PS>) -> usize;
        fn meddle(self: Pin<&mut ULab_ps>, p: &mut UniquePtr<PS>, kind: u32, v: u64);
        fn pass(self: Pin<&mut ULab_ps>, p: UniquePtr<PS>, kind: u32) -> Result<UniquePtr<PS>>;
        type ULab_str;
        fn new_ulab_str() -> UniquePtr<ULab_str>;
        fn make(self: Pin<&mut ULab_str>, v: u64) -> UniquePtr<CxxString>;
        fn null(self: Pin<&mut ULab_str>) -> UniquePtr<CxxString>;
        fn raw(self: Pin<&mut ULab_str>, v: u64) -> *mut CxxString;
        fn put(self: Pin<&mut ULab_str>, i: usize, p: UniquePtr<CxxString>);
        fn take(self: Pin<&mut ULab_str>, i: usize) -> UniquePtr<CxxString>;
        fn peek(self: &ULab_str, i: usize) -> &UniquePtr<CxxString>;
        fn poke(self: Pin<&mut ULab_str>, i: usize) -> &mut UniquePtr<CxxString>;
        fn id(self: &ULab_str, i: usize) -> u64;
        fn id_of(self: &ULab_str, v: &CxxString) -> u64;
        fn bump_of(self: Pin<&mut ULab_str>, v: Pin<&mut CxxString>);
        fn addr(self: &ULab_str, p: &UniquePtr<CxxString>) -> usize;
        fn meddle(self: Pin<&mut ULab_str>, p: &mut UniquePtr<CxxString>, kind: u32, v: u64);
        fn pass(self: Pin<&mut ULab_str>, p: UniquePtr<CxxString>, kind: u32) -> Result<UniquePtr<CxxString>>;
        type ULab_vu;
        fn new_ulab_vu() -> UniquePtr<ULab_vu>;
        fn make(self: Pin<&mut ULab_vu>, v: u64) -> UniquePtr<CxxVector<u64>>;
        fn null(self: Pin<&mut ULab_vu>) -> UniquePtr<CxxVector<u64>>;
        fn raw(self: Pin<&mut ULab_vu>, v: u64) -> *mut CxxVector<u64>;
        fn put(self: Pin<&mut ULab_vu>, i: usize, p: UniquePtr<CxxVector<u64>>);
        fn take(self: Pin<&mut ULab_vu>, i: usize) -> UniquePtr<CxxVector<u64>>;
        fn peek(self: &ULab_vu, i: usize) -> &UniquePtr<CxxVector<u64>>;
        fn poke(self: Pin<&mut ULab_vu>, i: usize) -> &mut UniquePtr<CxxVector<u64>>;
        fn id(self: &ULab_vu, i: usize) -> u64;
        fn id_of(self: &ULab_vu, v: &CxxVector<u64>) -> u64;
        fn bump_of(self: Pin<&mut ULab_vu>, v: Pin<&mut CxxVector<u64>>);
        fn addr(self: &ULab_vu, p: &UniquePtr<CxxVector<u64>>) -> usize;
        fn meddle(self: Pin<&mut ULab_vu>, p: &mut UniquePtr<CxxVector<u64>>, kind: u32, v: u64);
        fn pass(self: Pin<&mut ULab_vu>, p: UniquePtr<CxxVector<u64>>, kind: u32) -> Result<UniquePtr<CxxVector<u64>>>;
        type ULab_vp;
        fn new_ulab_vp() -> UniquePtr<ULab_vp>;
        fn make(self: Pin<&mut ULab_vp>, v: u64) -> UniquePtr<CxxVector<PS>>;
        fn null(self: Pin<&mut ULab_vp>) -> UniquePtr<CxxVector<PS>>;
        fn raw(self: Pin<&mut ULab_vp>, v: u64) -> *mut CxxVector<PS>;
        fn put(self: Pin<&mut ULab_vp>, i: usize, p: UniquePtr<CxxVector<PS>>);
        fn take(self: Pin<&mut ULab_vp>, i: usize) -> UniquePtr<CxxVector<PS>>;
        fn peek(self: &ULab_vp, i: usize) -> &UniquePtr<CxxVector<PS>>;
        fn poke(self: Pin<&mut ULab_vp>, i: usize) -> &mut UniquePtr<CxxVector<PS>>;
        fn id(self: &ULab_vp, i: usize) -> u64;
        fn id_of(self: &ULab_vp, v: &CxxVector<PS>) -> u64;
        fn bump_of(self: Pin<&mut ULab_vp>, v: Pin<&mut CxxVector<PS>>);
        fn addr(self: &ULab_vp, p: &UniquePtr<CxxVector<PS>>) -> usize;
        fn meddle(self: Pin<&mut ULab_vp>, p: &mut UniquePtr<CxxVector<PS>>, kind: u32, v: u64);
        fn pass(self: Pin<&mut ULab_vp>, p: UniquePtr<CxxVector<PS>>, kind: u32) -> Result<UniquePtr<CxxVector<PS>>>;
        type ULab_vs;
        fn new_ulab_vs() -> UniquePtr<ULab_vs>;
        fn make(self: Pin<&mut ULab_vs>, v: u64) -> UniquePtr<CxxVector<CxxString>>;
        fn null(self: Pin<&mut ULab_vs>) -> UniquePtr<CxxVector<CxxString>>;
        fn raw(self: Pin<&mut ULab_vs>, v: u64) -> *mut CxxVector<CxxString>;
        fn put(self: Pin<&mut ULab_vs>, i: usize, p: UniquePtr<CxxVector<CxxString>>);
        fn take(self: Pin<&mut ULab_vs>, i: usize) -> UniquePtr<CxxVector<CxxString>>;
        fn peek(self: &ULab_vs, i: usize) -> &UniquePtr<CxxVector<CxxString>>;
        fn poke(self: Pin<&mut ULab_vs>, i: usize) -> &mut UniquePtr<CxxVector<CxxString>>;
        fn id(self: &ULab_vs, i: usize) -> u64;
        fn id_of(self: &ULab_vs, v: &CxxVector<CxxString>) -> u64;
        fn bump_of(self: Pin<&mut ULab_vs>, v: Pin<&mut CxxVector<CxxString>>);
        fn addr(self: &ULab_vs, p: &UniquePtr<CxxVector<CxxString>>) -> usize;
        fn meddle(self: Pin<&mut ULab_vs>, p: &mut UniquePtr<CxxVector<CxxString>>, kind: u32, v: u64);
        fn pass(self: Pin<&mut ULab_vs>, p: UniquePtr<CxxVector<CxxString>>, kind: u32) -> Result<UniquePtr<CxxVector<CxxString>>>;
        type SLab_obj;
        fn new_slab_obj() -> UniquePtr<SLab_obj>;
        fn make(self: Pin<&mut SLab_obj>, v: u64) -> SharedPtr<Obj>;
        fn null(self: Pin<&mut SLab_obj>) -> SharedPtr<Obj>;
        fn wnull(self: Pin<&mut SLab_obj>) -> WeakPtr<Obj>;
        fn put(self: Pin<&mut SLab_obj>, i: usize, p: SharedPtr<Obj>);
        fn take(self: Pin<&mut SLab_obj>, i: usize, copy: bool) -> SharedPtr<Obj>;
        fn wput(self: Pin<&mut SLab_obj>, i: usize, p: WeakPtr<Obj>);
        fn wtake(self: Pin<&mut SLab_obj>, i: usize, copy: bool) -> WeakPtr<Obj>;
        fn peek(self: &SLab_obj, i: usize) -> &SharedPtr<Obj>;
        fn poke(self: Pin<&mut SLab_obj>, i: usize) -> &mut SharedPtr<Obj>;
        fn wpeek(self: &SLab_obj, i: usize) -> &WeakPtr<Obj>;
        fn wpoke(self: Pin<&mut SLab_obj>, i: usize) -> &mut WeakPtr<Obj>;
        fn val(self: &SLab_obj, v: &Obj) -> u64;
        fn op(self: Pin<&mut SLab_obj>, op: u32, i: usize, j: usize);
        fn addr(self: &SLab_obj, p: &SharedPtr<Obj>) -> usize;
        fn count(self: &SLab_obj, p: &SharedPtr<Obj>) -> i64;
        fn wcount(self: &SLab_obj, p: &WeakPtr<Obj>) -> i64;
        type SLab_ps;
        fn new_slab_ps() -> UniquePtr<SLab_ps>;
        fn make(self: Pin<&mut SLab_ps>, v: u64) -> SharedPtr<PS>;
        fn null(self: Pin<&mut SLab_ps>) -> SharedPtr<PS>;
        fn wnull(self: Pin<&mut SLab_ps>) -> WeakPtr<PS>;
        fn put(self: Pin<&mut SLab_ps>, i: usize, p: SharedPtr<PS>);
        fn take(self: Pin<&mut SLab_ps>, i: usize, copy: bool) -> SharedPtr<PS>;
        fn wput(self: Pin<&mut SLab_ps>, i: usize, p: WeakPtr<PS>);
        fn wtake(self: Pin<&mut SLab_ps>, i: usize, copy: bool) -> WeakPtr<PS>;
        fn peek(self: &SLab_ps, i: usize) -> &SharedPtr<PS>;
        fn poke(self: Pin<&mut SLab_ps>, i: usize) -> &mut SharedPtr<PS>;
        fn wpeek(self: &SLab_ps, i: usize) -> &WeakPtr<PS>;
        fn wpoke(self: Pin<&mut SLab_ps>, i: usize) -> &mut WeakPtr<PS>;
        fn val(self: &SLab_ps, v: &PS) -> u64;
        fn op(self: Pin<&mut SLab_ps>, op: u32, i: usize, j: usize);
        fn addr(self: &SLab_ps, p: &SharedPtr<PS>) -> usize;
        fn count(self: &SLab_ps, p: &SharedPtr<PS>) -> i64;
        fn wcount(self: &SLab_ps, p: &WeakPtr<PS>) -> i64;
        type SLab_str;
        fn new_slab_str() -> UniquePtr<SLab_str>;
        fn make(self: Pin<&mut SLab_str>, v: u64) -> SharedPtr<CxxString>;
        fn null(self: Pin<&mut SLab_str>) -> SharedPtr<CxxString>;
        fn wnull(self: Pin<&mut SLab_str>) -> WeakPtr<CxxString>;
        fn put(self: Pin<&mut SLab_str>, i: usize, p: SharedPtr<CxxString>);
        fn take(self: Pin<&mut SLab_str>, i: usize, copy: bool) -> SharedPtr<CxxString>;
        fn wput(self: Pin<&mut SLab_str>, i: usize, p: WeakPtr<CxxString>);
        fn wtake(self: Pin<&mut SLab_str>, i: usize, copy: bool) -> WeakPtr<CxxString>;
        fn peek(self: &SLab_str, i: usize) -> &SharedPtr<CxxString>;
        fn poke(self: Pin<&mut SLab_str>, i: usize) -> &mut SharedPtr<CxxString>;
        fn wpeek(self: &SLab_str, i: usize) -> &WeakPtr<CxxString>;
        fn wpoke(self: Pin<&mut SLab_str>, i: usize) -> &mut WeakPtr<CxxString>;
        fn val(self: &SLab_str, v: &CxxString) -> u64;
        fn op(self: Pin<&mut SLab_str>, op: u32, i: usize, j: usize);
        fn addr(self: &SLab_str, p: &SharedPtr<CxxString>) -> usize;
        fn count(self: &SLab_str, p: &SharedPtr<CxxString>) -> i64;
        fn wcount(self: &SLab_str, p: &WeakPtr<CxxString>) -> i64;
        type SLab_bool;
        fn new_slab_bool() -> UniquePtr<SLab_bool>;
        fn make(self: Pin<&mut SLab_bool>, v: u64) -> SharedPtr<bool>;
        fn null(self: Pin<&mut SLab_bool>) -> SharedPtr<bool>;
        fn wnull(self: Pin<&mut SLab_bool>) -> WeakPtr<bool>;
        fn put(self: Pin<&mut SLab_bool>, i: usize, p: SharedPtr<bool>);
        fn take(self: Pin<&mut SLab_bool>, i: usize, copy: bool) -> SharedPtr<bool>;
        fn wput(self: Pin<&mut SLab_bool>, i: usize, p: WeakPtr<bool>);
        fn wtake(self: Pin<&mut SLab_bool>, i: usize, copy: bool) -> WeakPtr<bool>;
        fn peek(self: &SLab_bool, i: usize) -> &SharedPtr<bool>;
        fn poke(self: Pin<&mut SLab_bool>, i: usize) -> &mut SharedPtr<bool>;
        fn wpeek(self: &SLab_bool, i: usize) -> &WeakPtr<bool>;
        fn wpoke(self: Pin<&mut SLab_bool>, i: usize) -> &mut WeakPtr<bool>;
        fn val(self: &SLab_bool, v: &bool) -> u64;
        fn op(self: Pin<&mut SLab_bool>, op: u32, i: usize, j: usize);
        fn addr(self: &SLab_bool, p: &SharedPtr<bool>) -> usize;
        fn count(self: &SLab_bool, p: &SharedPtr<bool>) -> i64;
        fn wcount(self: &SLab_bool, p: &WeakPtr<bool>) -> i64;
        type SLab_u8;
        fn new_slab_u8() -> UniquePtr<SLab_u8>;
        fn make(self: Pin<&mut SLab_u8>, v: u64) -> SharedPtr<u8>;
        fn null(self: Pin<&mut SLab_u8>) -> SharedPtr<u8>;
        fn wnull(self: Pin<&mut SLab_u8>) -> WeakPtr<u8>;
        fn put(self: Pin<&mut SLab_u8>, i: usize, p: SharedPtr<u8>);
        fn take(self: Pin<&mut SLab_u8>, i: usize, copy: bool) -> SharedPtr<u8>;
        fn wput(self: Pin<&mut SLab_u8>, i: usize, p: WeakPtr<u8>);
        fn wtake(self: Pin<&mut SLab_u8>, i: usize, copy: bool) -> WeakPtr<u8>;
        fn peek(self: &SLab_u8, i: usize) -> &SharedPtr<u8>;
        fn poke(self: Pin<&mut SLab_u8>, i: usize) -> &mut SharedPtr<u8>;
        fn wpeek(self: &SLab_u8, i: usize) -> &WeakPtr<u8>;
        fn wpoke(self: Pin<&mut SLab_u8>, i: usize) -> &mut WeakPtr<u8>;
        fn val(self: &SLab_u8, v: &u8) -> u64;
        fn op(self: Pin<&mut SLab_u8>, op: u32, i: usize, j: usize);
        fn addr(self: &SLab_u8, p: &SharedPtr<u8>) -> usize;
        fn count(self: &SLab_u8, p: &SharedPtr<u8>) -> i64;
        fn wcount(self: &SLab_u8, p: &WeakPtr<u8>) -> i64;
        type SLab_u16;
        fn new_slab_u16() -> UniquePtr<SLab_u16>;
        fn make(self: Pin<&mut SLab_u16>, v: u64) -> SharedPtr<u16>;
        fn null(self: Pin<&mut SLab_u16>) -> SharedPtr<u16>;
        fn wnull(self: Pin<&mut SLab_u16>) -> WeakPtr<u16>;
        fn put(self: Pin<&mut SLab_u16>, i: usize, p: SharedPtr<u16>);
        fn take(self: Pin<&mut SLab_u16>, i: usize, copy: bool) -> SharedPtr<u16>;
        fn wput(self: Pin<&mut SLab_u16>, i: usize, p: WeakPtr<u16>);
        fn wtake(self: Pin<&mut SLab_u16>, i: usize, copy: bool) -> WeakPtr<u16>;
        fn peek(self: &SLab_u16, i: usize) -> &SharedPtr<u16>;
        fn poke(self: Pin<&mut SLab_u16>, i: usize) -> &mut SharedPtr<u16>;
        fn wpeek(self: &SLab_u16, i: usize) -> &WeakPtr<u16>;
        fn wpoke(self: Pin<&mut SLab_u16>, i: usize) -> &mut WeakPtr<u16>;
        fn val(self: &SLab_u16, v: &u16) -> u64;
        fn op(self: Pin<&mut SLab_u16>, op: u32, i: usize, j: usize);
        fn addr(self: &SLab_u16, p: &SharedPtr<u16>) -> usize;
        fn count(self: &SLab_u16, p: &SharedPtr<u16>) -> i64;
        fn wcount(self: &SLab_u16, p: &WeakPtr<u16>) -> i64;
        type SLab_u32;
        fn new_slab_u32() -> UniquePtr<SLab_u32>;
        fn make(self: Pin<&mut SLab_u32>, v: u64) -> SharedPtr<u32>;
        fn null(self: Pin<&mut SLab_u32>) -> SharedPtr<u32>;
        fn wnull(self: Pin<&mut SLab_u32>) -> WeakPtr<u32>;
        fn put(self: Pin<&mut SLab_u32>, i: usize, p: SharedPtr<u32>);
        fn take(self: Pin<&mut SLab_u32>, i: usize, copy: bool) -> SharedPtr<u32>;
        fn wput(self: Pin<&mut SLab_u32>, i: usize, p: WeakPtr<u32>);
        fn wtake(self: Pin<&mut SLab_u32>, i: usize, copy: bool) -> WeakPtr<u32>;
        fn peek(self: &SLab_u32, i: usize) -> &SharedPtr<u32>;
        fn poke(self: Pin<&mut SLab_u32>, i: usize) -> &mut SharedPtr<u32>;
        fn wpeek(self: &SLab_u32, i: usize) -> &WeakPtr<u32>;
        fn wpoke(self: Pin<&mut SLab_u32>, i: usize) -> &mut WeakPtr<u32>;
        fn val(self: &SLab_u32, v: &u32) -> u64;
        fn op(self: Pin<&mut SLab_u32>, op: u32, i: usize, j: usize);
        fn addr(self: &SLab_u32, p: &SharedPtr<u32>) -> usize;
        fn count(self: &SLab_u32, p: &SharedPtr<u32>) -> i64;
        fn wcount(self: &SLab_u32, p: &WeakPtr<u32>) -> i64;
        type SLab_u64;
        fn new_slab_u64() -> UniquePtr<SLab_u64>;
        fn make(self: Pin<&mut SLab_u64>, v: u64) -> SharedPtr<u64>;
        fn null(self: Pin<&mut SLab_u64>) -> SharedPtr<u64>;
        fn wnull(self: Pin<&mut SLab_u64>) -> WeakPtr<u64>;
        fn put(self: Pin<&mut SLab_u64>, i: usize, p: SharedPtr<u64>);
        fn take(self: Pin<&mut SLab_u64>, i: usize, copy: bool) -> SharedPtr<u64>;
        fn wput(self: Pin<&mut SLab_u64>, i: usize, p: WeakPtr<u64>);
        fn wtake(self: Pin<&mut SLab_u64>, i: usize, copy: bool) -> WeakPtr<u64>;
        fn peek(self: &SLab_u64, i: usize) -> &SharedPtr<u64>;
        fn poke(self: Pin<&mut SLab_u64>, i: usize) -> &mut SharedPtr<u64>;
        fn wpeek(self: &SLab_u64, i: usize) -> &WeakPtr<u64>;
        fn wpoke(self: Pin<&mut SLab_u64>, i: usize) -> &mut WeakPtr<u64>;
        fn val(self: &SLab_u64, v: &u64) -> u64;
        fn op(self: Pin<&mut SLab_u64>, op: u32, i: usize, j: usize);
        fn addr(self: &SLab_u64, p: &SharedPtr<u64>) -> usize;
        fn count(self: &SLab_u64, p: &SharedPtr<u64>) -> i64;
        fn wcount(self: &SLab_u64, p: &WeakPtr<u64>) -> i64;
        type SLab_usize;
        fn new_slab_usize() -> UniquePtr<SLab_usize>;
        fn make(self: Pin<&mut SLab_usize>, v: u64) -> SharedPtr<usize>;
        fn null(self: Pin<&mut SLab_usize>) -> SharedPtr<usize>;
        fn wnull(self: Pin<&mut SLab_usize>) -> WeakPtr<usize>;
        fn put(self: Pin<&mut SLab_usize>, i: usize, p: SharedPtr<usize>);
        fn take(self: Pin<&mut SLab_usize>, i: usize, copy: bool) -> SharedPtr<usize>;
        fn wput(self: Pin<&mut SLab_usize>, i: usize, p: WeakPtr<usize>);
        fn wtake(self: Pin<&mut SLab_usize>, i: usize, copy: bool) -> WeakPtr<usize>;
        fn peek(self: &SLab_usize, i: usize) -> &SharedPtr<usize>;
        fn poke(self: Pin<&mut SLab_usize>, i: usize) -> &mut SharedPtr<usize>;
        fn wpeek(self: &SLab_usize, i: usize) -> &WeakPtr<usize>;
        fn wpoke(self: Pin<&mut SLab_usize>, i: usize) -> &mut WeakPtr<usize>;
        fn val(self: &SLab_usize, v: &usize) -> u64;
        fn op(self: Pin<&mut SLab_usize>, op: u32, i: usize, j: usize);
        fn addr(self: &SLab_usize, p: &SharedPtr<usize>) -> usize;
        fn count(self: &SLab_usize, p: &SharedPtr<usize>) -> i64;
        fn wcount(self: &SLab_usize, p: &WeakPtr<usize>) -> i64;
        type SLab_i8;
        fn new_slab_i8() -> UniquePtr<SLab_i8>;
        fn make(self: Pin<&mut SLab_i8>, v: u64) -> SharedPtr<i8>;
        fn null(self: Pin<&mut SLab_i8>) -> SharedPtr<i8>;
        fn wnull(self: Pin<&mut SLab_i8>) -> WeakPtr<i8>;
        fn put(self: Pin<&mut SLab_i8>, i: usize, p: SharedPtr<i8>);
        fn take(self: Pin<&mut SLab_i8>, i: usize, copy: bool) -> SharedPtr<i8>;
        fn wput(self: Pin<&mut SLab_i8>, i: usize, p: WeakPtr<i8>);
        fn wtake(self: Pin<&mut SLab_i8>, i: usize, copy: bool) -> WeakPtr<i8>;
        fn peek(self: &SLab_i8, i: usize) -> &SharedPtr<i8>;
        fn poke(self: Pin<&mut SLab_i8>, i: usize) -> &mut SharedPtr<i8>;
        fn wpeek(self: &SLab_i8, i: usize) -> &WeakPtr<i8>;
        fn wpoke(self: Pin<&mut SLab_i8>, i: usize) -> &mut WeakPtr<i8>;
        fn val(self: &SLab_i8, v: &i8) -> u64;
        fn op(self: Pin<&mut SLab_i8>, op: u32, i: usize, j: usize);
        fn addr(self: &SLab_i8, p: &SharedPtr<i8>) -> usize;
        fn count(self: &SLab_i8, p: &SharedPtr<i8>) -> i64;
        fn wcount(self: &SLab_i8, p: &WeakPtr<i8>) -> i64;
        type SLab_i16;
        fn new_slab_i16() -> UniquePtr<SLab_i16>;
        fn make(self: Pin<&mut SLab_i16>, v: u64) -> SharedPtr<i16>;
        fn null(self: Pin<&mut SLab_i16>) -> SharedPtr<i16>;
        fn wnull(self: Pin<&mut SLab_i16>) -> WeakPtr<i16>;
        fn put(self: Pin<&mut SLab_i16>, i: usize, p: SharedPtr<i16>);
        fn take(self: Pin<&mut SLab_i16>, i: usize, copy: bool) -> SharedPtr<i16>;
        fn wput(self: Pin<&mut SLab_i16>, i: usize, p: WeakPtr<i16>);
        fn wtake(self: Pin<&mut SLab_i16>, i: usize, copy: bool) -> WeakPtr<i16>;
        fn peek(self: &SLab_i16, i: usize) -> &SharedPtr<i16>;
        fn poke(self: Pin<&mut SLab_i16>, i: usize) -> &mut SharedPtr<i16>;
        fn wpeek(self: &SLab_i16, i: usize) -> &WeakPtr<i16>;
        fn wpoke(self: Pin<&mut SLab_i16>, i: usize) -> &mut WeakPtr<i16>;
        fn val(self: &SLab_i16, v: &i16) -> u64;
        fn op(self: Pin<&mut SLab_i16>, op: u32, i: usize, j: usize);
        fn addr(self: &SLab_i16, p: &SharedPtr<i16>) -> usize;
        fn count(self: &SLab_i16, p: &SharedPtr<i16>) -> i64;
        fn wcount(self: &SLab_i16, p: &WeakPtr<i16>) -> i64;
        type SLab_i32;
        fn new_slab_i32() -> UniquePtr<SLab_i32>;
        fn make(self: Pin<&mut SLab_i32>, v: u64) -> SharedPtr<i32>;
        fn null(self: Pin<&mut SLab_i32>) -> SharedPtr<i32>;
        fn wnull(self: Pin<&mut SLab_i32>) -> WeakPtr<i32>;
        fn put(self: Pin<&mut SLab_i32>, i: usize, p: SharedPtr<i32>);
        fn take(self: Pin<&mut SLab_i32>, i: usize, copy: bool) -> SharedPtr<i32>;
        fn wput(self: Pin<&mut SLab_i32>, i: usize, p: WeakPtr<i32>);
        fn wtake(self: Pin<&mut SLab_i32>, i: usize, copy: bool) -> WeakPtr<i32>;
        fn peek(self: &SLab_i32, i: usize) -> &SharedPtr<i32>;
        fn poke(self: Pin<&mut SLab_i32>, i: usize) -> &mut SharedPtr<i32>;
        fn wpeek(self: &SLab_i32, i: usize) -> &WeakPtr<i32>;
        fn wpoke(self: Pin<&mut SLab_i32>, i: usize) -> &mut WeakPtr<i32>;
        fn val(self: &SLab_i32, v: &i32) -> u64;
        fn op(self: Pin<&mut SLab_i32>, op: u32, i: usize, j: usize);
        fn addr(self: &SLab_i32, p: &SharedPtr<i32>) -> usize;
        fn count(self: &SLab_i32, p: &SharedPtr<i32>) -> i64;
        fn wcount(self: &SLab_i32, p: &WeakPtr<i32>) -> i64;
        type SLab_i64;
        fn new_slab_i64() -> UniquePtr<SLab_i64>;
        fn make(self: Pin<&mut SLab_i64>, v: u64) -> SharedPtr<i64>;
        fn null(self: Pin<&mut SLab_i64>) -> SharedPtr<i64>;
        fn wnull(self: Pin<&mut SLab_i64>) -> WeakPtr<i64>;
        fn put(self: Pin<&mut SLab_i64>, i: usize, p: SharedPtr<i64>);
        fn take(self: Pin<&mut SLab_i64>, i: usize, copy: bool) -> SharedPtr<i64>;
        fn wput(self: Pin<&mut SLab_i64>, i: usize, p: WeakPtr<i64>);
        fn wtake(self: Pin<&mut SLab_i64>, i: usize, copy: bool) -> WeakPtr<i64>;
        fn peek(self: &SLab_i64, i: usize) -> &SharedPtr<i64>;
        fn poke(self: Pin<&mut SLab_i64>, i: usize) -> &mut SharedPtr<i64>;
        fn wpeek(self: &SLab_i64, i: usize) -> &WeakPtr<i64>;
        fn wpoke(self: Pin<&mut SLab_i64>, i: usize) -> &mut WeakPtr<i64>;
        fn val(self: &SLab_i64, v: &i64) -> u64;
        fn op(self: Pin<&mut SLab_i64>, op: u32, i: usize, j: usize);
        fn addr(self: &SLab_i64, p: &SharedPtr<i64>) -> usize;
        fn count(self: &SLab_i64, p: &SharedPtr<i64>) -> i64;
        fn wcount(self: &SLab_i64, p: &WeakPtr<i64>) -> i64;
        type SLab_isize;
        fn new_slab_isize() -> UniquePtr<SLab_isize>;
        fn make(self: Pin<&mut SLab_isize>, v: u64) -> SharedPtr<isize>;
        fn null(self: Pin<&mut SLab_isize>) -> SharedPtr<isize>;
        fn wnull(self: Pin<&mut SLab_isize>) -> WeakPtr<isize>;
        fn put(self: Pin<&mut SLab_isize>, i: usize, p: SharedPtr<isize>);
        fn take(self: Pin<&mut SLab_isize>, i: usize, copy: bool) -> SharedPtr<isize>;
        fn wput(self: Pin<&mut SLab_isize>, i: usize, p: WeakPtr<isize>);
        fn wtake(self: Pin<&mut SLab_isize>, i: usize, copy: bool) -> WeakPtr<isize>;
        fn peek(self: &SLab_isize, i: usize) -> &SharedPtr<isize>;
        fn poke(self: Pin<&mut SLab_isize>, i: usize) -> &mut SharedPtr<isize>;
        fn wpeek(self: &SLab_isize, i: usize) -> &WeakPtr<isize>;
        fn wpoke(self: Pin<&mut SLab_isize>, i: usize) -> &mut WeakPtr<isize>;
        fn val(self: &SLab_isize, v: &isize) -> u64;
        fn op(self: Pin<&mut SLab_isize>, op: u32, i: usize, j: usize);
        fn addr(self: &SLab_isize, p: &SharedPtr<isize>) -> usize;
        fn count(self: &SLab_isize, p: &SharedPtr<isize>) -> i64;
        fn wcount(self: &SLab_isize, p: &WeakPtr<isize>) -> i64;
        type SLab_f32;
        fn new_slab_f32() -> UniquePtr<SLab_f32>;
        fn make(self: Pin<&mut SLab_f32>, v: u64) -> SharedPtr<f32>;
        fn null(self: Pin<&mut SLab_f32>) -> SharedPtr<f32>;
        fn wnull(self: Pin<&mut SLab_f32>) -> WeakPtr<f32>;
        fn put(self: Pin<&mut SLab_f32>, i: usize, p: SharedPtr<f32>);
        fn take(self: Pin<&mut SLab_f32>, i: usize, copy: bool) -> SharedPtr<f32>;
        fn wput(self: Pin<&mut SLab_f32>, i: usize, p: WeakPtr<f32>);
        fn wtake(self: Pin<&mut SLab_f32>, i: usize, copy: bool) -> WeakPtr<f32>;
        fn peek(self: &SLab_f32, i: usize) -> &SharedPtr<f32>;
        fn poke(self: Pin<&mut SLab_f32>, i: usize) -> &mut SharedPtr<f32>;
        fn wpeek(self: &SLab_f32, i: usize) -> &WeakPtr<f32>;
        fn wpoke(self: Pin<&mut SLab_f32>, i: usize) -> &mut WeakPtr<f32>;
        fn val(self: &SLab_f32, v: &f32) -> u64;
        fn op(self: Pin<&mut SLab_f32>, op: u32, i: usize, j: usize);
        fn addr(self: &SLab_f32, p: &SharedPtr<f32>) -> usize;
        fn count(self: &SLab_f32, p: &SharedPtr<f32>) -> i64;
        fn wcount(self: &SLab_f32, p: &WeakPtr<f32>) -> i64;
        type SLab_f64;
        fn new_slab_f64() -> UniquePtr<SLab_f64>;
        fn make(self: Pin<&mut SLab_f64>, v: u64) -> SharedPtr<f64>;
        fn null(self: Pin<&mut SLab_f64>) -> SharedPtr<f64>;
        fn wnull(self: Pin<&mut SLab_f64>) -> WeakPtr<f64>;
        fn put(self: Pin<&mut SLab_f64>, i: usize, p: SharedPtr<f64>);
        fn take(self: Pin<&mut SLab_f64>, i: usize, copy: bool) -> SharedPtr<f64>;
        fn wput(self: Pin<&mut SLab_f64>, i: usize, p: WeakPtr<f64>);
        fn wtake(self: Pin<&mut SLab_f64>, i: usize, copy: bool) -> WeakPtr<f64>;
        fn peek(self: &SLab_f64, i: usize) -> &SharedPtr<f64>;
        fn poke(self: Pin<&mut SLab_f64>, i: usize) -> &mut SharedPtr<f64>;
        fn wpeek(self: &SLab_f64, i: usize) -> &WeakPtr<f64>;
        fn wpoke(self: Pin<&mut SLab_f64>, i: usize) -> &mut WeakPtr<f64>;
        fn val(self: &SLab_f64, v: &f64) -> u64;
        fn op(self: Pin<&mut SLab_f64>, op: u32, i: usize, j: usize);
        fn addr(self: &SLab_f64, p: &SharedPtr<f64>) -> usize;
        fn count(self: &SLab_f64, p: &SharedPtr<f64>) -> i64;
        fn wcount(self: &SLab_f64, p: &WeakPtr<f64>) -> i64;
    }
    extern "Rust" {
        fn rust_uround_obj(p: UniquePtr<Obj>) -> UniquePtr<Obj>;
        fn rust_uround_ps(p: UniquePtr<PS>) -> UniquePtr<PS>;
        fn rust_uround_str(p: UniquePtr<CxxString>) -> UniquePtr<CxxString>;
        fn rust_uround_vu(p: UniquePtr<CxxVector<u64>>) -> UniquePtr<CxxVector<u64>>;
        fn rust_uround_vp(p: UniquePtr<CxxVector<PS>>) -> UniquePtr<CxxVector<PS>>;
        fn rust_uround_vs(p: UniquePtr<CxxVector<CxxString>>) -> UniquePtr<CxxVector<CxxString>>;
        fn rust_sround_obj(p: SharedPtr<Obj>) -> SharedPtr<Obj>;
        fn rust_down_obj(p: &SharedPtr<Obj>) -> WeakPtr<Obj>;
        fn rust_up_obj(p: WeakPtr<Obj>) -> SharedPtr<Obj>;
        fn rust_sround_ps(p: SharedPtr<PS>) -> SharedPtr<PS>;
        fn rust_down_ps(p: &SharedPtr<PS>) -> WeakPtr<PS>;
        fn rust_up_ps(p: WeakPtr<PS>) -> SharedPtr<PS>;
        fn rust_sround_str(p: SharedPtr<CxxString>) -> SharedPtr<CxxString>;
        fn rust_down_str(p: &SharedPtr<CxxString>) -> WeakPtr<CxxString>;
        fn rust_up_str(p: WeakPtr<CxxString>) -> SharedPtr<CxxString>;
        fn rust_sround_bool(p: SharedPtr<bool>) -> SharedPtr<bool>;
        fn rust_down_bool(p: &SharedPtr<bool>) -> WeakPtr<bool>;
        fn rust_up_bool(p: WeakPtr<bool>) -> SharedPtr<bool>;
        fn rust_sround_u8(p: SharedPtr<u8>) -> SharedPtr<u8>;
        fn rust_down_u8(p: &SharedPtr<u8>) -> WeakPtr<u8>;
        fn rust_up_u8(p: WeakPtr<u8>) -> SharedPtr<u8>;
        fn rust_sround_u16(p: SharedPtr<u16>) -> SharedPtr<u16>;
        fn rust_down_u16(p: &SharedPtr<u16>) -> WeakPtr<u16>;
        fn rust_up_u16(p: WeakPtr<u16>) -> SharedPtr<u16>;
        fn rust_sround_u32(p: SharedPtr<u32>) -> SharedPtr<u32>;
        fn rust_down_u32(p: &SharedPtr<u32>) -> WeakPtr<u32>;
        fn rust_up_u32(p: WeakPtr<u32>) -> SharedPtr<u32>;
        fn rust_sround_u64(p: SharedPtr<u64>) -> SharedPtr<u64>;
        fn rust_down_u64(p: &SharedPtr<u64>) -> WeakPtr<u64>;
        fn rust_up_u64(p: WeakPtr<u64>) -> SharedPtr<u64>;
        fn rust_sround_usize(p: SharedPtr<usize>) -> SharedPtr<usize>;
        fn rust_down_usize(p: &SharedPtr<usize>) -> WeakPtr<usize>;
        fn rust_up_usize(p: WeakPtr<usize>) -> SharedPtr<usize>;
        fn rust_sround_i8(p: SharedPtr<i8>) -> SharedPtr<i8>;
        fn rust_down_i8(p: &SharedPtr<i8>) -> WeakPtr<i8>;
        fn rust_up_i8(p: WeakPtr<i8>) -> SharedPtr<i8>;
        fn rust_sround_i16(p: SharedPtr<i16>) -> SharedPtr<i16>;
        fn rust_down_i16(p: &SharedPtr<i16>) -> WeakPtr<i16>;
        fn rust_up_i16(p: WeakPtr<i16>) -> SharedPtr<i16>;
        fn rust_sround_i32(p: SharedPtr<i32>) -> SharedPtr<i32>;
        fn rust_down_i32(p: &SharedPtr<i32>) -> WeakPtr<i32>;
        fn rust_up_i32(p: WeakPtr<i32>) -> SharedPtr<i32>;
        fn rust_sround_i64(p: SharedPtr<i64>) -> SharedPtr<i64>;
        fn rust_down_i64(p: &SharedPtr<i64>) -> WeakPtr<i64>;
        fn rust_up_i64(p: WeakPtr<i64>) -> SharedPtr<i64>;
        fn rust_sround_isize(p: SharedPtr<isize>) -> SharedPtr<isize>;
        fn rust_down_isize(p: &SharedPtr<isize>) -> WeakPtr<isize>;
        fn rust_up_isize(p: WeakPtr<isize>) -> SharedPtr<isize>;
        fn rust_sround_f32(p: SharedPtr<f32>) -> SharedPtr<f32>;
        fn rust_down_f32(p: &SharedPtr<f32>) -> WeakPtr<f32>;
        fn rust_up_f32(p: WeakPtr<f32>) -> SharedPtr<f32>;
        fn rust_sround_f64(p: SharedPtr<f64>) -> SharedPtr<f64>;
        fn rust_down_f64(p: &SharedPtr<f64>) -> WeakPtr<f64>;
        fn rust_up_f64(p: WeakPtr<f64>) -> SharedPtr<f64>;
    }
}

use ffi::*;
use cxx::{CxxString, CxxVector, UniquePtr, SharedPtr, WeakPtr};
use std::pin::Pin;
pub fn rust_uround_obj(p: UniquePtr<Obj>) -> UniquePtr<Obj> { p }
crate::ptrs::impl_ulab!(ULab_obj, Obj, new_ulab_obj, |v| v, |v| None);
pub fn rust_uround_ps(p: UniquePtr<PS>) -> UniquePtr<PS> { p }
crate::ptrs::impl_ulab!(ULab_ps, PS, new_ulab_ps, |v| unsafe { Pin::into_inner_unchecked(v) }, |v| Some(UniquePtr::new(crate::ptrs::ps(v))));
pub fn rust_uround_str(p: UniquePtr<CxxString>) -> UniquePtr<CxxString> { p }
crate::ptrs::impl_ulab!(ULab_str, CxxString, new_ulab_str, |v| v, |v| None);
pub fn rust_uround_vu(p: UniquePtr<CxxVector<u64>>) -> UniquePtr<CxxVector<u64>> { p }
crate::ptrs::impl_ulab!(ULab_vu, CxxVector<u64>, new_ulab_vu, |v| v, |v| None);
pub fn rust_uround_vp(p: UniquePtr<CxxVector<PS>>) -> UniquePtr<CxxVector<PS>> { p }
crate::ptrs::impl_ulab!(ULab_vp, CxxVector<PS>, new_ulab_vp, |v| v, |v| None);
pub fn rust_uround_vs(p: UniquePtr<CxxVector<CxxString>>) -> UniquePtr<CxxVector<CxxString>> { p }
crate::ptrs::impl_ulab!(ULab_vs, CxxVector<CxxString>, new_ulab_vs, |v| v, |v| None);
pub fn rust_sround_obj(p: SharedPtr<Obj>) -> SharedPtr<Obj> { p }
pub fn rust_down_obj(p: &SharedPtr<Obj>) -> WeakPtr<Obj> { p.downgrade() }
pub fn rust_up_obj(p: WeakPtr<Obj>) -> SharedPtr<Obj> { p.upgrade() }
crate::ptrs::impl_slab!(SLab_obj, Obj, new_slab_obj, |v| None);
pub fn rust_sround_ps(p: SharedPtr<PS>) -> SharedPtr<PS> { p }
pub fn rust_down_ps(p: &SharedPtr<PS>) -> WeakPtr<PS> { p.downgrade() }
pub fn rust_up_ps(p: WeakPtr<PS>) -> SharedPtr<PS> { p.upgrade() }
crate::ptrs::impl_slab!(SLab_ps, PS, new_slab_ps, |v| Some(SharedPtr::new(crate::ptrs::ps(v))));
pub fn rust_sround_str(p: SharedPtr<CxxString>) -> SharedPtr<CxxString> { p }
pub fn rust_down_str(p: &SharedPtr<CxxString>) -> WeakPtr<CxxString> { p.downgrade() }
pub fn rust_up_str(p: WeakPtr<CxxString>) -> SharedPtr<CxxString> { p.upgrade() }
crate::ptrs::impl_slab!(SLab_str, CxxString, new_slab_str, |v| None);
pub fn rust_sround_bool(p: SharedPtr<bool>) -> SharedPtr<bool> { p }
pub fn rust_down_bool(p: &SharedPtr<bool>) -> WeakPtr<bool> { p.downgrade() }
pub fn rust_up_bool(p: WeakPtr<bool>) -> SharedPtr<bool> { p.upgrade() }
crate::ptrs::impl_slab!(SLab_bool, bool, new_slab_bool, |v| Some(SharedPtr::new(v != 0)));
pub fn rust_sround_u8(p: SharedPtr<u8>) -> SharedPtr<u8> { p }
pub fn rust_down_u8(p: &SharedPtr<u8>) -> WeakPtr<u8> { p.downgrade() }
pub fn rust_up_u8(p: WeakPtr<u8>) -> SharedPtr<u8> { p.upgrade() }
crate::ptrs::impl_slab!(SLab_u8, u8, new_slab_u8, |v| Some(SharedPtr::new(v as u8)));
pub fn rust_sround_u16(p: SharedPtr<u16>) -> SharedPtr<u16> { p }
pub fn rust_down_u16(p: &SharedPtr<u16>) -> WeakPtr<u16> { p.downgrade() }
pub fn rust_up_u16(p: WeakPtr<u16>) -> SharedPtr<u16> { p.upgrade() }
crate::ptrs::impl_slab!(SLab_u16, u16, new_slab_u16, |v| Some(SharedPtr::new(v as u16)));
pub fn rust_sround_u32(p: SharedPtr<u32>) -> SharedPtr<u32> { p }
pub fn rust_down_u32(p: &SharedPtr<u32>) -> WeakPtr<u32> { p.downgrade() }
pub fn rust_up_u32(p: WeakPtr<u32>) -> SharedPtr<u32> { p.upgrade() }
crate::ptrs::impl_slab!(SLab_u32, u32, new_slab_u32, |v| Some(SharedPtr::new(v as u32)));
pub fn rust_sround_u64(p: SharedPtr<u64>) -> SharedPtr<u64> { p }
pub fn rust_down_u64(p: &SharedPtr<u64>) -> WeakPtr<u64> { p.downgrade() }
pub fn rust_up_u64(p: WeakPtr<u64>) -> SharedPtr<u64> { p.upgrade() }
crate::ptrs::impl_slab!(SLab_u64, u64, new_slab_u64, |v| Some(SharedPtr::new(v as u64)));
pub fn rust_sround_usize(p: SharedPtr<usize>) -> SharedPtr<usize> { p }
pub fn rust_down_usize(p: &SharedPtr<usize>) -> WeakPtr<usize> { p.downgrade() }
pub fn rust_up_usize(p: WeakPtr<usize>) -> SharedPtr<usize> { p.upgrade() }
crate::ptrs::impl_slab!(SLab_usize, usize, new_slab_usize, |v| Some(SharedPtr::new(v as usize)));
pub fn rust_sround_i8(p: SharedPtr<i8>) -> SharedPtr<i8> { p }
pub fn rust_down_i8(p: &SharedPtr<i8>) -> WeakPtr<i8> { p.downgrade() }
pub fn rust_up_i8(p: WeakPtr<i8>) -> SharedPtr<i8> { p.upgrade() }
crate::ptrs::impl_slab!(SLab_i8, i8, new_slab_i8, |v| Some(SharedPtr::new(v as i8)));
pub fn rust_sround_i16(p: SharedPtr<i16>) -> SharedPtr<i16> { p }
pub fn rust_down_i16(p: &SharedPtr<i16>) -> WeakPtr<i16> { p.downgrade() }
pub fn rust_up_i16(p: WeakPtr<i16>) -> SharedPtr<i16> { p.upgrade() }
crate::ptrs::impl_slab!(SLab_i16, i16, new_slab_i16, |v| Some(SharedPtr::new(v as i16)));
pub fn rust_sround_i32(p: SharedPtr<i32>) -> SharedPtr<i32> { p }
pub fn rust_down_i32(p: &SharedPtr<i32>) -> WeakPtr<i32> { p.downgrade() }
pub fn rust_up_i32(p: WeakPtr<i32>) -> SharedPtr<i32> { p.upgrade() }
crate::ptrs::impl_slab!(SLab_i32, i32, new_slab_i32, |v| Some(SharedPtr::new(v as i32)));
pub fn rust_sround_i64(p: SharedPtr<i64>) -> SharedPtr<i64> { p }
pub fn rust_down_i64(p: &SharedPtr<i64>) -> WeakPtr<i64> { p.downgrade() }
pub fn rust_up_i64(p: WeakPtr<i64>) -> SharedPtr<i64> { p.upgrade() }
crate::ptrs::impl_slab!(SLab_i64, i64, new_slab_i64, |v| Some(SharedPtr::new(v as i64)));
pub fn rust_sround_isize(p: SharedPtr<isize>) -> SharedPtr<isize> { p }
pub fn rust_down_isize(p: &SharedPtr<isize>) -> WeakPtr<isize> { p.downgrade() }
pub fn rust_up_isize(p: WeakPtr<isize>) -> SharedPtr<isize> { p.upgrade() }
crate::ptrs::impl_slab!(SLab_isize, isize, new_slab_isize, |v| Some(SharedPtr::new(v as isize)));
pub fn rust_sround_f32(p: SharedPtr<f32>) -> SharedPtr<f32> { p }
pub fn rust_down_f32(p: &SharedPtr<f32>) -> WeakPtr<f32> { p.downgrade() }
pub fn rust_up_f32(p: WeakPtr<f32>) -> SharedPtr<f32> { p.upgrade() }
crate::ptrs::impl_slab!(SLab_f32, f32, new_slab_f32, |v| Some(SharedPtr::new(v as f32)));
pub fn rust_sround_f64(p: SharedPtr<f64>) -> SharedPtr<f64> { p }
pub fn rust_down_f64(p: &SharedPtr<f64>) -> WeakPtr<f64> { p.downgrade() }
pub fn rust_up_f64(p: WeakPtr<f64>) -> SharedPtr<f64> { p.upgrade() }
crate::ptrs::impl_slab!(SLab_f64, f64, new_slab_f64, |v| Some(SharedPtr::new(v as f64)));
