use crate::calls::*;
#[cxx::bridge(namespace = "lab")]
pub mod ffi {
    /// One frame of a generated call program.
    struct Node { cpp: bool, kind: u8, pre_fail: bool, post_fail: bool, kids: Vec<u32>, on_err: u8, exc: u8, msg: Vec<u8> }
    #[derive(Clone, Copy, PartialEq, Debug)]
    struct Pair { a: u8, b: f64, c: Hue }
    #[derive(Debug)]
    #[repr(i16)]
    enum Hue { Red = -3, Green, Blue = 700 }
    struct Pack { text: String, t: Tr, n: u16 }
    #[derive(PartialEq, PartialOrd, Hash)]
    struct Cmp { b: Box<Bomb>, n: u8 }
    struct Holder { n: u32, b: Box<Bomb> }

    unsafe extern "C++" {
        include!("rt/cpp/calls.h");
        type Tr = crate::track::Tr;
        type Obj;
        fn live_objs() -> u64;
        fn new_obj(id: u64) -> UniquePtr<Obj>;
        fn share_obj(u: UniquePtr<Obj>) -> SharedPtr<Obj>;
        fn id(self: &Obj) -> u64;

        // C10: frames.
        fn cpp_frame0(n: u32, b: Box<R>, s: String, t: Tr, u: UniquePtr<Obj>) -> Result<()>;
        fn cpp_frame1(n: u32, b: Box<R>, s: String, t: Tr, u: UniquePtr<Obj>) -> Result<String>;
        fn cpp_frame2(n: u32, b: Box<R>, s: String, t: Tr, u: UniquePtr<Obj>) -> Result<Box<Txt>>;
        fn cpp_frame3(n: u32, b: Box<R>, s: String, t: Tr, u: UniquePtr<Obj>) -> Result<UniquePtr<CxxString>>;
        fn cpp_frame4(n: u32, b: Box<R>, s: String, t: Tr, u: UniquePtr<Obj>) -> Result<u64>;
        fn cpp_frame5(n: u32, b: Box<R>, s: String, t: Tr, u: UniquePtr<Obj>) -> Result<Pack>;
        fn cpp_frame6(n: u32, b: Box<R>, s: String, t: Tr, u: UniquePtr<Obj>) -> Result<Vec<String>>;
        fn cpp_frame7(n: u32, b: Box<R>, s: String, t: Tr, u: UniquePtr<Obj>) -> Result<&'static str>;
        fn cpp_frame8(n: u32, b: Box<R>, s: String, t: Tr, u: UniquePtr<Obj>) -> Result<SharedPtr<Obj>>;

        // C10: rust::Error values and messages.
        type ErrLab;
        fn new_errlab() -> UniquePtr<ErrLab>;
        fn op(self: Pin<&mut ErrLab>, op: u32, i: usize, j: usize, msg: &str) -> i32;
        fn what(self: &ErrLab, i: usize) -> UniquePtr<CxxString>;
        fn cpp_throw(kind: u32, msg: &[u8]) -> Result<()>;
        fn cpp_see(msg: &str, kind: u32) -> UniquePtr<CxxString>;

        // C11.
        unsafe fn set_flag(p: *mut u64);
        fn panic_call(shape: u32, mode: u32, depth: u32);
        fn call_fn0(f: fn(mode: u32), mode: u32);
        fn call_fn1(f: fn(mode: u32) -> String, mode: u32);
        fn call_fn2(f: fn(mode: u32) -> Pack, mode: u32);
        fn call_fn3(f: fn(mode: u32, b: Box<Bomb>), mode: u32);
        fn enter_then_leave(shape: u32, mode: u32, depth: u32);

        // C26.
        type FnLab;
        fn new_fnlab() -> UniquePtr<FnLab>;
        fn len(self: &FnLab, sig: u32) -> usize;
        fn op(self: Pin<&mut FnLab>, sig: u32, op: u32, i: usize, j: usize);
        fn put_u(self: Pin<&mut FnLab>, f: fn(u64) -> u64);
        fn put_two(self: Pin<&mut FnLab>, f: fn(u64) -> u64, g: fn(u64) -> u64);
        fn put_s(self: Pin<&mut FnLab>, f: fn(s: &str) -> String);
        fn put_b(self: Pin<&mut FnLab>, f: fn(Box<R>) -> Box<R>);
        fn put_p(self: Pin<&mut FnLab>, f: fn(p: Pack) -> Pack);
        fn put_o(self: Pin<&mut FnLab>, f: fn(u: UniquePtr<Obj>) -> UniquePtr<Obj>);
        fn put_m(self: Pin<&mut FnLab>, f: fn(a: &mut u64, b: i8, c: f64, d: bool));
        fn put_v(self: Pin<&mut FnLab>, f: fn(v: Vec<String>, s: &[u8]) -> Vec<String>);
        fn put_t(self: Pin<&mut FnLab>, f: fn(t: Tr) -> Tr);
        fn put_w(self: Pin<&mut FnLab>, f: fn(s: String));
        fn put_z(self: Pin<&mut FnLab>, f: fn() -> u8);
        fn put_l(self: Pin<&mut FnLab>, f: fn(lab: &FnLab, i: u64) -> u64);
        fn put_r(self: Pin<&mut FnLab>, f: fn(o: &Obj) -> &Obj);
        fn put_h(self: Pin<&mut FnLab>, f: fn(SharedPtr<Obj>) -> SharedPtr<Obj>);
        fn put_i(self: Pin<&mut FnLab>, f: fn(o: Pin<&mut Obj>, s: &mut String, v: &mut Vec<u8>, l: &mut [u16]) -> isize);
        fn put_n(self: Pin<&mut FnLab>, f: fn(a: bool, b: i8, c: u16, d: f32, e: i64, f: usize, g: &str, h: u8, k: f64, l: i32, m: &[u32]) -> f32);
        fn put_x(self: Pin<&mut FnLab>, f: fn(s: &CxxString, v: UniquePtr<CxxVector<u64>>) -> UniquePtr<CxxString>);
        fn put_e(self: Pin<&mut FnLab>, f: fn(h: Hue, n: &u64, p: Pair) -> Hue);
        fn put_k(self: Pin<&mut FnLab>, f: fn(v: Vec<Pack>, p: Pack, n: u8) -> Vec<Pack>);
        fn put_y(self: Pin<&mut FnLab>, f: fn(p: &Pack, n: u8) -> &str);
        fn put_q(self: Pin<&mut FnLab>, f: fn(p: &mut Pack) -> &mut String);
        fn put_g(self: Pin<&mut FnLab>, f: fn(p: Pair, s: String, q: Pair) -> Pair);
        fn put_res(self: Pin<&mut FnLab>, f: fn(u64) -> u64, fail: bool) -> Result<()>;
        fn call_h(self: &FnLab, j: usize, a: SharedPtr<Obj>) -> SharedPtr<Obj>;
        fn call_i(self: &FnLab, j: usize, a: Pin<&mut Obj>, b: &mut String, c: &mut Vec<u8>, d: &mut [u16]) -> isize;
        fn call_n(self: &FnLab, j: usize, a: bool, b: i8, c: u16, d: f32, e: i64, f: usize, g: &str, h: u8, k: f64, l: i32, m: &[u32]) -> f32;
        fn call_x(self: &FnLab, j: usize, a: &CxxString, b: UniquePtr<CxxVector<u64>>) -> UniquePtr<CxxString>;
        fn call_e(self: &FnLab, j: usize, a: Hue, b: &u64, c: Pair) -> Hue;
        fn call_k(self: &FnLab, j: usize, a: Vec<Pack>, b: Pack, c: u8) -> Vec<Pack>;
        unsafe fn call_y<'a>(self: &FnLab, j: usize, a: &'a Pack, b: u8) -> &'a str;
        unsafe fn call_q<'a>(self: &FnLab, j: usize, a: &'a mut Pack) -> &'a mut String;
        fn call_g(self: &FnLab, j: usize, a: Pair, b: String, c: Pair) -> Pair;
        fn new_text(s: &[u8]) -> UniquePtr<CxxString>;
        fn new_u64s() -> UniquePtr<CxxVector<u64>>;
        fn call_u(self: &FnLab, i: usize, x: u64) -> u64;
        fn call_s(self: &FnLab, i: usize, s: &str) -> String;
        fn call_b(self: &FnLab, i: usize, b: Box<R>) -> Box<R>;
        fn call_p(self: &FnLab, i: usize, p: Pack) -> Pack;
        fn call_o(self: &FnLab, i: usize, u: UniquePtr<Obj>) -> UniquePtr<Obj>;
        fn call_m(self: &FnLab, i: usize, a: &mut u64, b: i8, c: f64, d: bool);
        fn call_v(self: &FnLab, i: usize, v: Vec<String>, s: &[u8]) -> Vec<String>;
        fn call_t(self: &FnLab, i: usize, t: Tr) -> Tr;
        fn call_w(self: &FnLab, i: usize, s: String);
        fn call_z(self: &FnLab, i: usize) -> u8;
        fn call_l(self: &FnLab, i: usize, x: u64) -> u64;
        fn call_r(self: &FnLab, i: usize, o: &Obj) -> bool;
        // Not stored: called while the callee runs, twice, in a given order.
        fn apply(f: fn(u64) -> u64, g: fn(u64) -> u64, x: u64, order: u32) -> u64;
    }
    extern "Rust" {
        type R;
        type Txt;
        fn node(n: u32) -> Node;
        fn ev(e: u64);
        fn r_id(self: &R) -> u64;
        fn mk_r(id: u64) -> Box<R>;
        fn mk_txt(text: &str) -> Box<Txt>;
        fn text(self: &Txt) -> &str;
        fn intern(text: &str) -> &'static str;

        fn rust_frame0(n: u32, b: Box<R>, s: String, t: Tr, u: UniquePtr<Obj>) -> Result<()>;
        fn rust_frame1(n: u32, b: Box<R>, s: String, t: Tr, u: UniquePtr<Obj>) -> Result<String>;
        fn rust_frame2(n: u32, b: Box<R>, s: String, t: Tr, u: UniquePtr<Obj>) -> Result<Box<Txt>>;
        fn rust_frame3(n: u32, b: Box<R>, s: String, t: Tr, u: UniquePtr<Obj>) -> Result<UniquePtr<CxxString>>;
        fn rust_frame4(n: u32, b: Box<R>, s: String, t: Tr, u: UniquePtr<Obj>) -> Result<u64>;
        fn rust_frame5(n: u32, b: Box<R>, s: String, t: Tr, u: UniquePtr<Obj>) -> Result<Pack>;
        fn rust_frame6(n: u32, b: Box<R>, s: String, t: Tr, u: UniquePtr<Obj>) -> Result<Vec<String>>;
        fn rust_frame7(n: u32, b: Box<R>, s: String, t: Tr, u: UniquePtr<Obj>) -> Result<&'static str>;
        fn rust_frame8(n: u32, b: Box<R>, s: String, t: Tr, u: UniquePtr<Obj>) -> Result<SharedPtr<Obj>>;
        fn rust_fail(msg: &str, kind: u32) -> Result<u64>;

        // C11.
        type Bomb;
        fn mk_bomb(mode: u32) -> Box<Bomb>;
        fn method(self: &Bomb) -> u64;
        fn method_mut(self: &mut Bomb, s: &[u8]) -> String;
        fn assoc(mode: u32) -> Box<Bomb>;
        fn boom(mode: u32);
        fn boom_u64(mode: u32) -> u64;
        fn boom_string(mode: u32) -> String;
        fn boom_box(mode: u32) -> Box<Txt>;
        fn boom_uptr(mode: u32) -> UniquePtr<CxxString>;
        fn boom_vec(mode: u32) -> Vec<String>;
        fn boom_pack(mode: u32) -> Pack;
        fn boom_str(mode: u32) -> &'static str;
        fn boom_res(mode: u32) -> Result<u64>;
        fn boom_res_unit(mode: u32) -> Result<()>;
        fn boom_res_pack(mode: u32) -> Result<Pack>;
        fn boom_display(mode: u32) -> Result<()>;
        fn boom_args(mode: u32, a: Box<Txt>, b: UniquePtr<Obj>, c: Tr, d: String);
        fn eat(b: Box<Bomb>);
        fn eat_vec(v: Vec<Bomb>);
        fn mk_bombs(mode: u32, n: usize) -> Vec<Bomb>;
        fn mk_holders(mode: u32, n: usize) -> Vec<Holder>;
        /// Hands one of the functions above to C++ as a rust::Fn, which C++ calls.
        fn fn_shape(mode: u32, which: u32);
        fn reenter(shape: u32, mode: u32, depth: u32);
        fn reenter_res(shape: u32, mode: u32, depth: u32) -> Result<()>;
    }
    impl Vec<Bomb> {}
    impl Vec<Holder> {}
    impl SharedPtr<Obj> {}
    impl UniquePtr<Holder> {}
    impl SharedPtr<Holder> {}
}
