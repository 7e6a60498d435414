//! C10 (errors), C11 (panics), C26 (function objects).
use crate::calls_ffi::ffi::{self, FnLab, Holder, Hue, Node, Obj, Pack, Pair};
use crate::calls_tc_ffi::tc;
use crate::leak::balanced;
use crate::track::{born, died, live, reset, Tr};
use cxx::{let_cxx_string, CxxString, CxxVector, SharedPtr, UniquePtr};
use pbt::{gen_bytes, gen_text, sys, Outcome, Prop, Src};
use std::cell::RefCell;
use std::collections::HashSet;
use std::fmt;
use std::pin::Pin;

// ---------------------------------------------------------------- C10 frames
pub struct R(u64);
impl R {
    pub fn r_id(&self) -> u64 { self.0 }
}
impl Drop for R { fn drop(&mut self) { died(self.0) } }
pub fn mk_r(id: u64) -> Box<R> { born(id); Box::new(R(id)) }
pub struct Txt(String);
const TXT: u64 = 1 << 40;
impl Txt { pub fn text(&self) -> &str { &self.0 } }
impl Drop for Txt { fn drop(&mut self) { died(TXT) } }
pub fn mk_txt(text: &str) -> Box<Txt> { born(TXT); Box::new(Txt(text.to_owned())) }
pub fn intern(text: &str) -> &'static str {
    thread_local!(static POOL: RefCell<HashSet<&'static str>> = RefCell::new(HashSet::new()));
    POOL.with(|p| {
        let mut p = p.borrow_mut();
        if let Some(s) = p.get(text) { return *s; }
        let s: &'static str = Box::leak(text.to_owned().into_boxed_str());
        p.insert(s);
        s
    })
}

#[derive(Clone, Default, Debug)]
struct N { cpp: bool, kind: u8, pre: bool, post: bool, kids: Vec<u32>, on_err: u8, exc: u8, msg: String, raw: Vec<u8> }
thread_local! {
    static PROG: RefCell<Vec<N>> = const { RefCell::new(Vec::new()) };
    static TRACE: RefCell<Vec<u64>> = const { RefCell::new(Vec::new()) };
}
pub fn node(n: u32) -> Node {
    PROG.with(|p| {
        let p = &p.borrow()[n as usize];
        Node { cpp: p.cpp, kind: p.kind, pre_fail: p.pre, post_fail: p.post, kids: p.kids.clone(), on_err: p.on_err, exc: p.exc, msg: if p.exc == 5 { p.msg.as_bytes().to_vec() } else { p.raw.clone() } }
    })
}
pub fn ev(e: u64) { TRACE.with(|t| t.borrow_mut().push(e)) }
struct Local(u64);
impl Drop for Local { fn drop(&mut self) { ev(self.0 << 4 | 2) } }

pub enum E { Own(String), Cxx(cxx::Exception) }
impl fmt::Display for E {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            // In pieces, as format strings do.
            E::Own(s) => { for c in s.chars() { write!(f, "{c}")?; } Ok(()) }
            E::Cxx(e) => fmt::Display::fmt(e, f),
        }
    }
}
impl From<cxx::Exception> for E { fn from(e: cxx::Exception) -> E { E::Cxx(e) } }

fn fnv(s: &[u8]) -> u64 {
    s.iter().fold(0xcbf2_9ce4_8422_2325, |h, c| (h ^ u64::from(*c)).wrapping_mul(0x100_0000_01b3))
}

fn call_kid(k: u32) -> Result<String, E> {
    let n = PROG.with(|p| p.borrow()[k as usize].clone());
    let (b, s, t, u) = (mk_r(u64::from(k)), k.to_string(), Tr::new(u64::from(k)), ffi::new_obj(u64::from(k)));
    macro_rules! frame {
        ($c:ident, $r:ident) => { if n.cpp { ffi::$c(k, b, s, t, u).map_err(E::from)? } else { $r(k, b, s, t, u)? } };
    }
    Ok(match n.kind {
        0 => { frame!(cpp_frame0, rust_frame0); "u".to_owned() }
        1 => frame!(cpp_frame1, rust_frame1),
        2 => frame!(cpp_frame2, rust_frame2).0.clone(),
        3 => { let x = frame!(cpp_frame3, rust_frame3); x.to_str().unwrap().to_owned() }
        4 => frame!(cpp_frame4, rust_frame4).to_string(),
        5 => { let p = frame!(cpp_frame5, rust_frame5); format!("{}{}/{}", p.text, p.t.get(), p.n) }
        6 => frame!(cpp_frame6, rust_frame6).iter().map(|e| format!("{e};")).collect(),
        7 => frame!(cpp_frame7, rust_frame7).to_owned(),
        _ => frame!(cpp_frame8, rust_frame8).id().to_string(),
    })
}
fn exec(i: u32, b: Box<R>, s: String, t: Tr, u: UniquePtr<Obj>) -> Result<String, E> {
    let id = u64::from(i);
    ev(id << 4 | 1);
    let n = PROG.with(|p| p.borrow()[i as usize].clone());
    let _l = Local(id);
    if b.0 != id || s != i.to_string() || t.get() != id || u.id() != id { ev(id << 4 | 9); }
    if n.pre { return Err(E::Own(n.msg)); }
    let mut out = format!("{i}[");
    for k in &n.kids {
        match n.on_err {
            0 | 3..=5 => out += &call_kid(*k)?,
            1 => out += &call_kid(*k).unwrap_or_else(|_| "!".to_owned()),
            2 => out += &call_kid(*k).map_err(|e| E::Own(format!("w{i}({e})")))?,
            _ => out += &call_kid(*k).unwrap_or_else(|e| format!("{{{e}}}")),
        }
        out += ",";
    }
    if n.post { return Err(E::Own(n.msg)); }
    Ok(out + "]")
}
macro_rules! frames {
    ($($name:ident $ret:ty, |$n:ident, $s:ident| $e:expr;)*) => { $(
        pub fn $name($n: u32, b: Box<R>, s: String, t: Tr, u: UniquePtr<Obj>) -> Result<$ret, E> {
            let $s = exec($n, b, s, t, u)?;
            Ok($e)
        }
    )* };
}
frames! {
    rust_frame0 (), |n, _s| ();
    rust_frame1 String, |n, s| s;
    rust_frame2 Box<Txt>, |n, s| mk_txt(&s);
    rust_frame3 UniquePtr<CxxString>, |n, s| { cxx::let_cxx_string!(x = &s); clone_cxx(&x) };
    rust_frame4 u64, |n, s| fnv(s.as_bytes());
    rust_frame5 Pack, |n, s| Pack { text: s, t: Tr::new(u64::from(n)), n: (n + 7) as u16 };
    rust_frame6 Vec<String>, |n, s| vec![s, "x".to_owned()];
    rust_frame7 &'static str, |n, s| intern(&s);
    rust_frame8 SharedPtr<Obj>, |n, s| ffi::share_obj(ffi::new_obj(fnv(s.as_bytes())));
}
fn clone_cxx(s: &CxxString) -> UniquePtr<CxxString> {
    // cpp_see returns a fresh std::string; replace its contents.
    let mut u = ffi::cpp_see("", 9);
    u.pin_mut().clear();
    u.pin_mut().push_bytes(s.as_bytes());
    u
}

fn cut(b: &[u8]) -> Vec<u8> { b.split(|c| *c == 0).next().unwrap().to_vec() }
/// What the program does according to the documented rules. The error text is
/// as seen inside the frame's own language.
fn model(p: &[N], i: u32, trace: &mut Vec<u64>) -> Result<Vec<u8>, Vec<u8>> {
    let id = u64::from(i);
    trace.push(id << 4 | 1);
    let r = model_body(p, i, trace);
    trace.push(id << 4 | 2);
    r
}
fn model_fail(n: &N) -> Vec<u8> {
    if n.cpp {
        match n.exc { 4 => b"std::bad_alloc".to_vec(), 5 => cut(n.msg.as_bytes()), _ => cut(&n.raw) }
    } else {
        n.msg.clone().into_bytes()
    }
}
fn model_body(p: &[N], i: u32, trace: &mut Vec<u64>) -> Result<Vec<u8>, Vec<u8>> {
    let n = &p[i as usize];
    if n.pre { return Err(model_fail(n)); }
    let mut out = format!("{i}[").into_bytes();
    for k in &n.kids {
        let kid = &p[*k as usize];
        let r = model(p, *k, trace).map_err(|e| match (kid.cpp, n.cpp) {
            (true, false) => String::from_utf8_lossy(&e).into_owned().into_bytes(),
            (false, true) => cut(&e),
            _ => e,
        });
        match (r, n.on_err) {
            (Ok(d), _) => {
                let d = match kid.kind {
                    0 => b"u".to_vec(),
                    4 | 8 => fnv(&d).to_string().into_bytes(),
                    5 => [&d[..], format!("{k}/{}", k + 7).as_bytes()].concat(),
                    6 => [&d[..], b";x;"].concat(),
                    _ => d,
                };
                out.extend(d);
            }
            (Err(_), 1) => out.push(b'!'),
            (Err(e), 2) => return Err([format!("w{i}(").as_bytes(), &e, b")"].concat()),
            (Err(e), 6) => { out.push(b'{'); out.extend(e); out.push(b'}'); }
            (Err(e), m) => {
                if m == 5 && n.cpp { trace.push(u64::from(i) << 4 | 2); }
                return Err(e);
            }
        }
        out.push(b',');
    }
    if n.post { return Err(model_fail(n)); }
    out.push(b']');
    Ok(out)
}
fn gen_prog(s: &mut Src, prog: &mut Vec<N>, depth: usize) -> u32 {
    let me = prog.len();
    prog.push(N::default());
    let mut n = N { cpp: s.coin(), kind: s.below(9) as u8, ..N::default() };
    let kids = if depth == 0 || prog.len() > 24 { 0 } else { s.weighted(&[1, 5, 3, 1]) };
    for _ in 0..kids { let k = gen_prog(s, prog, depth - 1); n.kids.push(k); }
    n.pre = s.chance(1, if kids == 0 { 2 } else { 12 });
    n.post = s.chance(1, 8);
    n.on_err = s.below(7) as u8;
    n.exc = s.below(7) as u8;
    n.msg = gen_text(s, 30);
    n.raw = gen_bytes(s, 20);
    // Recovered text becomes part of values which must be valid UTF-8 in C++.
    if n.cpp && n.on_err == 6 { n.on_err = 1; }
    prog[me] = n;
    me as u32
}
fn chains(s: &mut Src) -> Outcome {
    reset();
    let mut prog = vec![];
    gen_prog(s, &mut prog, 7);
    // Messages of failing C++ frames caught by rust "{e}" are lossy text: fine.
    s.note(|| format!("{prog:#?}"));
    let mut want_trace = vec![];
    let want = model(&prog, 0, &mut want_trace);
    let want = want.map_err(|e| if prog[0].cpp { String::from_utf8_lossy(&e).into_owned().into_bytes() } else { e });
    let root = prog[0].clone();
    let crossings = prog.iter().flat_map(|n| n.kids.iter().map(|k| prog[*k as usize].cpp != n.cpp)).filter(|x| *x).count();
    if crossings >= 1 && (want.is_err() || want_trace.len() > 4) { s.nontrivial(); }
    PROG.with(|p| *p.borrow_mut() = prog);
    TRACE.with(|p| p.borrow_mut().clear());
    let objs = ffi::live_objs();
    let got = call_kid(0);
    let trace = TRACE.with(|t| std::mem::take(&mut *t.borrow_mut()));
    PROG.with(|p| *p.borrow_mut() = vec![]);
    let want = want.map(|d| match root.kind {
        0 => b"u".to_vec(),
        4 | 8 => fnv(&d).to_string().into_bytes(),
        5 => [&d[..], b"0/7"].concat(),
        6 => [&d[..], b";x;"].concat(),
        _ => d,
    });
    let got = match got {
        Ok(s) => Ok(s.into_bytes()),
        Err(e) => Err(e.to_string().into_bytes()),
    };
    let show = |r: &Result<Vec<u8>, Vec<u8>>| match r { Ok(o) => format!("Ok({:?})", String::from_utf8_lossy(o)), Err(e) => format!("Err({:?})", String::from_utf8_lossy(e)) };
    if got != want { return Err(format!("program gave {}, expected {}", show(&got), show(&want))); }
    if trace != want_trace { return Err(format!("frame trace (frame<<4 | 1 enter, 2 local destroyed, 9 wrong arguments) {trace:?}, expected {want_trace:?}")); }
    if !live().is_empty() { return Err(format!("values not destroyed: {:?}", live())); }
    if ffi::live_objs() != objs { return Err("C++ objects passed by value not destroyed exactly once".into()); }
    Ok(())
}

// ------------------------------------------------------ C10 errors, messages
struct Kinded(u32, String);
impl fmt::Display for Kinded {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self.0 {
            1 => write!(f, "{}{}", &self.1, self.1.len()),
            2 => f.pad(&self.1),
            3 => { use fmt::Write; for c in self.1.chars() { f.write_char(c)?; } Ok(()) }
            _ => f.write_str(&self.1),
        }
    }
}
impl fmt::Debug for Kinded { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("not this one") } }
impl std::error::Error for Kinded {}
pub fn rust_fail(msg: &str, kind: u32) -> Result<u64, Box<dyn std::error::Error>> {
    match kind {
        4 => Ok(msg.len() as u64),
        9 => Ok(0),
        5 => Err(msg.into()),
        6 => Err(Box::new(std::io::Error::new(std::io::ErrorKind::Other, msg.to_owned()))),
        _ => Err(Box::new(Kinded(kind, msg.to_owned()))),
    }
}
fn messages(s: &mut Src) -> Outcome {
    // Rust to C++.
    let msg = if s.chance(1, 8) { gen_text(s, 3000) } else { gen_text(s, 40) };
    let kind = s.below(7) as u32;
    let got = ffi::cpp_see(&msg, kind);
    let text = if kind == 1 { format!("{msg}{}", msg.len()) } else { msg.clone() };
    let want = if kind == 4 { format!("ok {}", msg.len()).into_bytes() } else { [b"rust::Error ", &cut(text.as_bytes())[..]].concat() };
    if got.as_bytes() != want { return Err(format!("C++ saw {:?} for a Rust error of kind {kind} with text {text:?}", got.to_string_lossy())); }
    // C++ to Rust.
    let max = if s.chance(1, 8) { 2000 } else { 30 };
    let raw = gen_bytes(s, max);
    let exc = s.below(7) as u32;
    // rust::Error is made from text.
    let raw = if exc == 5 { String::from_utf8_lossy(&raw).into_owned().into_bytes() } else { raw };
    let want = if exc == 4 { "std::bad_alloc".to_owned() } else { String::from_utf8_lossy(&cut(&raw)).into_owned() };
    if !raw.is_ascii() || !msg.is_ascii() { s.nontrivial(); }
    s.key(&raw); s.key(msg.as_bytes()); s.key(&[kind as u8, exc as u8]);
    let e = match ffi::cpp_throw(exc, &raw) { Ok(()) => return Err("a throwing C++ function returned Ok".into()), Err(e) => e };
    if e.what() != want { return Err(format!("exception {exc} with message {raw:?}: what() is {:?}", e.what())); }
    if e.to_string() != want { return Err(format!("exception {exc} with message {raw:?}: Display is {:?}", e.to_string())); }
    if format!("{e:?}") != format!("Exception {{ what: {want:?} }}") { return Err(format!("Debug is {e:?}")); }
    let b: Box<dyn std::error::Error + Send + Sync> = Box::new(e);
    if b.to_string() != want || b.source().is_some() { return Err("boxed exception differs".into()); }
    drop(b);
    // Custom trycatch; std::string messages keep their length.
    let k = s.below(6) as u32;
    let n = raw.len();
    let got = tc::custom_throw(k, &raw).map_err(|e| e.what().to_owned());
    let lossy = |b: &[u8]| String::from_utf8_lossy(b).into_owned();
    let want = match k {
        0 => Err(lossy(&[b"std:", &cut(&raw)[..]].concat())),
        1 => Err(lossy(&[format!("{n}:").as_bytes(), &raw].concat())),
        2 => Err(lossy(&cut(&raw))),
        3 => Err(n.to_string()),
        4 => Err("unknown".to_owned()),
        _ => Ok(n as u64),
    };
    if got != want { return Err(format!("custom trycatch, exception {k} with {raw:?}: {got:?}, expected {want:?}")); }
    Ok(())
}
fn error_values(s: &mut Src) -> Outcome {
    let mut lab = ffi::new_errlab();
    let mut m: Vec<Vec<u8>> = vec![];
    let mut ptrs: Vec<Vec<u8>> = vec![];
    let mut kinds = 0u32;
    for _ in 0..s.us(24) {
        let op = s.below(16) as u32;
        let n = m.len();
        if n == 0 && !matches!(op, 0 | 1 | 9) { continue; }
        if n > 12 && matches!(op, 0 | 1 | 2 | 11) { continue; }
        let (i, j) = if n > 0 { (s.us(n), s.us(n)) } else { (0, 0) };
        let msg = if op < 2 { gen_text(s, 20) } else { String::new() };
        s.note(|| format!("op {op} i={i} j={j} {msg:?}"));
        kinds |= 1 << op;
        let mut expect = 0;
        match op {
            0 | 1 => m.push(cut(msg.as_bytes())),
            2 | 11 => { let x = m[i].clone(); m.push(x); }
            3 => { let x = m.remove(i); m.push(x); }
            4 => m[i] = m[j].clone(),
            5 => if i != j { m[i] = m[j].clone(); m.remove(j); },
            6 => m.swap(i, j),
            7 => { m.remove(i); }
            8 => { let x = m[i].clone(); ptrs.push(x); }
            9 => if let Some(x) = ptrs.pop() { m.push(x) },
            10 => m[j] = m[i].clone(),
            15 => expect = 5,
            _ => {}
        }
        let rc = lab.pin_mut().op(op, i, j, &msg);
        if rc != expect { return Err(format!("op {op}: result {rc}, expected {expect}")); }
        for (k, w) in m.iter().enumerate() {
            let got = lab.what(k);
            if got.as_bytes() != &w[..] { return Err(format!("after op {op}: error {k} has text {:?}, expected {:?}", got.to_string_lossy(), String::from_utf8_lossy(w))); }
        }
    }
    if kinds.count_ones() >= 5 { s.nontrivial(); }
    Ok(())
}

// ---------------------------------------------------------------- C11 panics
pub struct Bomb { mode: u32 }
fn act(mode: u32) {
    fn go(mode: u32) {
        match mode & 255 {
            3 => std::panic::panic_any(7u8),
            4 => std::panic::resume_unwind(Box::new("resumed")),
            5 => { let v: Vec<u8> = vec![]; std::hint::black_box(v[std::hint::black_box(3)]); }
            _ => panic!("boom {mode}"),
        }
    }
    match mode & 255 {
        0 => {}
        2 => assert!(std::panic::catch_unwind(|| go(1)).is_err()),
        m => { let _heap = vec![m; 3]; go(mode) }
    }
}
impl Bomb {
    fn call(&self) { if self.mode & 256 == 0 { act(self.mode) } }
    pub fn method(&self) -> u64 { self.call(); 3 }
    pub fn method_mut(&mut self, s: &[u8]) -> String { self.call(); format!("{s:?}") }
}
pub fn assoc(mode: u32) -> Box<Bomb> { act(mode); Box::new(Bomb { mode: 0 }) }
impl Drop for Bomb { fn drop(&mut self) { if self.mode & 256 != 0 { act(self.mode) } } }
impl PartialEq for Bomb { fn eq(&self, _: &Bomb) -> bool { self.call(); true } }
impl PartialOrd for Bomb { fn partial_cmp(&self, _: &Bomb) -> Option<std::cmp::Ordering> { self.call(); Some(std::cmp::Ordering::Equal) } }
impl std::hash::Hash for Bomb { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.call(); h.write_u8(1) } }
pub fn mk_bomb(mode: u32) -> Box<Bomb> { Box::new(Bomb { mode }) }
pub fn boom(mode: u32) { act(mode) }
pub fn boom_u64(mode: u32) -> u64 { act(mode); 1 }
pub fn boom_string(mode: u32) -> String { act(mode); "s".to_owned() }
pub fn boom_box(mode: u32) -> Box<Txt> { act(mode); mk_txt("b") }
pub fn boom_uptr(mode: u32) -> UniquePtr<CxxString> { act(mode); UniquePtr::null() }
pub fn boom_vec(mode: u32) -> Vec<String> { act(mode); vec!["v".to_owned()] }
pub fn boom_pack(mode: u32) -> Pack { act(mode); Pack { text: "p".to_owned(), t: Tr::new(1), n: 2 } }
pub fn boom_str(mode: u32) -> &'static str { act(mode); "x" }
pub fn boom_res(mode: u32) -> Result<u64, String> { act(mode); Ok(1) }
pub fn boom_res_unit(mode: u32) -> Result<(), String> { act(mode); Ok(()) }
pub fn boom_res_pack(mode: u32) -> Result<Pack, String> { Ok(boom_pack(mode)) }
/// A failing function whose error's Display panics.
pub struct BadDisplay(u32);
impl fmt::Display for BadDisplay {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if self.0 == 6 { return Err(fmt::Error); }
        act(self.0);
        f.write_str("shown")
    }
}
pub fn boom_display(mode: u32) -> Result<(), BadDisplay> { if mode == 0 || mode == 2 { Ok(()) } else { Err(BadDisplay(mode)) } }
pub fn boom_args(mode: u32, _a: Box<Txt>, _b: UniquePtr<Obj>, _c: Tr, _d: String) { act(mode) }
pub fn eat(b: Box<Bomb>) { drop(b) }
pub fn eat_vec(v: Vec<Bomb>) { drop(v) }
pub fn mk_bombs(mode: u32, n: usize) -> Vec<Bomb> { (0..n).map(|k| Bomb { mode: if k + 1 == n { mode } else { 0 } }).collect() }
pub fn mk_holders(mode: u32, n: usize) -> Vec<Holder> { (0..n).map(|k| Holder { n: k as u32, b: mk_bomb(if k + 1 == n { mode } else { 0 }) }).collect() }
pub fn reenter(shape: u32, mode: u32, depth: u32) { ffi::panic_call(shape, mode, depth) }
pub fn reenter_res(shape: u32, mode: u32, depth: u32) -> Result<(), String> { ffi::enter_then_leave(shape, mode, depth); Ok(()) }
fn cb0(mode: u32) { act(mode) }
fn cb1(mode: u32) -> String { act(mode); "s".to_owned() }
fn cb2(mode: u32) -> Pack { boom_pack(mode) }
fn cb3(mode: u32, _b: Box<Bomb>) { act(mode) }
pub fn fn_shape(mode: u32, which: u32) {
    match which {
        0 => ffi::call_fn0(cb0, mode),
        1 => ffi::call_fn1(cb1, mode),
        2 => ffi::call_fn2(cb2, mode),
        _ => ffi::call_fn3(cb3, mode),
    }
}
const SHAPES: u64 = 40;
fn panics(s: &mut Src) -> Outcome {
    let shape = s.indexed(SHAPES) as u32;
    let mode = [0, 1, 2, 3, 4, 5][s.us(6)];
    let mode = if shape == 11 && mode != 0 && s.coin() { 6 } else { mode };
    let depth = s.below(5) as u32;
    let thread = s.chance(1, 4);
    let unwinding = s.chance(1, 5);
    s.note(|| format!("shape {shape} mode {mode} depth {depth} thread {thread} from a destructor {unwinding}"));
    let expect_abort = !matches!(mode, 0 | 2);
    if expect_abort { s.nontrivial(); }
    s.key(&[shape as u8, mode as u8, depth as u8, thread as u8, unwinding as u8]);
    let flag = sys::SharedU64::new(1);
    let pid = sys::fork();
    if pid == 0 {
        sys::redirect_stderr(std::path::Path::new("/dev/null"));
        sys::alarm(10);
        unsafe { ffi::set_flag(flag.ptr()) };
        let go = move || {
            struct D(u32, u32, u32, bool);
            impl Drop for D { fn drop(&mut self) { if self.3 { ffi::panic_call(self.0, self.1, self.2) } } }
            if unwinding {
                // Called during an unwind that Rust itself will catch.
                if mode == 0 || mode == 2 || mode == 6 || true { drop(D(shape, mode, depth, true)); }
            } else {
                ffi::panic_call(shape, mode, depth)
            }
        };
        if thread {
            // A panic that escaped C++ frames would end only the thread.
            let _ = std::thread::spawn(go).join();
        } else {
            // ... or be caught here.
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(go));
        }
        sys::exit_now(0);
    }
    let st = sys::wait(pid);
    let bits = flag.get(0);
    flag.free();
    if expect_abort {
        match st {
            sys::Status::Signaled(n) if n != 14 => {}
            st => return Err(format!("shape {shape}: the Rust function panicked (mode {mode}, depth {depth}) and the process was not terminated ({}); C++ marks {bits:#x}", status(&st))),
        }
        // Frames completed before the panic leave no marks: nothing C++ runs after it.
        if bits != 0 { return Err(format!("shape {shape}: C++ code ran after a Rust panic (mode {mode}, depth {depth}): marks {bits:#x}")); }
    } else {
        match st {
            sys::Status::Exited(0) => {}
            st => return Err(format!("shape {shape}: the Rust function did not panic across the boundary (mode {mode}, depth {depth}) but the process ended with {}", status(&st))),
        }
        if bits & 0b111 == 0 || bits & (1 << 5) == 0 || bits & 0b1_0001_1000 != 0 { return Err(format!("shape {shape}: unexpected C++ marks {bits:#x}")); }
    }
    Ok(())
}
fn status(s: &sys::Status) -> String {
    match s { sys::Status::Exited(c) => format!("exit code {c}"), sys::Status::Signaled(n) => format!("signal {n}") }
}
// -------------------------------------- C10: exceptions that are not allowed
// -------------------------------------------------------------- C26 rust::Fn
fn u<const K: u64>(x: u64) -> u64 { x.rotate_left(K as u32).wrapping_mul(2 * K + 1).wrapping_add(K) }
fn st<const K: u64>(s: &str) -> String { format!("{K}{s}{}", s.len() as u64 * K) }
fn bx<const K: u64>(b: Box<R>) -> Box<R> { if K == 0 { b } else { mk_r(b.0.wrapping_add(K)) } }
fn pk<const K: u64>(p: Pack) -> Pack { if K == 0 { p } else { Pack { text: p.text + &K.to_string(), t: Tr::new(p.t.get() ^ K), n: p.n.wrapping_add(K as u16) } } }
fn ob<const K: u64>(o: UniquePtr<Obj>) -> UniquePtr<Obj> { if K == 0 { o } else if K == 1 { UniquePtr::null() } else { ffi::new_obj(o.as_ref().map_or(0, Obj::id) ^ K) } }
fn mu<const K: u64>(a: &mut u64, b: i8, c: f64, d: bool) { *a = a.wrapping_mul(31).wrapping_add((b as i64 as u64) ^ c.to_bits() ^ u64::from(d)).wrapping_add(K) }
fn ve<const K: u64>(mut v: Vec<String>, s: &[u8]) -> Vec<String> { if K == 0 { v.clear() } v.push(format!("{K}{s:?}")); v }
fn tr<const K: u64>(t: Tr) -> Tr { if K == 0 { t } else { Tr::new(t.get().wrapping_add(K)) } }
fn wr<const K: u64>(s: String) { SEEN.with(|c| *c.borrow_mut() = format!("{K}:{s}")) }
fn ze<const K: u64>() -> u8 { K as u8 * 3 }
fn la<const K: u64>(lab: &FnLab, x: u64) -> u64 { if lab.len(0) == 0 { K } else { lab.call_u(K as usize % lab.len(0), x ^ K).wrapping_add(K) } }
fn rf<const K: u64>(o: &Obj) -> &Obj { SEEN.with(|c| *c.borrow_mut() = format!("{K}")); o }
fn sh<const K: u64>(o: SharedPtr<Obj>) -> SharedPtr<Obj> { match K { 0 => o, 1 => SharedPtr::null(), 2 => { let p = o.clone(); drop(o); p } _ => ffi::share_obj(ffi::new_obj(o.as_ref().map_or(0, Obj::id) ^ K)) } }
fn inout<const K: u64>(o: Pin<&mut Obj>, s: &mut String, v: &mut Vec<u8>, l: &mut [u16]) -> isize {
    match K { 0 => *s = String::new(), 1 => v.clear(), 2 => l.reverse(), _ => s.push_str(&format!("{K}{}", o.id())) }
    v.extend_from_slice(s.as_bytes());
    for x in &mut *l { *x = x.wrapping_add(K as u16); }
    (v.len() + l.len()) as isize - 9 * K as isize
}
#[allow(clippy::too_many_arguments)]
fn many<const K: u64>(a: bool, b: i8, c: u16, d: f32, e: i64, f: usize, g: &str, h: u8, k: f64, l: i32, m: &[u32]) -> f32 {
    SEEN.with(|x| *x.borrow_mut() = format!("{K} {a} {b} {c} {} {e} {f} {g} {h} {} {l} {m:?}", d.to_bits(), k.to_bits()));
    f32::from_bits((d.to_bits() >> 1).wrapping_add(K as u32))
}
fn cs<const K: u64>(s: &CxxString, v: UniquePtr<CxxVector<u64>>) -> UniquePtr<CxxString> {
    SEEN.with(|x| *x.borrow_mut() = format!("{K} {:?} {:?}", s.as_bytes(), v.as_ref().map(|v| v.as_slice().to_vec())));
    if K == 0 { return UniquePtr::null(); }
    ffi::new_text(&if K == 1 { Vec::new() } else { [s.as_bytes(), &[K as u8]].concat() })
}
fn hue<const K: u64>(h: Hue, n: &u64, p: Pair) -> Hue { Hue { repr: match K { 0 => h.repr, 1 => p.c.repr, _ => h.repr ^ (*n as i16) ^ p.a as i16 ^ p.b.to_bits() as i16 ^ K as i16 } } }
fn pks<const K: u64>(mut v: Vec<Pack>, p: Pack, n: u8) -> Vec<Pack> {
    if K == 0 { v.truncate(n as usize); }
    if K == 1 { v = Vec::new(); }
    if K != 2 { v.push(p); }
    v
}
fn stry<const K: u64>(p: &Pack, n: u8) -> &str { let k = (n as usize ^ K as usize) % (p.text.len() + 1); &p.text[k..] }
fn mref<const K: u64>(p: &mut Pack) -> &mut String { p.n = p.n.wrapping_add(K as u16); p.text.push((b'0' + K as u8) as char); &mut p.text }
fn two<const K: u64>(p: Pair, s: String, q: Pair) -> Pair { Pair { a: s.len() as u8 ^ K as u8, b: if K % 2 == 0 { p.b } else { q.b }, c: if K > 2 { p.c } else { q.c } } }
thread_local!(static SEEN: RefCell<String> = const { RefCell::new(String::new()) });
macro_rules! table { ($f:ident) => { [$f::<0>, $f::<1>, $f::<2>, $f::<3>, $f::<4>] } }

type InOut = fn(Pin<&mut Obj>, &mut String, &mut Vec<u8>, &mut [u16]) -> isize;
type Many = fn(bool, i8, u16, f32, i64, usize, &str, u8, f64, i32, &[u32]) -> f32;
type Cs = fn(&CxxString, UniquePtr<CxxVector<u64>>) -> UniquePtr<CxxString>;
type HueFn = fn(Hue, &u64, Pair) -> Hue;
type StrY = fn(&Pack, u8) -> &str;
type Mref = fn(&mut Pack) -> &mut String;
fn pair(s: &mut Src) -> Pair { Pair { a: s.u64() as u8, b: s.f64(), c: Hue { repr: s.u64() as i16 } } }
fn fns(s: &mut Src) -> Outcome {
    reset();
    let objs = ffi::live_objs();
    let mut lab = ffi::new_fnlab();
    let mut m: Vec<Vec<usize>> = vec![vec![]; 21];
    let (mut kinds, mut calls) = (0u64, 0);
    let some: Vec<usize> = (0..s.urange(1, 5)).map(|_| s.us(21)).collect();
    for _ in 0..s.us(50) {
        let sig = if s.chance(1, 8) { s.us(21) } else { *s.pick(&some[..]) };
        match s.below(5) {
            0 | 1 => {
                let k = s.us(5);
                s.note(|| format!("store function {k} of signature {sig}"));
                let l = lab.pin_mut();
                match sig {
                    0 => if s.chance(1, 4) {
                        let fail = s.coin();
                        let got = l.put_res(table!(u)[k], fail).map_err(|e| e.what().to_owned());
                        let want = if fail { Err(table!(u)[k](1).to_string()) } else { Ok(()) };
                        if got != want { return Err(format!("storing function {k}: {got:?}, expected {want:?}")); }
                        if fail { continue; }
                    } else if s.coin() {
                        l.put_u(table!(u)[k])
                    } else {
                        let k2 = s.us(5);
                        l.put_two(table!(u)[k2], table!(u)[k]);
                        m[0].push(k2);
                    },
                    1 => { let t: [fn(&str) -> String; 5] = table!(st); l.put_s(t[k]) }
                    2 => l.put_b(table!(bx)[k]),
                    3 => l.put_p(table!(pk)[k]),
                    4 => l.put_o(table!(ob)[k]),
                    5 => { let t: [fn(&mut u64, i8, f64, bool); 5] = table!(mu); l.put_m(t[k]) }
                    6 => { let t: [fn(Vec<String>, &[u8]) -> Vec<String>; 5] = table!(ve); l.put_v(t[k]) }
                    7 => l.put_t(table!(tr)[k]),
                    8 => l.put_w(table!(wr)[k]),
                    9 => l.put_z(table!(ze)[k]),
                    10 => { let t: [fn(&FnLab, u64) -> u64; 5] = table!(la); l.put_l(t[k]) }
                    11 => { let t: [fn(&Obj) -> &Obj; 5] = table!(rf); l.put_r(t[k]) }
                    12 => l.put_h(table!(sh)[k]),
                    13 => { let t: [InOut; 5] = table!(inout); l.put_i(t[k]) }
                    14 => { let t: [Many; 5] = table!(many); l.put_n(t[k]) }
                    15 => { let t: [Cs; 5] = table!(cs); l.put_x(t[k]) }
                    16 => { let t: [HueFn; 5] = table!(hue); l.put_e(t[k]) }
                    17 => l.put_k(table!(pks)[k]),
                    18 => { let t: [StrY; 5] = table!(stry); l.put_y(t[k]) }
                    19 => { let t: [Mref; 5] = table!(mref); l.put_q(t[k]) }
                    _ => l.put_g(table!(two)[k]),
                }
                m[sig].push(k);
            }
            2 => {
                let n = m[sig].len();
                if n == 0 || n > 20 { continue; }
                let (op, i, j) = (s.below(8) as u32, s.us(n), s.us(n));
                s.note(|| format!("C++ container op {op} on signature {sig}, i={i} j={j}"));
                lab.pin_mut().op(sig as u32, op, i, j);
                kinds |= 1 << op;
                let v = &mut m[sig];
                match op {
                    0 | 4 => { let x = v[i]; v.push(x); }
                    1 => v[i] = v[j],
                    2 => v.swap(i, j),
                    3 => { v.remove(i); }
                    7 => { let x = v[i]; v.insert(j, x); }
                    _ => {}
                }
            }
            _ => {
                let n = m[sig].len();
                if n == 0 { continue; }
                let i = s.us(n);
                let k = m[sig][i];
                s.note(|| format!("call {i} (function {k}) of signature {sig}"));
                calls += 1;
                let x = s.u64();
                macro_rules! same { ($got:expr, $want:expr) => {{ let (g, w) = ($got, $want); if g != w { return Err(format!("function {k} of signature {sig} called with {x}: {g:?}, expected {w:?}")); } }} }
                match sig {
                    0 => same!(lab.call_u(i, x), table!(u)[k](x)),
                    1 => { let t = gen_text(s, 10); let f: [fn(&str) -> String; 5] = table!(st); same!(lab.call_s(i, &t), f[k](&t)) }
                    2 => same!(lab.call_b(i, mk_r(x >> 1)).0, table!(bx)[k](mk_r(x >> 1)).0),
                    3 => {
                        let mk = || Pack { text: x.to_string(), t: Tr::new(x >> 1), n: x as u16 };
                        let (g, w) = (lab.call_p(i, mk()), table!(pk)[k](mk()));
                        same!((g.text, g.t.get(), g.n), (w.text, w.t.get(), w.n));
                    }
                    4 => same!(lab.call_o(i, ffi::new_obj(x)).as_ref().map(Obj::id), table!(ob)[k](ffi::new_obj(x)).as_ref().map(Obj::id)),
                    5 => {
                        let (mut a, mut b) = (x, x);
                        let (p, q, r) = (s.u64() as i8, s.f64(), s.coin());
                        lab.call_m(i, &mut a, p, q, r);
                        let f: [fn(&mut u64, i8, f64, bool); 5] = table!(mu);
                        f[k](&mut b, p, q, r);
                        same!(a, b);
                    }
                    6 => {
                        let v: Vec<String> = (0..s.us(4)).map(|_| gen_text(s, 6)).collect();
                        let b = gen_bytes(s, 6);
                        let f: [fn(Vec<String>, &[u8]) -> Vec<String>; 5] = table!(ve);
                        same!(lab.call_v(i, v.clone(), &b), f[k](v, &b));
                    }
                    7 => same!(lab.call_t(i, Tr::new(x >> 1)).get(), table!(tr)[k](Tr::new(x >> 1)).get()),
                    8 => {
                        let t = gen_text(s, 10);
                        lab.call_w(i, t.clone());
                        same!(SEEN.with(|c| std::mem::take(&mut *c.borrow_mut())), format!("{k}:{t}"));
                    }
                    9 => same!(lab.call_z(i), table!(ze)[k]()),
                    10 => {
                        let f: [fn(&FnLab, u64) -> u64; 5] = table!(la);
                        let want = if m[0].is_empty() { k as u64 } else { table!(u)[m[0][k % m[0].len()]](x ^ k as u64).wrapping_add(k as u64) };
                        same!(f[k](&lab, x), want);
                        same!(lab.call_l(i, x), want);
                    }
                    12 => {
                        let o = if s.chance(1, 4) { SharedPtr::null() } else { ffi::share_obj(ffi::new_obj(x)) };
                        let (g, w) = (lab.call_h(i, o.clone()), table!(sh)[k](o.clone()));
                        same!(g.as_ref().map(Obj::id), w.as_ref().map(Obj::id));
                        if k == 0 || k == 2 { same!(g.as_ref().map(|g| g as *const Obj), o.as_ref().map(|o| o as *const Obj)); }
                    }
                    13 => {
                        let mut o = ffi::new_obj(x);
                        let (t, v) = (gen_text(s, 6), gen_bytes(s, 6));
                        let l: Vec<u16> = (0..s.us(5)).map(|_| s.u64() as u16).collect();
                        let (mut a, mut b) = ((t.clone(), v.clone(), l.clone()), (t, v, l));
                        let f: [InOut; 5] = table!(inout);
                        let g = lab.call_i(i, o.pin_mut(), &mut a.0, &mut a.1, &mut a.2);
                        let w = f[k](o.pin_mut(), &mut b.0, &mut b.1, &mut b.2);
                        same!((g, a), (w, b));
                    }
                    14 => {
                        let f: [Many; 5] = table!(many);
                        let (a, b, c, d, e, ff) = (s.coin(), s.u64() as i8, s.u64() as u16, f32::from_bits(s.u64() as u32), s.i64(), s.u64() as usize);
                        let (g, h, kk, l) = (gen_text(s, 4), s.u64() as u8, s.f64(), s.u64() as i32);
                        let m: Vec<u32> = (0..s.us(4)).map(|_| s.u64() as u32).collect();
                        let got = (lab.call_n(i, a, b, c, d, e, ff, &g, h, kk, l, &m).to_bits(), SEEN.with(|c| std::mem::take(&mut *c.borrow_mut())));
                        let want = (f[k](a, b, c, d, e, ff, &g, h, kk, l, &m).to_bits(), SEEN.with(|c| std::mem::take(&mut *c.borrow_mut())));
                        same!(got, want);
                    }
                    15 => {
                        let f: [Cs; 5] = table!(cs);
                        let t = gen_bytes(s, 40);
                        let n = s.us(5) as u64;
                        let mk = || { let mut v = ffi::new_u64s(); for j in 1..n { v.pin_mut().push(x ^ j); } if n == 0 { UniquePtr::null() } else { v } };
                        let_cxx_string!(t = t);
                        let show = |u: UniquePtr<CxxString>| (u.as_ref().map(|u| u.as_bytes().to_vec()), SEEN.with(|c| std::mem::take(&mut *c.borrow_mut())));
                        let got = show(lab.call_x(i, &t, mk()));
                        let want = show(f[k](&t, mk()));
                        same!(got, want);
                    }
                    16 => {
                        let f: [HueFn; 5] = table!(hue);
                        let h = Hue { repr: s.u64() as i16 };
                        let p = pair(s);
                        same!(lab.call_e(i, h, &x, p).repr, f[k](h, &x, p).repr);
                    }
                    17 => {
                        let n = s.us(4) as u64;
                        let mk = |j: u64| Pack { text: (x ^ j).to_string(), t: Tr::new((x ^ j) >> 1), n: j as u16 };
                        let m = s.below(4) as u8;
                        let show = |v: Vec<Pack>| v.iter().map(|p| (p.text.clone(), p.t.get(), p.n)).collect::<Vec<_>>();
                        let got = show(lab.call_k(i, (0..n).map(mk).collect(), mk(9), m));
                        same!(got, show(table!(pks)[k]((0..n).map(mk).collect(), mk(9), m)));
                    }
                    18 => {
                        let f: [StrY; 5] = table!(stry);
                        let p = Pack { text: x.to_string(), t: Tr::new(x >> 1), n: 0 };
                        let b = s.u64() as u8;
                        let (g, w) = (unsafe { lab.call_y(i, &p, b) }, f[k](&p, b));
                        same!((g, g.as_ptr()), (w, w.as_ptr()));
                    }
                    19 => {
                        let f: [Mref; 5] = table!(mref);
                        let mk = || Pack { text: x.to_string(), t: Tr::new(x >> 1), n: x as u16 };
                        let (mut p, mut q) = (mk(), mk());
                        let at = &raw const p.text;
                        let g = unsafe { lab.call_q(i, &mut p) };
                        if !std::ptr::eq(g, at) { return Err(format!("function {k} of signature {sig} returned a different reference")); }
                        f[k](&mut q);
                        same!((p.text.as_str(), p.n), (q.text.as_str(), q.n));
                    }
                    20 => {
                        let (p, q, t) = (pair(s), pair(s), gen_text(s, 8));
                        let (g, w) = (lab.call_g(i, p, t.clone(), q), table!(two)[k](p, t, q));
                        same!((g.a, g.b.to_bits(), g.c), (w.a, w.b.to_bits(), w.c));
                    }
                    _ => {
                        let o = ffi::new_obj(x);
                        if !lab.call_r(i, &o) { return Err(format!("function {k} of signature {sig} returned a different reference")); }
                        same!(SEEN.with(|c| std::mem::take(&mut *c.borrow_mut())), k.to_string());
                    }
                }
            }
        }
        if lab.len(sig as u32) != m[sig].len() { return Err(format!("signature {sig}: {} functions stored, expected {}", lab.len(sig as u32), m[sig].len())); }
    }
    // Passed, not stored.
    let (f, g, order, x) = (s.us(5), s.us(5), s.below(16) as u32, s.u64());
    let want = (0..4).fold(x, |x, k| if order >> k & 1 == 1 { table!(u)[g](x) } else { table!(u)[f](x) });
    let got = ffi::apply(table!(u)[f], table!(u)[g], x, order);
    if got != want { return Err(format!("apply({f}, {g}, {x}, {order:04b}) = {got}, expected {want}")); }
    drop(lab);
    if !live().is_empty() || ffi::live_objs() != objs { return Err(format!("values not destroyed: {:?}", live())); }
    if calls >= 3 && kinds != 0 { s.nontrivial(); }
    Ok(())
}

macro_rules! case {
    ($n:expr, $q:expr, $t:expr, $f:expr) => { Prop { name: $n, quick: $q, thorough: $t, f: |s| balanced(s, $f) } };
}
pub fn c10() -> Vec<Prop> {
    vec![
        case!("chains", 60_000, 3_000_000, chains),
        case!("messages", 60_000, 2_000_000, messages),
        case!("error_values", 100_000, 1_500_000, error_values),
    ]
}
pub fn c11() -> Vec<Prop> {
    vec![Prop { name: "panics", quick: 16_000, thorough: 100_000, f: panics }]
}
pub fn c26() -> Vec<Prop> {
    vec![case!("fn_histories", 400_000, 4_000_000, fns)]
}
