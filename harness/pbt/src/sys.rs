//! Process isolation: fork, shared memory, wait.
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_long, c_uint, c_void};
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};
use std::ptr;
use std::sync::atomic::{AtomicU64, Ordering};

extern "C" {
    #[link_name = "fork"]
    fn c_fork() -> c_int;
    fn waitpid(pid: c_int, st: *mut c_int, opt: c_int) -> c_int;
    fn mmap(a: *mut c_void, n: usize, p: c_int, f: c_int, fd: c_int, o: c_long) -> *mut c_void;
    fn munmap(a: *mut c_void, n: usize) -> c_int;
    fn _exit(c: c_int) -> !;
    #[link_name = "alarm"]
    fn c_alarm(s: c_uint) -> c_uint;
    fn open(p: *const c_char, f: c_int, ...) -> c_int;
    fn dup2(a: c_int, b: c_int) -> c_int;
    fn close(a: c_int) -> c_int;
}

pub enum Status {
    Exited(i32),
    Signaled(i32),
}

pub fn fork() -> i32 {
    use std::io::Write;
    let _ = std::io::stdout().flush();
    let p = unsafe { c_fork() };
    assert!(p >= 0, "fork failed");
    p
}
pub fn wait(pid: i32) -> Status {
    let mut st = 0;
    loop {
        let r = unsafe { waitpid(pid, &mut st, 0) };
        if r == pid { break; }
        if std::io::Error::last_os_error().kind() == std::io::ErrorKind::Interrupted { continue; }
        panic!("waitpid failed");
    }
    if st & 0x7f == 0 { Status::Exited((st >> 8) & 0xff) } else { Status::Signaled(st & 0x7f) }
}
pub fn exit_now(c: i32) -> ! {
    unsafe { _exit(c) }
}
pub fn alarm(s: u32) {
    unsafe { c_alarm(s) };
}
pub fn redirect_stderr(p: &Path) {
    let c = CString::new(p.as_os_str().as_bytes()).unwrap();
    unsafe {
        let fd = open(c.as_ptr(), 0o1 | 0o100 | 0o1000, 0o600 as c_uint);
        if fd >= 0 { dup2(fd, 2); close(fd); }
    }
}
static N: AtomicU64 = AtomicU64::new(0);
pub fn temp_path(kind: &str) -> PathBuf {
    std::env::temp_dir().join(format!("pbt-{}-{}-{}", std::process::id(), kind, N.fetch_add(1, Ordering::Relaxed)))
}

fn map(n: usize) -> *mut c_void {
    // PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE
    let p = unsafe { mmap(ptr::null_mut(), n, 3, 0x1 | 0x20 | 0x4000, -1, 0) };
    assert!(p as isize != -1, "mmap failed");
    p
}

const TEXT: usize = 1 << 18;
const FAIL: usize = 1 << 14;

#[repr(C)]
struct Area {
    current: u64,
    nchoices: u64,
    ntext: u64,
    nfail: u64,
    choices: [u64; super::MAX_LOG],
    text: [u8; TEXT],
    fail: [u8; FAIL],
}

/// Shared between a worker and its parent.
#[derive(Clone)]
pub struct Shared(*mut Area);
impl Default for Shared {
    fn default() -> Self { Shared::new() }
}
impl Shared {
    pub fn new() -> Shared { Shared(map(std::mem::size_of::<Area>()).cast()) }
    pub fn begin_case(&self, i: u64) {
        unsafe { (*self.0).current = i; (*self.0).nchoices = 0; (*self.0).ntext = 0; (*self.0).nfail = 0; }
    }
    pub fn current(&self) -> u64 { unsafe { (*self.0).current } }
    pub fn push_choice(&self, v: u64) {
        unsafe {
            let a = &mut *self.0;
            let n = a.nchoices as usize;
            if n < super::MAX_LOG { a.choices[n] = v; a.nchoices += 1; }
        }
    }
    pub fn choices(&self) -> Vec<u64> { unsafe { let a = &*self.0; a.choices[..a.nchoices as usize].to_vec() } }
    pub fn push_text(&self, s: &str) {
        unsafe {
            let a = &mut *self.0;
            let n = a.ntext as usize;
            let b = s.as_bytes();
            if n + b.len() + 1 < TEXT {
                a.text[n..n + b.len()].copy_from_slice(b);
                a.text[n + b.len()] = b'\n';
                a.ntext += b.len() as u64 + 1;
            }
        }
    }
    pub fn text(&self) -> String { unsafe { let a = &*self.0; String::from_utf8_lossy(&a.text[..a.ntext as usize]).into_owned() } }
    pub fn set_fail(&self, s: &str) {
        unsafe {
            let a = &mut *self.0;
            let s = if s.is_empty() { "failed" } else { s };
            let b = &s.as_bytes()[..s.len().min(FAIL)];
            a.fail[..b.len()].copy_from_slice(b);
            a.nfail = b.len() as u64;
        }
    }
    pub fn fail(&self) -> String { unsafe { let a = &*self.0; String::from_utf8_lossy(&a.fail[..a.nfail as usize]).into_owned() } }
    pub fn free(self) { unsafe { munmap(self.0.cast(), std::mem::size_of::<Area>()); } }
}

pub struct SharedU64(*mut u64, usize);
impl SharedU64 {
    pub fn ptr(&self) -> *mut u64 { self.0 }
    pub fn new(n: usize) -> SharedU64 { SharedU64(map((n + 1) * 8).cast(), n) }
    pub fn set(&self, i: usize, v: u64) { assert!(i < self.1); unsafe { *self.0.add(i) = v } }
    pub fn get(&self, i: usize) -> u64 { assert!(i < self.1); unsafe { *self.0.add(i) } }
    pub fn free(self) { unsafe { munmap(self.0.cast(), (self.1 + 1) * 8); } }
}
