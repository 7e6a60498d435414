//! Allocation accounting through the sanitizer's malloc hooks (covers both
//! languages), plus a global allocator which checks that Rust frees memory with
//! the layout it was allocated with.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::os::raw::{c_int, c_void};
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering};

extern "C" {
    fn __sanitizer_install_malloc_and_free_hooks(
        m: extern "C" fn(*const c_void, usize),
        f: extern "C" fn(*const c_void),
    ) -> c_int;
    fn __sanitizer_get_allocated_size(p: *const c_void) -> usize;
    fn abort() -> !;
}

static LIVE: AtomicI64 = AtomicI64::new(0);
static ON: AtomicBool = AtomicBool::new(false);

extern "C" fn on_malloc(p: *const c_void, _n: usize) {
    if !p.is_null() && ON.load(Ordering::Relaxed) { LIVE.fetch_add(1, Ordering::Relaxed); }
}
extern "C" fn on_free(p: *const c_void) {
    if !p.is_null() && ON.load(Ordering::Relaxed) { LIVE.fetch_sub(1, Ordering::Relaxed); }
}

pub fn install() {
    let r = unsafe { __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free) };
    assert!(r != 0);
    ON.store(true, Ordering::Relaxed);
}

pub fn live() -> i64 {
    LIVE.load(Ordering::Relaxed)
}

pub struct Checked;
#[global_allocator]
static A: Checked = Checked;

thread_local!(static _UNUSED: Cell<u8> = const { Cell::new(0) });

unsafe fn verify(p: *mut u8, l: Layout, what: &str) {
    let n = __sanitizer_get_allocated_size(p.cast());
    if n != l.size() || (p as usize) % l.align() != 0 {
        eprintln!("==1==ERROR: AddressSanitizer: layout mismatch in {what}: block of {n} bytes freed as {l:?}");
        abort();
    }
}

unsafe impl GlobalAlloc for Checked {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        verify(p, l, "dealloc");
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        verify(p, l, "realloc");
        // Always move, so that stale pointers are caught.
        let nl = Layout::from_size_align_unchecked(n, l.align());
        let q = System.alloc(nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            System.dealloc(p, l);
        }
        q
    }
}

/// Run `f` and require that every block it allocated is freed again. Lazily
/// created process state is tolerated by re-running the same case.
pub fn balanced(s: &mut pbt::Src, f: fn(&mut pbt::Src) -> pbt::Outcome) -> pbt::Outcome {
    let a = live();
    f(s)?;
    let b = live();
    if a == b {
        return Ok(());
    }
    let mut last = 0;
    for _ in 0..2 {
        let mut again = pbt::Src::replay(s.choices().to_vec());
        let a = live();
        f(&mut again)?;
        last = live() - a;
        if last == 0 {
            return Ok(());
        }
    }
    Err(format!("leak: {last} heap block(s) remain after the case"))
}
