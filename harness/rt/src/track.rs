//! `lab::Tr`: relocatable C++ type passed by value; see cpp/track.h.
use std::cell::RefCell;
use std::collections::BTreeMap;
extern "C" {
    fn lab_tr_free(p: *mut u64);
    fn lab_tr_new(v: u64) -> *mut u64;
}
#[repr(C)]
pub struct Tr {
    owned: *mut u64,
}
unsafe impl cxx::ExternType for Tr {
    type Id = cxx::type_id!("lab::Tr");
    type Kind = cxx::kind::Trivial;
}
impl Tr {
    pub fn new(v: u64) -> Tr {
        Tr { owned: unsafe { lab_tr_new(v) } }
    }
    pub fn get(&self) -> u64 {
        if self.owned.is_null() { u64::MAX } else { unsafe { *self.owned } }
    }
}
impl Drop for Tr {
    fn drop(&mut self) {
        unsafe { lab_tr_free(self.owned) }
    }
}

thread_local!(static LIVE: RefCell<BTreeMap<u64, u32>> = const { RefCell::new(BTreeMap::new()) });
pub fn born(id: u64) {
    LIVE.with(|l| *l.borrow_mut().entry(id).or_insert(0) += 1);
}
pub fn died(id: u64) {
    LIVE.with(|l| {
        let mut l = l.borrow_mut();
        match l.get_mut(&id) {
            Some(n) if *n > 1 => *n -= 1,
            Some(_) => { l.remove(&id); }
            // Dropped more often than created.
            None => std::process::abort(),
        }
    })
}
/// Ids of the live Rust objects, with multiplicity.
pub fn live() -> Vec<u64> {
    LIVE.with(|l| l.borrow().iter().flat_map(|(k, n)| std::iter::repeat(*k).take(*n as usize)).collect())
}
pub fn reset() {
    LIVE.with(|l| *l.borrow_mut() = BTreeMap::new());
}
