//! The allocator: requests no honest use of the library would make are refused (the process then aborts, as it
//! would on a machine without the memory), so that "allocates what a damaged length field says" is visible.
use crate::interpose::active;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering};

pub const LIMIT: usize = 64 << 20;
pub static REFUSED: AtomicUsize = AtomicUsize::new(0);
/// bytes allocated and not yet freed by code of the library
pub static LIVE: AtomicI64 = AtomicI64::new(0);
fn book(n: i64) {
    if active() {
        LIVE.fetch_add(n, Ordering::Relaxed);
    }
}
pub struct Alloc;
fn refuse(n: usize) -> bool {
    if n > LIMIT && active() {
        REFUSED.store(n, Ordering::Relaxed);
        return true;
    }
    false
}
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if refuse(l.size()) {
            return std::ptr::null_mut();
        }
        book(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        book(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if refuse(l.size()) {
            return std::ptr::null_mut();
        }
        book(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if refuse(n) {
            return std::ptr::null_mut();
        }
        book(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
