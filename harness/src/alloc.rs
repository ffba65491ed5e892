//! Counts the bytes in use, for the memory watchdog.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Counting;
static IN_USE: AtomicUsize = AtomicUsize::new(0);

pub fn in_use() -> usize {
    IN_USE.load(Relaxed)
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        IN_USE.fetch_add(l.size(), Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        IN_USE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        IN_USE.fetch_add(n, Relaxed);
        IN_USE.fetch_sub(l.size(), Relaxed);
        System.realloc(p, l, n)
    }
}
