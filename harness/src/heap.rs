//! An allocator that counts what the current thread asks of it.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;
thread_local! {
    static CALLS: Cell<u64> = const { Cell::new(0) };
}
fn tick() {
    let _ = CALLS.try_with(|c| c.set(c.get() + 1));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        tick();
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        tick();
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        tick();
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        tick();
        System.realloc(p, l, n)
    }
}
/// The result of `f` and the number of calls of the allocator it made.
pub fn counted<T>(f: impl FnOnce() -> T) -> (T, u64) {
    let a = CALLS.with(|c| c.get());
    let x = f();
    let b = CALLS.with(|c| c.get());
    (x, b - a)
}
