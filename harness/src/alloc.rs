//! Counts the bytes and blocks each thread has allocated and not freed.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;
thread_local! {
    static BYTES: Cell<isize> = const { Cell::new(0) };
    static BLOCKS: Cell<isize> = const { Cell::new(0) };
    static EVER: Cell<u64> = const { Cell::new(0) };
}
fn note(bytes: isize, blocks: isize) {
    let _ = BYTES.try_with(|c| c.set(c.get() + bytes));
    let _ = BLOCKS.try_with(|c| c.set(c.get() + blocks));
    let _ = EVER.try_with(|c| c.set(c.get() + 1));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            note(l.size() as isize, 1);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        note(-(l.size() as isize), -1);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            note(n as isize - l.size() as isize, 0);
        }
        q
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            note(l.size() as isize, 1);
        }
        p
    }
}
/// (bytes, blocks) allocated and not freed by this thread
pub fn live() -> (isize, isize) {
    (BYTES.with(|c| c.get()), BLOCKS.with(|c| c.get()))
}
/// operations of the allocator so far in this thread: a deterministic measure of work
pub fn work() -> u64 {
    EVER.with(|c| c.get())
}
