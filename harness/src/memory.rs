//! Counts the bytes each thread allocates and holds.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static FREED: Cell<u64> = const { Cell::new(0) };
}

struct Counting;

fn add(n: usize) {
    BYTES.with(|b| b.set(b.get().wrapping_add(n as u64)));
}

fn sub(n: usize) {
    FREED.with(|b| b.set(b.get().wrapping_add(n as u64)));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n);
        sub(l.size());
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static ALLOCATOR: Counting = Counting;

/// The bytes this thread has allocated so far.
pub fn allocated() -> u64 {
    BYTES.with(Cell::get)
}

/// The bytes it holds of them, less those of other threads that it has freed.
pub fn held() -> i64 {
    (BYTES.with(Cell::get) as i64).wrapping_sub(FREED.with(Cell::get) as i64)
}
