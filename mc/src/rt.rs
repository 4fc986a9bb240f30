//! Counting allocator: records heap operations made while the current thread is inside a real-time section.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, Ordering};

pub struct Counting;
thread_local! {
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static FREES: Cell<u64> = const { Cell::new(0) };
}
#[inline]
fn note(c: &'static std::thread::LocalKey<Cell<u64>>) {
    if ARMED.try_with(|a| a.get()).unwrap_or(false) {
        let _ = c.try_with(|c| c.set(c.get() + 1));
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(&ALLOCS);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(&ALLOCS);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(&ALLOCS);
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(&FREES);
        System.dealloc(p, l)
    }
}
/// Run a real-time section.
#[inline]
pub fn section<R>(f: impl FnOnce() -> R) -> R {
    struct Disarm;
    impl Drop for Disarm {
        fn drop(&mut self) {
            ARMED.with(|a| a.set(false));
        }
    }
    let _d = Disarm;
    ARMED.with(|a| a.set(true));
    f()
}
/// Heap operations in real-time sections of this thread since last call: allocations and frees.
pub fn take() -> (u64, u64) {
    (ALLOCS.with(|c| c.replace(0)), FREES.with(|c| c.replace(0)))
}
pub static CHECK: AtomicBool = AtomicBool::new(false);
/// If heap checking is on, fail if there were heap operations.
pub fn check() -> Result<(), String> {
    if CHECK.load(Ordering::Relaxed) {
        let (a, f) = take();
        if a + f > 0 {
            return Err(format!("{} heap allocations and {} frees while processing", a, f));
        }
    }
    Ok(())
}
