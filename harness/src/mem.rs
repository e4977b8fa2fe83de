//! Counting allocator: per-thread live/peak/total bytes, and injected allocation failures.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;
thread_local! {
    static TOTAL: Cell<usize> = const { Cell::new(0) };
    static CALLS: Cell<usize> = const { Cell::new(0) };
    static MAXONE: Cell<usize> = const { Cell::new(0) };
    static FAIL_OVER: Cell<usize> = const { Cell::new(usize::MAX) };
    static FAILED: Cell<usize> = const { Cell::new(0) };
}
fn note(size: usize) -> bool {
    let fail = FAIL_OVER.try_with(|f| size > f.get()).unwrap_or(false);
    if fail { let _ = FAILED.try_with(|c| c.set(c.get() + 1)); return false; }
    let _ = TOTAL.try_with(|c| c.set(c.get().wrapping_add(size)));
    let _ = CALLS.try_with(|c| c.set(c.get() + 1));
    let _ = MAXONE.try_with(|c| if size > c.get() { c.set(size) });
    true
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if note(l.size()) { unsafe { System.alloc(l) } } else { std::ptr::null_mut() }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if note(l.size()) { unsafe { System.alloc_zeroed(l) } } else { std::ptr::null_mut() }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { unsafe { System.dealloc(p, l) } }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if note(n) { unsafe { System.realloc(p, l, n) } } else { std::ptr::null_mut() }
    }
}
pub struct Usage { pub total: usize, pub max_one: usize, pub calls: usize, pub failed: usize }
/// Run `f` and report what this thread allocated meanwhile.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Usage) {
    let t0 = TOTAL.with(|c| c.get());
    let c0 = CALLS.with(|c| c.get());
    let m0 = MAXONE.with(|c| c.replace(0));
    let r = f();
    let u = Usage {
        total: TOTAL.with(|c| c.get()).wrapping_sub(t0), calls: CALLS.with(|c| c.get()) - c0,
        max_one: MAXONE.with(|c| c.get()), failed: 0,
    };
    MAXONE.with(|c| c.set(m0.max(u.max_one)));
    (r, u)
}
/// Run `f` with every single allocation larger than `over` bytes failing.
pub fn failing<T>(over: usize, f: impl FnOnce() -> T) -> (T, usize) {
    struct Reset;
    impl Drop for Reset { fn drop(&mut self) { FAIL_OVER.with(|c| c.set(usize::MAX)); } }
    FAILED.with(|c| c.set(0));
    let r = { let _g = Reset; FAIL_OVER.with(|c| c.set(over)); f() };
    (r, FAILED.with(|c| c.get()))
}
