//! Counting allocator: live and peak bytes allocated by the current thread since [`reset`]. Past a
//! hard cap allocations fail (the process aborts, which the parent reports with the case).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static ON: Cell<bool> = const { Cell::new(false) };
}
pub const HARD_CAP: i64 = 1 << 30;

fn add(n: i64) -> bool {
    if !ON.try_with(|o| o.get()).unwrap_or(false) {
        return true;
    }
    LIVE.with(|l| {
        let v = l.get() + n;
        if n > 0 && v > HARD_CAP {
            return false;
        }
        l.set(v);
        PEAK.with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
        true
    })
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !add(l.size() as i64) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !add(l.size() as i64) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !add(n as i64 - l.size() as i64) {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}

pub fn reset() {
    ON.with(|o| o.set(true));
    LIVE.with(|l| l.set(0));
    PEAK.with(|p| p.set(0));
}
/// Restarts peak measurement; returns the live count to subtract.
pub fn mark() -> i64 {
    let l = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(l));
    l
}
pub fn peak_since(mark: i64) -> i64 {
    PEAK.with(|p| p.get()) - mark
}
