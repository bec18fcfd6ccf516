//! A global allocator that accounts for what the current thread holds, so that
//! a check can measure the peak memory of one call.

use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::Cell,
};

pub struct Counting;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static CAP: Cell<isize> = const { Cell::new(isize::MAX) };
}

fn add(n: isize) -> bool {
    LIVE.try_with(|l| {
        let v = l.get().saturating_add(n);
        if n > 0 {
            // The peak includes requests that are refused.
            let _ = PEAK.try_with(|p| p.set(p.get().max(v)));
            if CAP.try_with(|c| v > c.get()).unwrap_or(false) {
                return false;
            }
        }
        l.set(v);
        true
    })
    .unwrap_or(true)
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !add(l.size() as isize) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !add(l.size() as isize) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        // The old block is alive until the new one has been filled.
        if !add(new as isize) {
            return std::ptr::null_mut();
        }
        let r = System.realloc(p, l, new);
        add(-(if r.is_null() { new } else { l.size() } as isize));
        r
    }
}

/// Runs `f` and returns the highest number of bytes that this thread held
/// above what it held before. More than `cap` bytes are refused.
pub fn peak<T>(cap: usize, f: impl FnOnce() -> T) -> (T, usize) {
    let before = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(before));
    CAP.with(|c| c.set(before.saturating_add(cap as isize)));
    let r = f();
    CAP.with(|c| c.set(isize::MAX));
    let peak = PEAK.with(|p| p.get());
    (r, (peak - before).max(0) as usize)
}

/// What this thread holds.
pub fn live() -> isize {
    LIVE.with(|l| l.get())
}
