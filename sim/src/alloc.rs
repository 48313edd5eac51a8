//! Counting allocator: current and peak bytes per thread, with a hard cap while a decode is measured.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static NOW: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static BIGGEST: Cell<u64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static REFUSED: Cell<u64> = const { Cell::new(0) };
}
/// Requests above this are refused while measuring (the process has "no more memory").
pub const HARD_CAP: u64 = 256 << 20;

fn add(n: usize) -> bool {
    ON.try_with(|on| {
        if on.get() {
            let now = NOW.get() + n as i64;
            if now > HARD_CAP as i64 {
                REFUSED.set(REFUSED.get() + 1);
                BIGGEST.set(BIGGEST.get().max(n as u64));
                return false;
            }
            NOW.set(now);
            PEAK.set(PEAK.get().max(now));
            BIGGEST.set(BIGGEST.get().max(n as u64));
            CALLS.set(CALLS.get() + 1);
        }
        true
    })
    .unwrap_or(true)
}
fn sub(n: usize) {
    let _ = ON.try_with(|on| {
        if on.get() {
            NOW.set(NOW.get() - n as i64);
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !add(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !add(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if new > l.size() {
            if !add(new - l.size()) {
                return std::ptr::null_mut();
            }
        } else {
            sub(l.size() - new);
        }
        System.realloc(p, l, new)
    }
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Use {
    pub net: i64,
    pub peak: i64,
    pub biggest: u64,
    pub calls: u64,
}
/// Start measuring on this thread.
pub fn start() {
    NOW.set(0);
    PEAK.set(0);
    BIGGEST.set(0);
    CALLS.set(0);
    ON.set(true);
}
pub fn stop() -> Use {
    ON.set(false);
    Use { net: NOW.get(), peak: PEAK.get(), biggest: BIGGEST.get(), calls: CALLS.get() }
}
/// Look without stopping.
pub fn peek() -> Use {
    Use { net: NOW.get(), peak: PEAK.get(), biggest: BIGGEST.get(), calls: CALLS.get() }
}
/// Leave simulator bookkeeping out of the measurement.
pub fn pause<R>(f: impl FnOnce() -> R) -> R {
    let was = ON.get();
    ON.set(false);
    let r = f();
    ON.set(was);
    r
}
