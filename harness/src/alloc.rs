//! Counting allocator: per-thread live/peak bytes (only while a measurement is armed).

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

pub struct Counting;

fn change(d: i64) {
    let _ = ARMED.try_with(|a| {
        if a.get() {
            LIVE.with(|l| {
                let v = l.get() + d;
                l.set(v);
                PEAK.with(|p| {
                    if v > p.get() {
                        p.set(v)
                    }
                });
            });
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        change(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        change(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        change(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // Count as the allocation of the new block while the old one is still live.
        change(n as i64);
        let r = System.realloc(p, l, n);
        change(-(l.size() as i64));
        r
    }
}

/// Peak of bytes allocated by `f` on this thread above the level at the start.
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, i64) {
    ARMED.with(|a| a.set(true));
    LIVE.with(|l| l.set(0));
    PEAK.with(|p| p.set(0));
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            ARMED.with(|a| a.set(false));
        }
    }
    let _off = Off;
    let r = f();
    let p = PEAK.with(|p| p.get());
    (r, p)
}

/// Exclude harness work from a running measurement.
pub fn unmeasured<T>(f: impl FnOnce() -> T) -> T {
    let was = ARMED.with(|a| a.replace(false));
    struct Back(bool);
    impl Drop for Back {
        fn drop(&mut self) {
            ARMED.with(|a| a.set(self.0));
        }
    }
    let _b = Back(was);
    f()
}
