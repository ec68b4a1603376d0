//! Memory accounting: bytes allocated and freed on this thread while counting
//! is switched on.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

fn add(n: i64) {
    let _ = ON.try_with(|on| {
        if on.get() {
            let _ = LIVE.try_with(|l| {
                let v = l.get() + n;
                l.set(v);
                let _ = PEAK.try_with(|p| p.set(p.get().max(v)));
            });
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

/// Back to how it was before.
pub struct Back(bool);
impl Drop for Back {
    fn drop(&mut self) {
        let _ = ON.try_with(|c| c.set(self.0));
    }
}

/// Counting is off while this lives.
pub fn pause() -> Back {
    Back(ON.with(|c| c.replace(false)))
}

/// Runs `f` with counting switched on, or off.
pub fn counting<R>(on: bool, f: impl FnOnce() -> R) -> R {
    let _b = Back(ON.with(|c| c.replace(on)));
    f()
}

/// Bytes held by what was counted so far.
pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}

pub fn reset() {
    LIVE.with(|l| l.set(0));
    PEAK.with(|p| p.set(0));
}

/// The most that was live since the last call.
pub fn peak() -> i64 {
    PEAK.with(|p| p.replace(live()))
}
